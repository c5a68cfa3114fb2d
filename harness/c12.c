/* Formatted printing.  Argument lists are laid out by hand (SysV x86-64), so that any format
 * can be paired with any arguments and given to zpl and to the C library alike. */
#include "vz.h"
typedef struct { unsigned gp, fp; void *stack, *regs; } va_img;
static void mk(va_list va, uint64_t *a) { va_img v; v.gp = 48; v.fp = 304; v.stack = a; v.regs = 0; memcpy(va, &v, sizeof v); }
static zpl_isize P(char *b, size_t n, const char *f, uint64_t *a) { va_list va; mk(va, a); return zpl_snprintf_va(b, (zpl_isize)n, f, va); }
static int C(char *b, size_t n, const char *f, uint64_t *a) { va_list va; mk(va, a); return vsnprintf(b, n, f, va); }
typedef struct { char spec[40]; int kind, na, a0, prec, width, left, sgn, zero; } piece; /* kind: 0 literal 1 exact 2 fraction 3 pointer 4 percent 5 repeat */
static char fmt[2000]; static uint64_t args[64]; static int nargs; static piece pc[40]; static int npc;
static char *strs[40]; static int nstrs;
static int longs, nolong; /* at most one long string per format */
static char *newstr(void) { size_t n = vz_pct(85) ? vz_u(14) : vz_u(200), i; if (!longs && vz_u(60) == 0) { longs = 1; n = vz_u(60000); vz_stat("long strings", 1); } char *s = malloc(n + 1); for (i = 0; i < n; i++) s[i] = vz_pct(85) ? (char)vz_range(32, 126) : (char)(1 + vz_u(255)); s[n] = 0; return strs[nstrs++] = s; }
static void drop(void) { while (nstrs) free(strs[--nstrs]); }
static double rreal(void) {
    double m; switch (vz_u(6)) { case 0: return (double)vz_range(-1000, 1000); case 1: return vz_unit() * 2 - 1; case 2: m = vz_unit() * pow(10, (double)vz_range(-12, 18)); return vz_pct(50) ? -m : m;
        case 3: return (double)vz_range(-100000, 100000) / 100.0; case 4: return (double)(int64_t)(vz_r() >> vz_range(1, 60)); default: return (double)vz_range(0, 999999) / 1e6 + (double)vz_u(10); }
}
/* a well-formed directive sequence of the supported set */
static int rwidth(int most) { return (int)(vz_pct(92) ? vz_range(1, most) : vz_pct(70) ? vz_range(100, 300) : vz_range(25, 1200)); }
static int rprec(void) { return (int)(vz_pct(92) ? vz_u(22) : vz_u(400)); }
static void gen(int maxdir) {
    int n = (int)vz_range(0, maxdir), i; char *o = fmt; npc = nargs = 0; longs = nolong;
    for (i = 0; i < n; i++) {
        piece *p = &pc[npc]; char *s = p->spec; int k = (int)vz_u(100), w = 0; memset(p, 0, sizeof *p); p->prec = -1; p->a0 = nargs;
        if (vz_pct(60)) { int m = (int)vz_range(1, 6); while (m--) *s++ = "abc XYZ|:\n_"[vz_u(11)]; *s = 0; p->kind = 0; o += sprintf(o, "%s", p->spec); npc++; p = &pc[npc]; s = p->spec; memset(p, 0, sizeof *p); p->prec = -1; p->a0 = nargs; }
        *s++ = '%';
        if (k < 55) { /* integer */
            static const char *mod[] = {"", "", "hh", "h", "l", "ll", "z", "t"}; static const char cv[] = "diuoxX"; int m = (int)vz_u(8), c = cv[vz_u(6)]; uint64_t v = vz_edge64();
            int z = vz_pct(30), l = vz_pct(25);
            p->kind = 1; w = vz_pct(50) ? rwidth(24) : 0;
            if (l) *s++ = '-'; if (c != 'u' && c != 'o' && c != 'x' && c != 'X') { if (vz_pct(20)) *s++ = '+'; if (vz_pct(15)) *s++ = ' '; }
            if (z && w) *s++ = '0';
            if (w) { if (vz_pct(30)) { *s++ = '*'; args[nargs++] = (uint64_t)(uint32_t)(vz_pct(20) ? -w : w); } else s += sprintf(s, "%d", w); }
            if (vz_pct(25) && !z) { if (vz_pct(30)) { s += sprintf(s, ".*"); args[nargs++] = (uint64_t)rprec(); } else s += sprintf(s, ".%d", rprec()); }
            s += sprintf(s, "%s%c", mod[m], c);
            if (m < 4) v = (uint64_t)(int64_t)(int32_t)v; args[nargs++] = v;
        } else if (k < 70) {
            int was = longs; char *t = newstr(); p->kind = 1; w = vz_pct(40) ? rwidth(24) : 0; if (longs && !was && vz_pct(60)) w = (int)vz_range(20, 70000), vz_stat("long strings in wider fields", 1); if (vz_pct(30)) *s++ = '-';
            if (w) { if (vz_pct(30)) { *s++ = '*'; args[nargs++] = (uint64_t)(uint32_t)(vz_pct(20) ? -w : w); } else s += sprintf(s, "%d", w); }
            if (vz_pct(40)) { int pr = (int)vz_u(20); if (vz_pct(40)) { s += sprintf(s, ".*"); args[nargs++] = (uint64_t)pr; } else s += sprintf(s, ".%d", pr);
                if (strlen(t) > (size_t)pr && vz_pct(60)) { char *u = vz_dup(t, (size_t)pr); /* unterminated beyond the precision */ if (pr) { free(strs[nstrs - 1]); strs[nstrs - 1] = u; t = u; } else vz_undup(u); } }
            *s++ = 's'; args[nargs++] = (uint64_t)(uintptr_t)t;
        } else if (k < 78) { p->kind = 1; w = vz_pct(30) ? rwidth(10) : 0; if (vz_pct(30)) *s++ = '-'; if (w) s += sprintf(s, "%d", w); *s++ = 'c'; args[nargs++] = (uint64_t)vz_range(1, 126); }
        else if (k < 92) { double d = rreal(); p->kind = 2; p->left = vz_pct(25); p->width = vz_pct(40) ? rwidth(24) : 0; p->prec = vz_pct(70) ? (int)vz_u(vz_pct(80) ? 13 : 40) : -1; p->sgn = 0; p->zero = p->width && vz_pct(30);
            if (p->left) *s++ = '-'; if (vz_pct(20)) { *s++ = ' '; p->sgn = ' '; } if (vz_pct(20)) { *s++ = '+'; p->sgn = '+'; } if (p->zero) *s++ = '0'; if (p->width) { if (vz_pct(30)) { *s++ = '*'; args[nargs++] = (uint64_t)p->width; } else s += sprintf(s, "%d", p->width); }
            if (p->prec >= 0) { if (vz_pct(30)) { s += sprintf(s, ".*"); args[nargs++] = (uint64_t)p->prec; } else s += sprintf(s, ".%d", p->prec); } else p->prec = 6;
            *s++ = 'f'; memcpy(&args[nargs++], &d, 8); *s = 0; p->na = nargs - p->a0; o += sprintf(o, "%s", p->spec); p = &pc[++npc]; memset(p, 0, sizeof *p); p->a0 = nargs; s = p->spec; *s++ = "abc|:;"[vz_u(6)]; }
        else if (k < 95) { p->kind = 3; *s++ = 'p'; args[nargs++] = vz_r() >> vz_u(60); }
        else if (k < 98) { p->kind = 5; p->width = vz_pct(70) ? rwidth(30) : 1; if (p->width > 1) { if (vz_pct(50)) { *s++ = '*'; args[nargs++] = (uint64_t)p->width; } else s += sprintf(s, "%d", p->width); } *s++ = 'r'; args[nargs++] = (uint64_t)vz_range(33, 126); }
        else { p->kind = 4; *s++ = '%'; }
        *s = 0; p->na = nargs - p->a0; o += sprintf(o, "%s", p->spec); npc++;
    }
    *o = 0;
}
static char big[140000], ref[140000];
#ifdef VZ_RENDER
static void t_render(void) {
    zpl_isize r; char *q = big, *e; int i;
    gen((int)vz_range(1, 8)); r = P(big, sizeof big, fmt, args);
    VZ_CHECK(r == (zpl_isize)strlen(big) + 1, "result", "'%s' gave %zd for %zu characters", fmt, (ssize_t)r, strlen(big));
    e = big + strlen(big);
    for (i = 0; i < npc; i++) {
        piece *p = &pc[i]; uint64_t *a = args + p->a0; size_t n;
        switch (p->kind) {
            case 0: strcpy(ref, p->spec); goto cmp;
            case 1: C(ref, sizeof ref, p->spec, a); goto cmp;
            case 3: sprintf(ref, "%llx", (unsigned long long)a[0]); goto cmp;
            case 4: strcpy(ref, "%"); goto cmp;
            case 5: memset(ref, (int)a[p->na - 1], (size_t)p->width); ref[p->width] = 0;
            cmp: n = strlen(ref); VZ_CHECK((size_t)(e - q) >= n && !memcmp(q, ref, n), p->kind == 1 ? (strchr("sc", p->spec[strlen(p->spec) - 1]) ? "string" : "integer") : "other", "directive '%s' of '%s' (argument %lld) gave '%.60s', expected '%.60s'", p->spec, vz_show(fmt, strlen(fmt)), (long long)a[p->na ? p->na - 1 : 0], vz_show(q, strlen(q)), vz_show(ref, n)); q += n; break;
            case 2: { double d; char *s0 = q; size_t n0 = strcspn(q, "abc|:;"), st = 0, en = n0, nat, nz, z0; uint64_t ip, gi = 0, t; long double fr, got = 0, want, unit = 1, diff, tol; int nd = 0, j, sg; double ab; memcpy(&d, &a[p->na - 1], 8); ab = fabs(d); ip = (uint64_t)ab; fr = (long double)ab - (long double)ip;
#define FB(c, what) VZ_CHECK(c, "fraction", "%s: '%s' of %.17g gave '%.50s'", what, p->spec, d, vz_show(s0, n0))
                if (p->left) while (en && s0[en - 1] == ' ') en--; else while (st < n0 && s0[st] == ' ') st++;
                sg = d < 0 ? '-' : p->sgn; if (sg == ' ' && !p->left) { FB(st > 0, "sign"); st--; } if (sg) { FB(s0[st] == sg, "sign"); st++; }
                q = s0 + st; z0 = st; while (*q >= '0' && *q <= '9') { gi = gi * 10 + (uint64_t)(*q - '0'); q++; } nz = (size_t)(q - s0) - z0; FB(nz, "digits");
                if (d == 0 && *q != '.') { FB(gi == 0, "zero"); nat = 1; }
                else {
                    if (p->prec > 0) { FB(*q == '.', "point"); q++; while (nd < p->prec && *q >= '0' && *q <= '9') { got = got * 10 + (*q - '0'); q++; nd++; } FB(nd == p->prec, "digit count"); }
                    want = fr; for (j = 0; j < p->prec; j++) want *= 10, unit *= 10;
                    diff = ((long double)gi - (long double)ip) * unit + (got - want); tol = 1.0L + 1e-15L * unit; FB(diff < tol && diff > -tol, "value");
                    for (nat = 1, t = gi; t > 9; t /= 10) nat++; if (p->prec > 0) nat += 1 + (size_t)p->prec;
                }
                FB(q == s0 + en, "end"); nat += sg != 0;
                FB(n0 == (nat > (size_t)p->width ? nat : (size_t)p->width), "width");
                if (p->zero && !p->left) FB(st == (sg != 0), "zero padding"); else FB(en - (st - (sg != 0)) == nat, "padding");
                q = s0 + n0; break; }
        }
    }
    VZ_CHECK(q == e, "extra", "'%s' printed '%.40s' after the last directive", vz_show(fmt, strlen(fmt)), vz_show(q, strlen(q)));
    vz_distinct(vz_hash(fmt, strlen(fmt), vz_hash(big, strlen(big), 0))); vz_sample("%s -> %.80s", fmt, big); drop();
}
VZ_MAIN({"render", t_render, 1})
#else
static void one_size(size_t n, size_t len, const char *what) {
    char *b = malloc(n ? n : 1); zpl_isize r; size_t k; memset(b, 0x5a, n ? n : 1);
    r = P(b, n, fmt, args);
    if (n == 0) { VZ_CHECK((unsigned char)b[0] == 0x5a && r == -1, "size-zero", "%s '%s' gave %zd", what, vz_show(fmt, strlen(fmt)), (ssize_t)r); free(b); return; }
    k = strnlen(b, n);
    VZ_CHECK(k < n, "terminator", "%s '%s' into %zu bytes is not terminated", what, vz_show(fmt, strlen(fmt)), n);
    VZ_CHECK(k <= len && !memcmp(b, big, k), "prefix", "%s '%s' into %zu bytes gave '%s', not a prefix of '%s'", what, vz_show(fmt, strlen(fmt)), n, vz_show(b, k), vz_show(big, len));
    if (n > len + 1) VZ_CHECK(k == len && r == (zpl_isize)len + 1, "fits", "%s '%s' (%zu characters) into %zu bytes gave %zu, result %zd", what, vz_show(fmt, strlen(fmt)), len, n, k, (ssize_t)r);
    if (n <= len) VZ_CHECK(r == -1 && k == n - 1, "truncation", "%s '%s' (%zu characters) into %zu bytes gave %zu, result %zd", what, vz_show(fmt, strlen(fmt)), len, n, k, (ssize_t)r);
    if (n == len + 1) VZ_CHECK(k == len && r == (zpl_isize)len + 1, "exact-fit", "%s '%s' gave %zu, result %zd", what, vz_show(fmt, strlen(fmt)), k, (ssize_t)r);
    free(b);
}
static void sizes(const char *what) {
    zpl_isize r = P(big, sizeof big, fmt, args); size_t len = strlen(big), i;
    if (len + 1 < sizeof big) VZ_CHECK(r == (zpl_isize)len + 1, "result", "%s '%s' gave %zd for %zu characters", what, vz_show(fmt, strlen(fmt)), (ssize_t)r, len);
    if (len < 40) for (i = 0; i < len + 4; i++) one_size(i, len, what);
    else { for (i = 0; i < 12; i++) one_size((size_t)vz_u(len + 20), len, what); one_size(0, len, what); one_size(1, len, what); one_size(len, len, what); one_size(len + 1, len, what); one_size(len + 2, len, what); }
    vz_stat("buffer sizes tried", len < 40 ? len + 4 : 17);
    vz_distinct(vz_hash(fmt, strlen(fmt), vz_hash(big, len, 0)));
}
static void t_bounds(void) { gen((int)vz_range(1, 6)); sizes("format"); drop(); }
/* anything that looks like a directive; every argument slot is a pointer to text, so that any reading of it is defined */
static void t_hostile(void) {
    static const char *bits[] = {"%", "-", "+", "#", " ", "0", "*", ".", "7", "12", "hh", "ll", "l", "z", "t", "d", "i", "u", "o", "x", "X", "s", "c", "p", "f", "F", "g", "a", "e", "n", "r", "%%", "ab", "\x01", "\xff", "300", "0*", ".0", "h", "j", "L"};
    int m = (int)vz_range(1, 14), i; char *o = fmt; 
    for (i = 0; i < m; i++) { const char *b = vz_pct(30) ? "%" : bits[vz_u(sizeof bits / sizeof *bits)]; o += sprintf(o, "%s", b); }
    for (i = 0; i < 64; i++) args[i] = (uint64_t)(uintptr_t)(vz_pct(3) ? 0 : i < 30 ? newstr() : strs[i - 30]);
    { va_list va; zpl_isize r; char *b = malloc(300); mk(va, args); r = zpl_snprintf_va(b, 300, fmt, va); /* %c of a zero byte would shorten the text */
      if (r >= 0 && (size_t)r != strlen(b) + 1) { free(b); drop(); return; } 
      if (r < 0 && strlen(b) != 299) { free(b); drop(); return; } free(b); }
    { zpl_isize r = P(big, sizeof big, fmt, args); if (r < 0 ? strlen(big) + 1 != sizeof big : (size_t)r != strlen(big) + 1) { drop(); return; } }
    if (strlen(big) + 1 >= sizeof big) { size_t i2; for (i2 = 0; i2 < 20; i2++) one_size(vz_u(100), sizeof big - 1, "hostile"); } else sizes("hostile");
    drop();
}
static char *vb(uint64_t *a) { va_list va; mk(va, a); return zpl_bprintf_va(fmt, va); }
static zpl_isize vap(zpl_allocator A, char **o, uint64_t *a) { va_list va; mk(va, a); return zpl_asprintf_va(A, o, fmt, va); }
static zpl_isize vf(zpl_file *f, uint64_t *a) { va_list va; mk(va, a); return zpl_fprintf_va(f, fmt, va); }
static void t_sinks(void) {
    vz_track T; zpl_allocator A; size_t len; char *o = 0; zpl_isize r; zpl_file f; char path[600]; int huge = vz_pct(4);
    nolong = 1; gen((int)vz_range(0, 6)); nolong = 0;
    if (huge) { int w = vz_pct(30) ? (int)vz_range(65530, 65540) : (int)vz_range(60000, 90000); sprintf(fmt + strlen(fmt), "%%%dr|", w); args[nargs++] = 'w'; }
    P(big, sizeof big, fmt, args); len = strlen(big);
    if (len > ZPL_PRINTF_MAXLEN - 1) { big[ZPL_PRINTF_MAXLEN - 1] = 0; len = ZPL_PRINTF_MAXLEN - 1; huge = 2; }
    vz_track_init(&T); A = vz_track_allocator(&T);
    VZ_CHECK(!strcmp(vb(args), big), "bprintf", "'%s' differs from the plain rendering", vz_show(fmt, strlen(fmt)));
    r = vap(A, &o, args); VZ_CHECK(o && !strcmp(o, big), "asprintf", "'%s' differs", vz_show(fmt, strlen(fmt)));
    VZ_CHECK(r == (huge == 2 ? -1 : (zpl_isize)len + 1), "asprintf-result", "%zd for %zu characters", (ssize_t)r, len);
    zpl_free(A, o); VZ_TRACK_DONE(&T);
    snprintf(path, sizeof path, "%s/o.txt", vz_dir);
    VZ_CHECK(zpl_file_create(&f, path) == ZPL_FILE_ERROR_NONE, "file", "create failed");
    r = vf(&f, args); { zpl_isize r2 = vf(&f, args); VZ_CHECK(r == r2, "fprintf-result", "%zd then %zd", (ssize_t)r, (ssize_t)r2); }
    VZ_CHECK(r == (huge == 2 ? -1 : (zpl_isize)len + 1), "fprintf-result", "%zd for %zu characters", (ssize_t)r, len);
    zpl_file_close(&f);
    { int fd = open(path, O_RDONLY); ssize_t n = read(fd, ref, sizeof ref); close(fd); VZ_CHECK((size_t)n == 2 * len && !memcmp(ref, big, len) && !memcmp(ref + len, big, len), "fprintf", "'%s' wrote %zd bytes twice, expected %zu", vz_show(fmt, strlen(fmt)), n, len); }
    /* fixed arguments through the variadic entry points */
    { int a = (int)vz_r(); const char *s = newstr(); char w[400]; zpl_string zs = zpl_string_make(A, "x:"); char sb[400];
      snprintf(w, sizeof w, "%s:%d:%5d:%x", s, a, a, (unsigned)a);
      VZ_CHECK(!strcmp(zpl_bprintf("%s:%d:%5d:%x", s, a, a, (unsigned)a), w), "bprintf", "variadic"); 
      VZ_CHECK(zpl_snprintf(sb, sizeof sb, "%s:%d:%5d:%x", s, a, a, (unsigned)a) == (zpl_isize)strlen(w) + 1 && !strcmp(sb, w), "snprintf", "variadic");
      r = zpl_asprintf(A, &o, "%s:%d:%5d:%x", s, a, a, (unsigned)a); VZ_CHECK(!strcmp(o, w) && r == (zpl_isize)strlen(w) + 1, "asprintf", "variadic"); zpl_free(A, o);
      zs = zpl_string_append_fmt(zs, "%s:%d:%5d:%x", s, a, a, (unsigned)a); VZ_CHECK(!strcmp(zs + 2, w) && zpl_string_length(zs) == (zpl_isize)strlen(w) + 2, "append_fmt", "gave '%s'", zs); zpl_string_free(zs);
      if (vz_pct(4)) { size_t n = vz_pct(70) ? (size_t)vz_range(65520, 65545) : (size_t)vz_range(1, 90000), m; char *lt = malloc(n + 1), t0[10]; memset(lt, 'a', n); lt[n] = 0; m = n + 3; if (m > ZPL_PRINTF_MAXLEN - 1) m = ZPL_PRINTF_MAXLEN - 1; zs = zpl_string_make(A, "x:"); zs = zpl_string_append_fmt(zs, "%s|%02d", lt, 7); strcpy(t0, "|07");
        VZ_CHECK((size_t)zpl_string_length(zs) == m + 2 && strlen(zs) == m + 2 && zs[0] == 'x' && zs[1] == ':' && !memcmp(zs + 2, lt, m < n ? m : n) && (m <= n || !strncmp(zs + 2 + n, t0, m - n)), "append_fmt", "%zu bytes of text left %zd, %zu expected", n + 3, (ssize_t)zpl_string_length(zs), m + 2); vz_stat("long texts appended", 1); zpl_string_free(zs); free(lt); }
      zs = zpl_string_sprintf_buf(A, "%s:%d:%5d:%x", s, a, a, (unsigned)a); VZ_CHECK(!strcmp(zs, w), "sprintf_buf", "gave '%s'", zs); zpl_string_free(zs);
      { size_t cap = 1 + vz_u(60); char *tb = malloc(cap); zs = zpl_string_sprintf(A, tb, (zpl_isize)cap, "%s:%d:%5d:%x", s, a, a, (unsigned)a); VZ_CHECK(!strncmp(zs, w, cap - 1) && (size_t)zpl_string_length(zs) == (strlen(w) < cap - 1 ? strlen(w) : cap - 1), "sprintf", "gave '%s' for '%s' in %zu", zs, w, cap); zpl_string_free(zs); free(tb); }
      VZ_CHECK(zpl_file_create(&f, path) == ZPL_FILE_ERROR_NONE, "file", "create failed"); zpl_fprintf(&f, "%s:%d:%5d:%x", s, a, a, (unsigned)a); zpl_file_close(&f);
      { int fd = open(path, O_RDONLY); ssize_t n = read(fd, ref, sizeof ref); close(fd); VZ_CHECK((size_t)n == strlen(w) && !memcmp(ref, w, (size_t)n), "fprintf", "variadic"); }
      VZ_TRACK_DONE(&T); }
    vz_distinct(vz_hash(big, len, 0)); drop();
}
VZ_MAIN({"bounds", t_bounds, 4}, {"hostile", t_hostile, 4}, {"sinks", t_sinks, 2})
#endif
