/* C26 command-line options: an expected outcome is worked out while each command line is written */
#include "vz.h"
#include <malloc.h>
typedef struct { char *name, *lname; int type, met, pend, posl; int64_t i; double d; char s[64]; } opt;
static opt O[40]; static int no; static int posq[40], pn;
typedef struct { int type; char val[80]; } err; static err E[200]; static int en;
static char *word(int n) { char *w = malloc((size_t)n + 1); int i; for (i = 0; i < n; i++) w[i] = i && vz_pct(15) ? "-_"[vz_u(2)] : "abcdefghijkXYZ0123"[vz_u(18)]; w[n] = 0; return w; }
static int have(const char *w, int lng) { int i; for (i = 0; i < no; i++) { char *n = lng ? O[i].lname : O[i].name; if (n && !strcmp(n, w)) return 1; } return 0; }
static void fresh(opt *o, int lng) { char *w; do { if (lng && no && vz_pct(25) && O[vz_u((uint64_t)no)].lname) { char *b = O[vz_u((uint64_t)no)].lname; if (!b) b = (char *)"q"; w = malloc(strlen(b) + 3); strcpy(w, b); if (strlen(w) > 2 && vz_pct(40)) w[strlen(w) - 1] = 0; else strcat(w, vz_pct(50) ? "x" : "-y"); } else w = word(1 + (int)vz_u(lng ? 9 : 2)); if (have(w, lng)) { free(w); w = 0; } } while (!w); if (lng) o->lname = w; else o->name = w; }
static char *argv_[300]; static int argc_;
static void arg(const char *fmt, ...) { char b[400]; va_list v; va_start(v, fmt); vsnprintf(b, sizeof b, fmt, v); va_end(v); argv_[argc_++] = vz_dup(b, strlen(b) + 1); argv_[argc_] = 0; }
static void expect_err(int t, const char *v) { E[en].type = t; snprintf(E[en].val, sizeof E[en].val, "%s", v); en++; }
static void unpend(int k) { int i; for (i = 0; i < pn; i++) if (posq[i] == k) { memmove(posq + i, posq + i + 1, sizeof(int) * (size_t)(pn - i - 1)); pn--; return; } }
static void mkval(opt *o, char *t, int sep) { /* a value text for an option, and what it must read as */
    int64_t x; o->met = 1;
    if (o->type == ZPL_OPTS_INT) { x = vz_pct(50) ? vz_range(-2000, 2000) : (int64_t)vz_edge64(); if (sep && x < 0) x = x == INT64_MIN ? 7 : -x; o->i = x; sprintf(t, "%lld", (long long)x); }
    else if (o->type == ZPL_OPTS_FLOAT) { int64_t a = vz_range(sep ? 0 : -90000, 90000); sprintf(t, "%lld.%03d", (long long)a, (int)vz_u(1000)); if (vz_pct(20)) strcat(t, "e3"); o->d = strtod(t, 0); }
    else { int n = (int)vz_u(20), i; for (i = 0; i < n; i++) do t[i] = (char)(vz_pct(80) ? 33 + vz_u(94) : 1 + vz_u(255)); while ((i == 0 && sep && (t[i] == '-' ))); t[n] = 0; if (sep && !n) strcpy(t, "v"); strcpy(o->s, t); }
}
static zpl_b32 compile(zpl_opts *o) { zpl_b32 r; char **v = vz_dup(argv_, sizeof(char *) * (size_t)(argc_ + 1)); r = zpl_opts_compile(o, argc_, v); vz_undup(v); return r; }
static void drop(void) { int i; for (i = 0; i < argc_; i++) vz_undup(argv_[i]); argc_ = 0; }
static void t_structured(void) {
    vz_track tr; zpl_opts op; int i, k, n = 1 + (int)vz_u(30), toks, nerr = 0; uint64_t hs = 1; char v[100];
    vz_track_init(&tr); zpl_opts_init(&op, vz_track_allocator(&tr), "app"); no = pn = en = argc_ = 0;
    for (i = 0; i < n; i++) { opt o; memset(&o, 0, sizeof o); o.type = (int)vz_u(4) == 0 ? ZPL_OPTS_STRING : vz_pct(33) ? ZPL_OPTS_FLOAT : vz_pct(50) ? ZPL_OPTS_FLAG : ZPL_OPTS_INT; if (vz_pct(85)) fresh(&o, 1); if (!o.lname || vz_pct(70)) { if (no < 25 || !o.lname) fresh(&o, 0); }
        O[no++] = o; zpl_opts_add(&op, o.name, o.lname, "some help", (zpl_u8)o.type);
        if (O[no - 1].lname && vz_pct(20) && O[no - 1].type != ZPL_OPTS_FLAG) { zpl_opts_positional_add(&op, O[no - 1].lname); O[no - 1].posl = 1; posq[pn++] = no - 1; } }
    arg("prog"); toks = (int)vz_u(25);
    for (k = 0; k < toks; k++) {
        opt *o = &O[vz_u((uint64_t)no)]; int lng = o->lname && (!o->name || vz_pct(50)), idx = (int)(o - O); const char *nm = lng ? o->lname : o->name, *da = lng ? "--" : "-"; int r = (int)vz_u(100); hs = hs * 31 + (uint64_t)idx * 100 + (uint64_t)r;
        if (r < 40 && o->type != ZPL_OPTS_FLAG) { mkval(o, v, 0); arg("%s%s=%s", da, nm, v); unpend(idx); vz_stat("joined values", 1); }
        else if (r < 60 && o->type != ZPL_OPTS_FLAG) { mkval(o, v, 1); arg("%s%s", da, nm); arg("%s", v); unpend(idx); vz_stat("separate values", 1); }
        else if (r < 66 && o->type != ZPL_OPTS_FLAG) { arg("%s%s", da, nm); expect_err(ZPL_OPTS_ERR_MISSING_VALUE, nm); vz_stat("missing values", 1); /* next token must be an option or nothing */
            if (k + 1 < toks) { arg("--%s", "no-such-option"); expect_err(ZPL_OPTS_ERR_OPTION, "no-such-option"); } else break; }
        else if (r < 75 && o->type == ZPL_OPTS_FLAG) { /* a flag, then something that is no value */
            arg("%s%s", da, nm); o->met = 1; arg("-%s", "no_such"); expect_err(ZPL_OPTS_ERR_OPTION, "no_such"); }
        else if (r < 80 && o->type == ZPL_OPTS_FLAG) { arg("%s%s=%s", da, nm, "val"); expect_err(ZPL_OPTS_ERR_EXTRA_VALUE, nm); vz_stat("values for flags", 1); }
        else if (r < 84 && o->type == ZPL_OPTS_FLAG && !pn) { arg("%s%s", da, nm); arg("stray"); expect_err(ZPL_OPTS_ERR_EXTRA_VALUE, nm); expect_err(ZPL_OPTS_ERR_VALUE, "stray"); }
        else if (r < 94) { if (pn) { opt *p = &O[posq[0]]; mkval(p, v, 1); if (v[0] == ' ' || !v[0] || isspace((unsigned char)v[0])) { strcpy(v, "7"); p->i = 7; p->d = 7; strcpy(p->s, "7"); } arg("%s%s", vz_pct(20) ? " \t" : "", v); unpend(posq[0]); vz_stat("positional values", 1); } else if (!(argc_ > 1 && 0)) { int last_flag = 0; (void)last_flag; arg("%s", "--zz-unknown"); expect_err(ZPL_OPTS_ERR_OPTION, "zz-unknown"); arg("%s", "extra"); expect_err(ZPL_OPTS_ERR_VALUE, "extra"); } }
        else if (r < 97) { char w[40]; int u; do { u = (int)vz_u(3); sprintf(w, "%s%s", nm, u == 0 ? "zz" : u == 1 ? "-" : "_q"); } while (have(w, lng)); arg("%s%s", da, w); expect_err(ZPL_OPTS_ERR_OPTION, w); vz_stat("unknown options", 1); }
        else { arg("%s%s", da, "nope"); if (have("nope", lng)) { argc_--; vz_undup(argv_[argc_]); argv_[argc_] = 0; } else { expect_err(ZPL_OPTS_ERR_OPTION, "nope"); arg("%s", ""); } }
    }
    i = (int)compile(&op); VZ_CHECK(!!i == (en == 0), "result", "returned %d with %d errors expected", i, en);
    VZ_CHECK(zpl_array_count(op.errors) == en, "errors", "%d errors reported, %d expected", (int)zpl_array_count(op.errors), en);
    for (i = 0; i < en; i++) VZ_CHECK(op.errors[i].type == E[i].type && !strcmp(op.errors[i].val, E[i].val), "errors", "error %d is %d '%s', expected %d '%s'", i, op.errors[i].type, op.errors[i].val, E[i].type, E[i].val); nerr = en;
    VZ_CHECK(!!zpl_opts_positionals_filled(&op) == (pn == 0), "positionals", "%d still missing", pn);
    for (i = 0; i < no; i++) { opt *o = &O[i]; char fb[] = "fallback"; if (!o->lname) continue;
        VZ_CHECK(!!zpl_opts_has_arg(&op, o->lname) == o->met, "presence", "option %s: %s", o->lname, o->met ? "given but not present" : "present but not given");
        if (o->type == ZPL_OPTS_INT) { int64_t x = zpl_opts_integer(&op, o->lname, -77), w = o->met ? o->i : -77; VZ_CHECK(x == w, "integer", "option %s: %lld, expected %lld", o->lname, (long long)x, (long long)w); }
        else if (o->type == ZPL_OPTS_FLOAT) { double x = zpl_opts_real(&op, o->lname, 0.25), w = o->met ? o->d : 0.25; VZ_CHECK(fabs(x - w) <= 1e-9 * (1 + fabs(w)), "real", "option %s: %g, expected %g", o->lname, x, w); }
        else if (o->type == ZPL_OPTS_STRING) { const char *x = zpl_opts_string(&op, o->lname, fb), *w = o->met ? o->s : fb; VZ_CHECK(!strcmp(x, w), "string", "option %s: '%s', expected '%s'", o->lname, vz_show(x, strlen(x)), vz_show(w, strlen(w))); if (!o->met) VZ_CHECK(x == fb, "string", "default replaced"); }
    }
    VZ_CHECK(!zpl_opts_has_arg(&op, "definitely-not-there") && zpl_opts_integer(&op, "definitely-not-there", 5) == 5, "presence", "an undeclared option is present");
    vz_stat("errors compared", (uint64_t)nerr); vz_stat("options compared", (uint64_t)no); vz_distinct(hs); vz_sample("%d options, %d arguments, %d errors", no, argc_, nerr);
    if (vz_pct(10)) { char p[700]; int fd, old = dup(1); static char b[200000]; ssize_t l; snprintf(p, sizeof p, "%s/help", vz_dir); fd = open(p, O_RDWR | O_CREAT | O_TRUNC, 0600); dup2(fd, 1); zpl_opts_print_help(&op); zpl_opts_print_errors(&op); fflush(stdout); dup2(old, 1); close(old); l = pread(fd, b, sizeof b - 1, 0); if (l < 0) l = 0; b[l] = 0; close(fd);
        { char *nl = strchr(b, '\n'); size_t want = strlen("USAGE: app"); VZ_CHECK(nl && !strncmp(b, "USAGE: app", want), "help", "does not start with the usage"); *nl = 0; for (i = 0; i < no; i++) if (O[i].posl) { char w[80]; sprintf(w, " [%s]", O[i].lname); VZ_CHECK(strstr(b, w), "help", "the usage leaves out the positional %s", O[i].lname); want += strlen(w); } VZ_CHECK(strlen(b) == want, "help", "usage '%s'", vz_show(b, strlen(b))); *nl = '\n'; }
        for (i = 0; i < no; i++) { char w[120]; if (O[i].name && O[i].lname) sprintf(w, "\n\t-%s, --%s: some help\n", O[i].name, O[i].lname); else sprintf(w, "\n\t%s%s: some help\n", O[i].name ? "-" : "--", O[i].name ? O[i].name : O[i].lname); VZ_CHECK(strstr(b, w), "help", "option %s is not listed", O[i].name ? O[i].name : O[i].lname); }
        { static char w[200000]; static const char *const kind[] = {"Invalid value", "Missing value for option", "Extra value for option", "Invalid option"}; size_t n = 0, l2 = strlen(b); int m = (int)zpl_array_count(op.errors); w[0] = 0;
          for (i = 0; i < m; i++) { zpl_opts_err *e = op.errors + i; const char *t = e->type == ZPL_OPTS_ERR_VALUE ? kind[0] : e->type == ZPL_OPTS_ERR_MISSING_VALUE ? kind[1] : e->type == ZPL_OPTS_ERR_EXTRA_VALUE ? kind[2] : kind[3]; n += (size_t)snprintf(w + n, sizeof w - n, "ERROR: %s \"%s\"\n", t, e->val); }
          VZ_CHECK(l2 >= n && !strcmp(b + l2 - n, w) && (l2 == n || b[l2 - n - 1] == '\n') && !strstr(b, m ? "some help\nERROR: ERROR" : "ERROR: "), "error-text", "%d errors are printed as '%s'", m, vz_show(b + (l2 > 200 ? l2 - 200 : 0), l2 > 200 ? 200 : l2)); vz_stat("errors printed", (uint64_t)m); }
        vz_stat("help screens", 1); }
    zpl_opts_free(&op); drop(); VZ_TRACK_DONE(&tr); for (i = 0; i < no; i++) { free(O[i].name); free(O[i].lname); }
}
static void t_hostile(void) {
    vz_track tr; zpl_opts op; int i, n = (int)vz_u(12), t; uint64_t hs = 1; zpl_b32 r;
    vz_track_init(&tr); zpl_opts_init(&op, vz_track_allocator(&tr), "app"); argc_ = 0;
    { static const char *nm[] = {"a", "ab", "foo", "foo-bar", "", "x_y", "b"}; for (i = 0; i < n; i++) { const char *s = vz_pct(80) ? nm[vz_u(7)] : 0, *l = vz_pct(80) || !s ? nm[vz_u(7)] : 0; zpl_opts_add(&op, s, l, "d", (zpl_u8)vz_u(4)); if (l && vz_pct(30)) zpl_opts_positional_add(&op, l); } }
    arg("prog"); t = (int)vz_u(15); while (t--) { char b[60]; int m = (int)vz_u(14), j; for (j = 0; j < m; j++) b[j] = vz_pct(70) ? "-=ab-foo_bar xy1 \t"[vz_u(18)] : (char)(1 + vz_u(255)); b[m] = 0; hs = vz_hash(b, (size_t)m, hs); arg("%s", b); }
    r = compile(&op); VZ_CHECK(!!r == (zpl_array_count(op.errors) == 0), "result", "returned %d with %d errors", (int)r, (int)zpl_array_count(op.errors));
    for (i = 0; i < zpl_array_count(op.errors); i++) { int j, in = 0; for (j = 0; j < argc_; j++) in |= op.errors[i].val >= argv_[j] && op.errors[i].val <= argv_[j] + malloc_usable_size(argv_[j]); VZ_CHECK(in, "errors", "error text is not part of the command line"); (void)strlen(op.errors[i].val); }
    vz_distinct(hs); zpl_opts_free(&op); drop(); VZ_TRACK_DONE(&tr);
}
/* long names and values, many options and many arguments */
static void t_long(void) {
    vz_track tr; zpl_opts op; size_t n = vz_near2(4, 9), len = vz_near2(8, 17), i, argc = 1, bad = 0, met = 0; char **nm = malloc(n * sizeof *nm), **av = malloc((2 * n + 8) * sizeof *av), *used = calloc(n, 1), *big = malloc(len + 1), *unk = malloc(len + 3); int how = (int)vz_u(3); zpl_b32 r;
    vz_track_init(&tr); zpl_opts_init(&op, vz_track_allocator(&tr), "app"); for (i = 0; i < len; i++) big[i] = "abcdefXYZ0189"[vz_u(13)]; big[len] = 0;
    memcpy(unk, "--", 2); memcpy(unk + 2, big, len + 1); unk[len + 1] ^= 1; if (!isalnum((unsigned char)unk[len + 1])) unk[len + 1] = 'q'; if (unk[len + 1] == big[len - 1]) unk[len + 1] = 'k';
    for (i = 0; i < n; i++) { if (i == n / 2) nm[i] = strdup(big); else { nm[i] = malloc(16); sprintf(nm[i], "o%zu", i); }
        zpl_opts_add(&op, i % 3 ? nm[i] : 0, nm[i], "h", i % 2 ? ZPL_OPTS_INT : ZPL_OPTS_STRING); if (i % 5 == 4) zpl_opts_positional_add(&op, nm[i]); }
    av[0] = (char *)"prog";
    for (i = 0; i < n; i++) { size_t l; char *t, val[32]; const char *v = i % 2 ? val : big; if (i != n / 2 && vz_pct(20)) continue; if (v == big && i != n / 2 && vz_pct(90)) v = "short"; sprintf(val, "%zu", i * 7); used[i] = v == big ? 2 : 1; met++;
        l = strlen(nm[i]) + strlen(v) + 4; if ((int)vz_u(3) != how) { t = malloc(l); sprintf(t, "--%s=%s", nm[i], v); av[argc++] = vz_dup(t, strlen(t) + 1); free(t); } else { t = malloc(l); sprintf(t, "%s%s", i % 3 ? "-" : "--", nm[i]); av[argc++] = vz_dup(t, strlen(t) + 1); free(t); av[argc++] = vz_dup(v, strlen(v) + 1); } }
    if (vz_pct(50)) { av[argc++] = vz_dup(unk, len + 3); bad = 1; } av[argc] = 0;
    { char **v = vz_dup(av, sizeof *av * (argc + 1)); r = zpl_opts_compile(&op, (int)argc, v); vz_undup(v); }
    VZ_CHECK(!!r == !bad && (size_t)zpl_array_count(op.errors) == bad, "result", "returned %d with %td errors, %zu expected (%zu options, texts of %zu bytes)", (int)r, zpl_array_count(op.errors), bad, n, len);
    if (bad) VZ_CHECK(op.errors[0].type == ZPL_OPTS_ERR_OPTION && !strcmp(op.errors[0].val, unk + 2), "errors", "the unknown option of %zu bytes is reported as %d with %zu bytes", len, op.errors[0].type, strlen(op.errors[0].val));
    for (i = 0; i < n; i++) { VZ_CHECK(!!zpl_opts_has_arg(&op, nm[i]) == !!used[i], "presence", "option %zu of %zu: %s", i, n, used[i] ? "given but not present" : "present but not given");
        if (i % 2) { int64_t x = zpl_opts_integer(&op, nm[i], -5), w = used[i] ? (int64_t)i * 7 : -5; VZ_CHECK(x == w, "integer", "option %zu of %zu: %lld, expected %lld", i, n, (long long)x, (long long)w); }
        else { const char *x = zpl_opts_string(&op, nm[i], (char *)"none"), *w = used[i] ? used[i] == 2 ? big : "short" : "none"; VZ_CHECK(x && !strcmp(x, w), "string", "option %zu of %zu has a text of %zu bytes, expected %zu", i, n, x ? strlen(x) : 0, strlen(w)); } }
    { size_t left = 0; for (i = 4; i < n; i += 5) left += !used[i]; VZ_CHECK(!!zpl_opts_positionals_filled(&op) == !left && (size_t)zpl_array_count(op.positioned) == left, "positionals", "%td positionals still missing, %zu expected", zpl_array_count(op.positioned), left); }
    vz_stat("options of long command lines", met); vz_distinct(vz_hash(big, len, n)); vz_sample("%zu options, %zu arguments, texts of %zu bytes", n, argc, len); zpl_opts_free(&op); VZ_TRACK_DONE(&tr);
    for (i = 1; i < argc; i++) vz_undup(av[i]); for (i = 0; i < n; i++) free(nm[i]); free(nm); free(av); free(used); free(big); free(unk);
}
VZ_MAIN({"structured", t_structured, 300}, {"hostile", t_hostile, 100}, {"long", t_long, 1})
