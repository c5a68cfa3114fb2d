/* pattern matching against an independent parser and backtracking matcher */
#define ZPL_ENABLE_REGEX
#include "vz.h"
#include "reref.h"
enum { MAXC = 12 };
static vz_track T;
static const char *sp(const void *p, size_t n) { return vz_show(p, n > 200 ? 200 : n); }
/* compile, and require the verdict of the reference; 1 when usable */
static int comp(zpl_re *re, const unsigned char *pat, size_t n, ralt *ref, int may_long) {
    zpl_regex_error e; unsigned char *p = (unsigned char *)vz_dup(pat, n);
    vz_track_init(&T); memset(re, 0x5a, sizeof *re);
    e = zpl_re_compile(re, vz_track_allocator(&T), (char *)p, (zpl_isize)n);
    vz_undup(p);
    if (rdangling && ref) ref = 0, may_long = 1; /* a backslash at the very end: unspecified */
    if (e && !ref) { VZ_TRACK_DONE(&T); vz_stat("patterns refused", 1); return 0; }
    if (e == ZPL_RE_ERROR_TOO_LONG && may_long) { VZ_TRACK_DONE(&T); vz_stat("patterns too long", 1); return 0; }
    if (!e && rdangling) { zpl_re_destroy(re); VZ_TRACK_DONE(&T); return 0; }
    VZ_CHECK(!e, "refused", "pattern '%s' is refused with error %d", sp(pat, n), e);
    VZ_CHECK(ref, "accepted", "malformed pattern '%s' is accepted", sp(pat, n));
    VZ_CHECK(zpl_re_capture_count(re) == rcaps, "count", "pattern '%s' has %d groups, not %ld", sp(pat, n), rcaps, (long)zpl_re_capture_count(re));
    vz_stat("patterns compiled", 1); return 1;
}
static void done(zpl_re *re) { zpl_re_destroy(re); VZ_TRACK_DONE(&T); }
static void cmpcaps(const unsigned char *pat, size_t pn, const char *s, size_t n, zpl_re_capture *c, int k, int lo, const char *what) {
    int i;
    for (i = 0; i < k; i++) {
        if (i >= rcaps || rce[i] < 0) VZ_CHECK(c[i].len == 0, "unused", "%s: group %d of '%s' took no part on '%s' but has length %ld", what, lo + i, sp(pat, pn), sp(s, n), (long)c[i].len);
        else VZ_CHECK(c[i].str == s + rcb[i] && c[i].len == rce[i] - rcb[i], "group", "%s: group %d of '%s' on '%s' is [%ld,+%ld), not [%ld,+%ld)", what, lo + i, sp(pat, pn), sp(s, n), c[i].str ? (long)(c[i].str - s) : -1L, (long)c[i].len, rcb[i], rce[i] - rcb[i]);
    }
}
static void match1(zpl_re *re, ralt *ref, const unsigned char *pat, size_t pn, const char *s0, size_t n, int all) {
    char *s = (char *)vz_dup(s0, n); long b = -1, e = -1, pos; int want, i, got, k; zpl_isize off = -77; zpl_re_capture *c;
    want = rfind(ref, s, (long)n, 0, 300000, &b, &e);
    if (want == -2) { vz_stat("over budget", 1); vz_undup(s); return; }
    k = vz_pct(70) ? rcaps + (int)vz_u(3) : (int)vz_u((uint64_t)rcaps + 1); c = (zpl_re_capture *)malloc(sizeof *c * (size_t)k + 1); memset(c, 0x77, sizeof *c * (size_t)k);
    if (vz_pct(10)) { got = zpl_re_match(re, s, (zpl_isize)n, 0, vz_pct(50) ? 0 : rcaps, vz_pct(20) ? 0 : &off); if (off == -77 && got && want) off = e; k = 0; }
    else got = zpl_re_match(re, s, (zpl_isize)n, c, k, &off);
    vz_stat(want ? "matches" : "non-matches", 1);
    VZ_CHECK(!!got == !!want, want ? "missed" : "invented", "'%s' %s '%s'", sp(pat, pn), want ? "does not match" : "matches", sp(s, n));
    if (got) {
        VZ_CHECK(off == e, "end", "the match of '%s' in '%s' ends at %ld, not %ld", sp(pat, pn), sp(s, n), (long)off, e);
        cmpcaps(pat, pn, s, n, c, k, 0, "match"); if (k > 0 && rcaps) vz_stat("captures compared", (uint64_t)k);
    }
    free(c);
    if (all) {
        zpl_re_capture *arr; zpl_isize m = 0; int per = rcaps + (int)vz_u(2); zpl_array_init(arr, zpl_heap()); if (vz_pct(20) && rcaps) per = 1 + (int)vz_u((uint64_t)rcaps);
        got = zpl_re_match_all(re, s, (zpl_isize)n, per, &arr);
        for (pos = 0; pos <= (long)n;) {
            want = rfind(ref, s, (long)n, pos, 300000, &b, &e); if (want == -2) { zpl_array_free(arr); vz_undup(s); return; }
            if (!want) break;
            if (per) { VZ_CHECK(zpl_array_count(arr) >= m + per, "all-few", "finding all of '%s' in '%s' stops after %ld captures, before the match at [%ld,%ld)", sp(pat, pn), sp(s, n), (long)zpl_array_count(arr), b, e);
            cmpcaps(pat, pn, s, n, arr + m, per, 0, "all"); }
            m += per; pos = e > b ? e : e + 1; vz_stat("successive matches", 1);
        }
        VZ_CHECK(zpl_array_count(arr) == m, "all-many", "finding all of '%s' in '%s' gives %ld captures, not %ld", sp(pat, pn), sp(s, n), (long)zpl_array_count(arr), (long)m);
        if (m == 0 && per) VZ_CHECK(!got, "all-none", "finding all of '%s' in '%s' finds nothing yet reports success", sp(pat, pn), sp(s, n));
        zpl_array_free(arr); (void)i;
    }
    vz_undup(s);
}
/* every pattern up to a length over the operators, against every short subject */
static void exhaustive(void) {
    static const char A[] = "ab()|*+?.[]^$\\"; unsigned char pat[8]; char s[8]; size_t pn = 1 + vz_u(6), i, n; ralt *ref; zpl_re re; unsigned j, top;
    for (i = 0; i < pn; i++) pat[i] = (unsigned char)A[vz_u(14)];
    vz_distinct(vz_hash(pat, pn, 1)); ref = rparse(pat, pn); if (!comp(&re, pat, pn, ref, 0)) return;
    for (n = 0; n <= 5; n++) for (top = 1u << n, j = 0; j < top; j++) { for (i = 0; i < n; i++) s[i] = (char)('a' + (j >> i & 1)); match1(&re, ref, pat, pn, s, n, vz_pct(30)); }
    done(&re);
}
/* well-formed patterns from the grammar */
static unsigned char gp[700]; static size_t gn; static int gq, gtop, gg;
static const char LIT[] = "abcabcabcdeXY019 _-/<>{}\n";
static void put(int c) { if (gn < sizeof gp - 40) gp[gn++] = (unsigned char)c; }
static void esc(void) {
    static const char E[] = "tnrfv0sSdDalulwWxp^$()[].*+?|\\-/"; char c;
    put('\\');
    if (vz_pct(25)) { int v = vz_pct(60) ? LIT[vz_u(sizeof LIT - 1)] : (int)vz_u(256); static const char H[] = "0123456789abcdef0123456789ABCDEF"; int u = (int)vz_u(2) * 16; put(H[u + (v >> 4)]); put(H[u + (v & 15)]); return; }
    c = E[vz_u(sizeof E - 1)]; put(c);
}
static void alts(int d);
static void item(int d) {
    int quant = 0;
    switch (vz_u(d > 0 ? 12 : 10)) {
        case 0: case 1: case 2: case 3: { int n = vz_pct(70) ? 1 : 1 + (int)vz_u(5); while (n--) put(vz_pct(95) ? LIT[vz_u(sizeof LIT - 1)] : 128 + (int)vz_u(128)); quant = 1; } break;
        case 4: put('.'); quant = 1; break;
        case 5: esc(); quant = 1; break;
        case 6: case 7: case 8: { int n = (int)vz_u(5); put('['); if (vz_pct(30)) put('^'); else if (!n && vz_pct(80)) n = 1; while (n--) { if (vz_pct(35)) esc(); else { int c = vz_pct(80) ? LIT[vz_u(sizeof LIT - 1)] : "^$().*+?|["[vz_u(10)]; if (c == '^' && gp[gn - 1] == '[') c = 'a'; put(c); } } put(']'); quant = 1; } break;
        case 9: if (vz_pct(40)) put(vz_pct(50) ? '^' : '$'); else { put('a' + (int)vz_u(3)); quant = 1; } break;
        default: if (gg < MAXC) { gg++; put('('); alts(d - 1); put(')'); } break;
    }
    if (quant && gq < gtop && vz_pct(35)) { gq++; put("*+?"[vz_u(3)]); if (gp[gn - 1] != '?' && vz_pct(35)) put('?'); }
}
static void alts(int d) { int k = vz_pct(65) ? 1 : 2 + (int)vz_u(3), i, first = 1; while (k--) { int n = (int)vz_u(4) + (first || vz_pct(90)); for (i = 0; i < n; i++) item(d); if (first && gp[gn - 1] == '(') put('b'); if (first && !gn) put('a'); if (k) put('|'); first = 0; } }
/* a string the tree matches, now and then damaged */
static char sb[400]; static size_t sn;
static void from(rn *n);
static void froms(ralt *a) { int k = 0; ralt *x; for (x = a; x; x = x->next) k++; k = (int)vz_u((uint64_t)k); while (k--) a = a->next; from(a->first); }
static int pick(const rn *n) { int c, i; for (i = 0; i < 40; i++) { c = vz_pct(80) ? LIT[vz_u(sizeof LIT - 1)] : (int)vz_u(256); if (rset_has(n, c)) return c; } for (c = 0; c < 256; c++) if (rset_has(n, c)) return c; return 'z'; }
static void from(rn *n) { for (; n; n = n->next) { if (n->kind == R_GROUP) froms(n->alts); else if (n->kind == R_SET) { int k = n->min + (n->max > 1 ? (int)vz_u(5) : n->max > n->min ? (int)vz_u(2) : 0); while (k-- > 0 && sn < 300) sb[sn++] = (char)pick(n); } } }
static void subject(ralt *ref) {
    int r = 1 + (int)vz_u(3); sn = 0;
    if (vz_pct(15)) { size_t n = vz_u(20); while (n--) sb[sn++] = (char)(vz_pct(90) ? LIT[vz_u(sizeof LIT - 1)] : (int)vz_u(256)); return; }
    while (r--) { if (vz_pct(45)) { size_t n = vz_u(5); while (n--) sb[sn++] = LIT[vz_u(sizeof LIT - 1)]; } if (sn < 200) froms(ref); if (vz_pct(40)) sb[sn++] = LIT[vz_u(sizeof LIT - 1)]; }
    if (sn && vz_pct(25)) { size_t i = vz_u(sn); switch (vz_u(3)) { case 0: sb[i] = (char)vz_u(256); break; case 1: memmove(sb + i, sb + i + 1, sn - i - 1); sn--; break; default: memmove(sb + i + 1, sb + i, sn - i); sn++; } }
}
static void grammar(void) {
    zpl_re re; ralt *ref; int k;
    gn = 0; gq = gg = 0; gtop = 1 + (int)vz_u(6); alts(1 + (int)vz_u(3)); if (gn && gp[gn - 1] == '\\') put('.');
    vz_distinct(vz_hash(gp, gn, 2)); vz_sample("%s", sp(gp, gn)); ref = rparse(gp, gn);
    if (!comp(&re, gp, gn, ref, gn + 6 * (size_t)ralts > 200)) return;
    if (gg > 1) vz_stat("patterns with groups", 1);
    if (ralts) vz_stat("patterns with alternatives", 1);
    if (ralts > 1) vz_stat("patterns with several alternatives", 1);
    if (gq) vz_stat("patterns with repetition", 1);
    for (k = 0; k < 12; k++) { subject(ref); match1(&re, ref, gp, gn, sb, sn, vz_pct(40)); }
    done(&re);
}
/* every byte against one-step patterns */
static void classes(void) {
    zpl_re re; ralt *ref; int c; char s[2];
    gn = 0; gq = 0; gtop = 1; gg = MAXC; if (vz_pct(30)) put('^');
    switch (vz_u(4)) { case 0: esc(); break; case 1: put('['); if (vz_pct(50)) put('^'); { int n = 1 + (int)vz_u(6); while (n--) esc(); } put(']'); break; case 2: do c = (int)vz_u(256); while (strchr("^$()[].*+?|\\", c) && c); put(c); break; default: put('['); if (vz_pct(50)) put('^'); { int n = 1 + (int)vz_u(20); while (n--) { c = (int)vz_u(256); if (c == ']' || c == '\\' || c == '^') c = 0; put(c); } } put(']'); }
    if (vz_pct(30)) put("+*?"[vz_u(3)]);
    if (vz_pct(30)) put('$');
    vz_distinct(vz_hash(gp, gn, 3)); ref = rparse(gp, gn); if (!comp(&re, gp, gn, ref, 0)) return;
    for (c = 0; c < 256; c++) { s[0] = (char)c; s[1] = (char)vz_u(256); match1(&re, ref, gp, gn, s, 1 + (vz_pct(20) ? 1 : 0), 0); }
    vz_stat("byte sweeps", 1); done(&re);
}
/* long literals, sets, alternatives and many groups: exact or refused as too long */
static void limits(void) {
    static unsigned char p[3000]; static char s[6000]; size_t n = 0, sl = 0, i, k; zpl_re re; ralt *ref; int q;
    switch (vz_u(6)) {
        case 0: k = vz_pct(50) ? 250 + vz_u(10) : vz_u(300); for (i = 0; i < k; i++) p[n++] = s[sl++] = (char)("abc"[vz_u(3)]); if (vz_pct(40)) { p[n++] = '+'; for (i = 0; i < 3; i++) { s[sl] = s[sl - 1]; sl++; } if (vz_pct(50)) { p[n++] = 'z'; s[sl++] = 'z'; } } break;
        case 1: k = vz_pct(50) ? 250 + vz_u(10) : 100 + vz_u(60); p[n++] = '['; for (i = 0; i < k; i++) { do p[n] = (unsigned char)(1 + vz_u(255)); while (strchr("]\\^", p[n])); n++; } p[n++] = ']'; if (vz_pct(50)) p[n++] = '+'; for (i = 0; i < 9; i++) s[sl++] = (char)(vz_pct(80) ? p[1 + vz_u(k)] : vz_u(256)); break;
        case 2: k = 2 + vz_u(30); for (i = 0; i < k; i++) { size_t m = 1 + vz_u(12), j; if (i) p[n++] = '|'; for (j = 0; j < m; j++) p[n++] = "abcd"[vz_u(4)]; } if (vz_pct(50)) { memmove(p + 1, p, n); p[0] = '('; n++; p[n++] = ')'; p[n++] = 'e'; } for (i = 0; i < 12; i++) s[sl++] = "abcde"[vz_u(5)]; break;
        case 3: { size_t x = 100 + vz_u(60); for (i = 0; i < x; i++) { p[n++] = 'a'; s[sl++] = 'a'; } p[n++] = '|'; x = 100 + vz_u(200); for (i = 0; i < x; i++) p[n++] = 'b'; if (vz_pct(50)) { sl = 0; for (i = 0; i < x; i++) s[sl++] = 'b'; } } break;
        case 4: k = 120 + vz_u(20) + (vz_pct(50) ? 120 : 0); for (i = 0; i < k; i++) { p[n++] = '('; p[n++] = 'a'; p[n++] = ')'; s[sl++] = 'a'; } break;
        default: k = 1 + vz_u(100); for (i = 0; i < k; i++) { p[n++] = '('; } p[n++] = 'a'; for (i = 0; i < k; i++) { p[n++] = ')'; if (vz_pct(30)) { p[n++] = 'b'; } } s[sl++] = 'c'; s[sl++] = 'a'; for (i = 0; i < 20; i++) s[sl++] = 'b'; break;
    }
    vz_distinct(vz_hash(p, n, 4)); ref = rparse(p, n); if (!comp(&re, p, n, ref, n + 6 * (size_t)ralts > 200)) return;
    vz_stat("long patterns", 1);
    for (q = 0; q < 3; q++) { match1(&re, ref, p, n, s, sl, vz_pct(30)); if (sl > 1) s[vz_u(sl)] ^= (char)(1 + vz_u(3)); }
    done(&re);
}
/* compiled into a caller's buffer */
static void buffer(void) {
    zpl_re re, r2; ralt *ref; size_t need, cap; unsigned char *buf, *p; zpl_regex_error e; int k;
    gn = 0; gq = gg = 0; gtop = 3; alts(2); if (gn && gp[gn - 1] == '\\') put('.');
    ref = rparse(gp, gn); if (!comp(&re, gp, gn, ref, gn + 6 * (size_t)ralts > 200)) return;
    need = (size_t)re.buf_len; cap = vz_pct(40) ? need : vz_pct(60) ? vz_u(need + 1) : need + vz_u(100);
    buf = (unsigned char *)malloc(cap + 1); buf[cap] = 0xC3; p = (unsigned char *)vz_dup(gp, gn); memset(&r2, 0x5a, sizeof r2);
    vz_poison(buf + cap, 1); e = zpl_re_compile_from_buffer(&r2, (char *)p, (zpl_isize)gn, buf, (zpl_isize)cap); vz_unpoison(buf + cap, 1); vz_undup(p);
    VZ_CHECK(buf[cap] == 0xC3, "overrun", "compiling '%s' into %zu bytes writes behind them", sp(gp, gn), cap);
    vz_distinct(vz_hash(gp, gn, 5) + cap);
    if (cap >= need + 8) VZ_CHECK(!e, "buffer-refused", "'%s' takes %zu bytes and is refused with %d for a buffer of %zu", sp(gp, gn), need, e, cap);
    if (cap < need) VZ_CHECK(e == ZPL_RE_ERROR_TOO_LONG, "buffer-accepted", "'%s' takes %zu bytes and compiling it into %zu gives %d", sp(gp, gn), need, cap, e);
    if (!e) { VZ_CHECK(zpl_re_capture_count(&r2) == rcaps, "count", "'%s' in a buffer has %ld groups, not %d", sp(gp, gn), (long)zpl_re_capture_count(&r2), rcaps); for (k = 0; k < 6; k++) { subject(ref); match1(&r2, ref, gp, gn, sb, sn, vz_pct(40)); } vz_stat("matched from a buffer", 1); } else vz_stat("buffers too small", 1);
    zpl_re_destroy(&r2); memset(buf, 1, cap); free(buf); done(&re);
}
VZ_MAIN({ "exhaustive", exhaustive, 50 }, { "grammar", grammar, 30 }, { "classes", classes, 6 }, { "limits", limits, 8 }, { "buffer", buffer, 6 })
