/* hostile patterns and subjects through the pattern compiler and matcher */
#define ZPL_ENABLE_REGEX
#include "vz.h"
#include "reref.h"
static vz_track T;
static const char *sp(const void *p, size_t n) { return vz_show(p, n > 200 ? 200 : n); }
static void run(const unsigned char *pat, size_t n, int match) {
    zpl_re re; unsigned char *p = (unsigned char *)vz_dup(pat, n), *buf = 0; zpl_regex_error e; int frombuf = vz_pct(15), k, fail = 0; ralt *ref; size_t cap = 0;
    vz_track_init(&T); if (!frombuf && vz_pct(10)) { T.fail_at = vz_u(4); T.fail_after = vz_pct(50); fail = 1; }
    memset(&re, 0x5a, sizeof re); vz_distinct(vz_hash(pat, n, 7));
    if (frombuf) { cap = vz_u(2 * n + 20); buf = (unsigned char *)vz_dup(pat, 0); vz_undup(buf); buf = (unsigned char *)malloc(cap ? cap : 1); if (!cap) vz_poison(buf, 1); e = zpl_re_compile_from_buffer(&re, (char *)p, (zpl_isize)n, buf, (zpl_isize)cap); }
    else e = zpl_re_compile(&re, vz_track_allocator(&T), (char *)p, (zpl_isize)n);
    VZ_CHECK(e >= ZPL_RE_ERROR_NONE && e <= ZPL_RE_ERROR_INTERNAL_FAILURE, "code", "compiling '%s' gives %d", sp(pat, n), e);
    vz_undup(p); /* the pattern need not stay */
    if (T.failed) vz_stat("compilations with a failing allocator", 1);
    if (T.failed && T.fail_after) VZ_CHECK(e, "ignored", "compiling '%s' reports success although an allocation failed", sp(pat, n));
    (void)fail; vz_stat(e ? "refused" : "compiled", 1);
    if (e && !frombuf) VZ_CHECK(!T.live, "leak", "a refused pattern leaves %zu blocks behind: '%s'", T.nlive, sp(pat, n));
    if (e && !frombuf && vz_pct(50)) { VZ_TRACK_DONE(&T); return; } /* nothing to destroy */
    if (!e && match) {
        ref = n < 5000 ? rparse(pat, n) : 0;
        for (k = 0; k < 6; k++) {
            unsigned char s0[300], *s; size_t l = vz_pct(20) ? 0 : vz_pct(70) ? vz_u(12) : vz_u(300), i; long b, en; int cc = (int)vz_u((uint64_t)zpl_re_capture_count(&re) + 3), got; zpl_re_capture *c; zpl_isize off = 0;
            for (i = 0; i < l; i++) s0[i] = (unsigned char)(n && vz_pct(60) ? pat[vz_u(n)] : vz_pct(50) ? "ab"[vz_u(2)] : (int)vz_u(256));
            if (ref && rfind(ref, s0, (long)l, 0, 100000, &b, &en) == -2) { vz_stat("over budget", 1); continue; }
            s = (unsigned char *)vz_dup(s0, l); c = (zpl_re_capture *)malloc(sizeof *c * (size_t)cc + 1); memset(c, 0x77, sizeof *c * (size_t)cc);
            got = zpl_re_match(&re, (char *)s, (zpl_isize)l, c, cc, &off); vz_stat("subjects", 1);
            if (got) {
                VZ_CHECK(off >= 0 && off <= (zpl_isize)l, "end", "'%s' matches '%s' up to %ld", sp(pat, n), sp(s0, l), (long)off); vz_stat("hits", 1);
                for (i = 0; i < (size_t)cc; i++) if (c[i].str || c[i].len) VZ_CHECK(c[i].str >= (char *)s && c[i].len >= 0 && c[i].str + c[i].len <= (char *)s + off, "capture", "a group of '%s' on '%s' lies outside the match", sp(pat, n), sp(s0, l));
            }
            free(c);
            if (l < 40 && ref) { zpl_re_capture *arr; zpl_isize j; zpl_array_init(arr, zpl_heap()); zpl_re_match_all(&re, (char *)s, (zpl_isize)l, cc, &arr); VZ_CHECK(zpl_array_count(arr) <= (zpl_isize)(l + 1) * cc, "all", "finding all of '%s' in '%s' gives %ld captures", sp(pat, n), sp(s0, l), (long)zpl_array_count(arr)); for (j = 0; j < zpl_array_count(arr); j++) if (arr[j].str || arr[j].len) VZ_CHECK(arr[j].str >= (char *)s && arr[j].len >= 0 && arr[j].str + arr[j].len <= (char *)s + l, "capture", "a group of '%s' lies outside the subject", sp(pat, n)); zpl_array_free(arr); vz_stat("all matches", 1); }
            vz_undup(s);
        }
    }
    zpl_re_destroy(&re); if (vz_pct(20)) zpl_re_destroy(&re);
    if (frombuf) { vz_unpoison(buf, 1); free(buf); }
    VZ_TRACK_DONE(&T);
}
static unsigned char g[70000]; static size_t gn;
static void noise(void) { /* operators and bytes */
    static const char A[] = "ab()|*+?.[]^$\\ab0dDfsw(|)[["; size_t i; gn = vz_pct(80) ? vz_u(16) : vz_u(60);
    for (i = 0; i < gn; i++) g[i] = (unsigned char)(vz_pct(85) ? A[vz_u(sizeof A - 1)] : (int)vz_u(256));
    run(g, gn, 1);
}
static void mutated(void) { /* well-formed ones, damaged */
    static const char *W[] = { "(//<<([\\w._]+)>>)", "^(a|b|cd+)*?$", "[^\\s\\d]+(x|y|)z?", "\\41\\ff[\\00\\w]", "((a)|(b(c|d)))+", "a+?b*?c?", "(a|(b|(c|(d|e))))f$", "[abc][^abc]*[]x", "\\\\\\(\\)\\[\\]" };
    const char *w = W[vz_u(9)]; int k = (int)vz_u(5); gn = strlen(w); memcpy(g, w, gn);
    while (k--) { size_t i = vz_u(gn + 1); switch (vz_u(4)) { case 0: if (gn) g[vz_u(gn)] = (unsigned char)vz_u(256); break; case 1: if (gn) { i = vz_u(gn); memmove(g + i, g + i + 1, gn - i - 1); gn--; } break; case 2: memmove(g + i + 1, g + i, gn - i); g[i] = (unsigned char)"()[]|*+?\\^$."[vz_u(12)]; gn++; break; default: gn = vz_u(gn + 1); } }
    run(g, gn, 1); vz_stat("mutants", 1);
}
static void longones(void) { /* nested, repeated or endless */
    size_t n = vz_pct(50) ? vz_u(600) : vz_u(66000), i; const char *u; size_t ul; static const char *U[] = { "(", "a?", "a*", "(a)", "a|", "(a|", "[", "[^", "\\", "abc", "]", ".", "a+?", "\\w*", "^", "|", "[a]+", "\\00", "(((", "x|(" };
    u = U[vz_u(20)]; ul = strlen(u); gn = 0; for (i = 0; gn + ul < n; i++) { memcpy(g + gn, u, ul); gn += ul; if (vz_pct(1) && gn < 65000) g[gn++] = (unsigned char)"()[]|*+?a"[vz_u(9)]; }
    if (vz_pct(20)) { size_t k = vz_u(300); while (k-- && gn < 69000) g[gn++] = ')'; }
    run(g, gn, vz_pct(100) && (ul < 2 || !strpbrk(u, "*?+|") || gn < 16)); vz_stat("long patterns", 1);
}
/* deep but deterministic: the recursion must stay within the stack */
static void deep(void) {
    zpl_re re; size_t k = 100 + vz_u(20000), i; zpl_regex_error e; char *p; int ok;
    gn = 0; for (i = 0; i < k && gn < 60000; i++) { g[gn++] = 'b'; g[gn++] = '?'; }
    p = (char *)vz_dup(g, gn); e = zpl_re_compile(&re, zpl_heap(), p, (zpl_isize)gn); vz_undup(p); vz_distinct(k);
    if (!e) { zpl_isize off = -1; ok = zpl_re_match(&re, "a", 1, 0, 0, &off); VZ_CHECK(ok && off == 0, "deep", "%zu optional steps do not match nothing", k); vz_stat("deep matches", 1); } else { VZ_CHECK(e == ZPL_RE_ERROR_TOO_LONG, "deep-code", "%zu optional steps are refused with %d", k, e); vz_stat("deep patterns refused", 1); }
    if (!e) zpl_re_destroy(&re);
}
VZ_MAIN({ "noise", noise, 60 }, { "mutated", mutated, 30 }, { "long", longones, 5 }, { "deep", deep, 1 })
