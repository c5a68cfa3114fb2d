/* integers and fractions to text and back, against independent digit generation and the C library */
#include "vz.h"
static void ref_u(uint64_t v, int base, char *o) { char t[70]; int k = 0; do { t[k++] = "0123456789ABCDEFGHIJKLMNOPQRSTUVWXYZ"[v % (unsigned)base]; v /= (unsigned)base; } while (v); while (k) *o++ = t[--k]; *o = 0; }
static int fold_eq(const char *a, const char *b) { while (*a && (tolower((unsigned char)*a) == tolower((unsigned char)*b))) { a++; b++; } return *a == *b; }
static int rbase(void) { int b = (int)vz_range(2, 11); return b == 11 ? 16 : b; }
static void t_round(void) {
    uint64_t u = vz_edge64(); int64_t i = (int64_t)u; int b = rbase(); char w[80], o[80], *g; char *e; size_t n;
    ref_u(u, b, w); n = strlen(w); g = malloc(n + 1); memset(g, 0x5a, n + 1);
    zpl_u64_to_str(u, g, b); VZ_CHECK(fold_eq(g, w), "u64-text", "%llu base %d gave '%s'", (unsigned long long)u, b, g);
    e = 0; VZ_CHECK(zpl_str_to_u64(g, &e, b) == u && e == g + n, "u64-back", "'%s' base %d gave %llu, end %td", g, b, (unsigned long long)zpl_str_to_u64(g, 0, b), e - g);
    free(g);
    o[0] = '-'; if (i < 0) ref_u(0 - u, b, o + 1); else ref_u(u, b, o);
    n = strlen(o); g = malloc(n + 1); zpl_i64_to_str(i, g, b);
    VZ_CHECK(fold_eq(g, o), "i64-text", "%lld base %d gave '%s'", (long long)i, b, g);
    VZ_CHECK(zpl_str_to_i64(g, &e, b) == i && e == g + n, "i64-back", "'%s' base %d gave %lld, end %td", g, b, (long long)zpl_str_to_i64(g, 0, b), e - g);
    if (b == 10) VZ_CHECK(zpl_str_to_i64(g, &e, 0) == i && e == g + n, "i64-auto", "'%s' base 0 gave %lld", g, (long long)zpl_str_to_i64(g, 0, 0));
    free(g); vz_distinct(vz_hash(&u, 8, (uint64_t)b)); vz_sample("%lld in base %d", (long long)u, (int)b);
    { int bb = (int)vz_range(2, 36); ref_u(u, bb, w); zpl_u64_to_str(u, o, bb); VZ_CHECK(fold_eq(o, w), "u64-text", "%llu base %d gave '%s'", (unsigned long long)u, bb, o); }
}
/* [-][0x]digits followed by arbitrary trailing text, value within range */
static void t_scan(void) {
    char s[128]; int k = 0, b = rbase(), nd = (int)vz_range(1, b == 2 ? 56 : b == 16 ? 10 : 13), neg = vz_pct(40), pre = 0, base_arg = b, i; char *e1, *e2, *x; long long ref; unsigned long long uref;
    if (neg) s[k++] = '-';
    if (b == 16 && vz_pct(60)) { s[k++] = '0'; s[k++] = 'x'; pre = 1; }
    if (b == 16 && pre && vz_pct(40)) base_arg = 0;
    if (b == 10 && vz_pct(40)) base_arg = 0;
    for (i = 0; i < nd; i++) { int d = (int)vz_u((uint64_t)b); s[k++] = d < 10 ? (char)('0' + d) : (char)((vz_pct(50) ? 'a' : 'A') + d - 10); }
    if (b <= 10 && base_arg == 10 && vz_pct(10)) { /* leading zeros */ }
    if (vz_pct(60)) { int m = (int)vz_u(4); static const char tr[] = "9a gGzZ.,-+xX_/:@`"; if (vz_pct(50)) s[k++] = tr[vz_u(sizeof tr - 1)]; while (m--) s[k++] = (char)(1 + vz_u(255)); }
    { char *d = s + neg + 2 * pre; if (d[0] == '0' && nd == 1 && k > (int)(d - s) + 1 && strchr("xXbB", d[1])) k = (int)(d - s) + 1; } /* looks like a radix prefix */
    s[k] = 0; x = vz_dup(s, (size_t)k + 1);
    ref = strtoll(s, &e1, b); 
    { long long v = (long long)zpl_str_to_i64(x, &e2, base_arg); VZ_CHECK(v == ref && e2 - x == e1 - s, "scan-i64", "'%s' base %d gave %lld end %td, C gives %lld end %td", vz_show(s, (size_t)k), base_arg, v, e2 - x, ref, e1 - s); }
    if (!neg) { unsigned long long v; uref = strtoull(s, &e1, b); v = (unsigned long long)zpl_str_to_u64(x, &e2, base_arg);
        VZ_CHECK(v == uref && e2 - x == e1 - s, "scan-u64", "'%s' base %d gave %llu end %td, C gives %llu end %td", vz_show(s, (size_t)k), base_arg, v, e2 - x, uref, e1 - s); }
    VZ_CHECK(zpl_str_to_i64(x, 0, base_arg) == ref, "scan-noend", "'%s'", s);
    vz_distinct(vz_hash(s, (size_t)k, (uint64_t)base_arg)); vz_sample("'%s' read in base %d", vz_show(s, (size_t)k), (int)base_arg); vz_undup(x);
}
static void t_real(void) {
    char s[200]; int k = 0, i, ni = (int)vz_u(vz_pct(80) ? 10 : 18), nf = vz_pct(70) ? (int)vz_u(12) : 0, ex = 0; char *e1, *e2, *x; double ref, v, err;
    while (vz_pct(15)) s[k++] = " \t\n"[vz_u(3)];
    if (vz_pct(40)) s[k++] = vz_pct(70) ? '-' : '+';
    if (!ni && !nf) ni = 1;
    for (i = 0; i < ni; i++) s[k++] = (char)('0' + vz_u(10));
    if (nf || vz_pct(20)) s[k++] = '.';
    for (i = 0; i < nf; i++) s[k++] = (char)('0' + vz_u(10));
    if (vz_pct(40)) { ex = (int)vz_range(-270, 270); if (vz_pct(60)) ex = (int)vz_range(-20, 20); k += sprintf(s + k, "%c%s%d", vz_pct(50) ? 'e' : 'E', ex >= 0 && vz_pct(50) ? "+" : "", ex); }
    if (vz_pct(40)) { static const char tr[] = " ,]}x-\"\n/:"; s[k++] = tr[vz_u(sizeof tr - 1)]; if (vz_pct(50)) s[k++] = (char)('0' + vz_u(10)); }
    s[k] = 0; x = vz_dup(s, (size_t)k + 1);
    if (!strncmp(s + strspn(s, " \t\n+-"), "0x", 2)) { vz_undup(x); return; }
    ref = strtod(s, &e1); v = zpl_str_to_f64(x, &e2);
    VZ_CHECK(e2 - x == e1 - s, "real-end", "'%s' ends at %td, C says %td", vz_show(s, (size_t)k), e2 - x, e1 - s);
    err = fabs(v - ref); VZ_CHECK(err <= fabs(ref) * 1e-14, "real-value", "'%s' gave %.17g, C gives %.17g", vz_show(s, (size_t)k), v, ref);
    VZ_CHECK(signbit(v) == signbit(ref), "real-sign", "'%s' gave %g", vz_show(s, (size_t)k), v);
    { float f = zpl_str_to_f32(x, &e2), rf = strtof(s, 0); VZ_CHECK(e2 - x == e1 - s && (f == rf || fabsf(f - rf) <= fabsf(rf) * 1.3e-7f + 1e-44f), "real32", "'%s' gave %g, C gives %g", vz_show(s, (size_t)k), f, rf); }
    vz_distinct(vz_hash(s, (size_t)k, 0)); vz_undup(x);
}
VZ_MAIN({"roundtrip", t_round, 4}, {"scan", t_scan, 3}, {"fraction", t_real, 3})
