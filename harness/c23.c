/* base64 against an independent codec; text and data in exact-size blocks without a terminator */
#include "vz.h"
static const char al[] = "ABCDEFGHIJKLMNOPQRSTUVWXYZabcdefghijklmnopqrstuvwxyz0123456789+/";
static size_t renc(const uint8_t *p, size_t n, char *o) { size_t j = 0, i; for (i = 0; i < n; i += 3) { uint32_t v = (uint32_t)p[i] << 16 | (i + 1 < n ? (uint32_t)p[i + 1] << 8 : 0) | (i + 2 < n ? p[i + 2] : 0); o[j++] = al[v >> 18]; o[j++] = al[v >> 12 & 63]; o[j++] = i + 1 < n ? al[v >> 6 & 63] : '='; o[j++] = i + 2 < n ? al[v & 63] : '='; } o[j] = 0; return j; }
static void t_round(void) {
    size_t n = vz_pct(1) ? vz_near2(8, 17) : vz_pct(70) ? 1 + vz_u(60) : 1 + vz_u(3000), i, m; uint8_t *p = malloc(n), *d; char *want = malloc(n * 2 + 8), *t; zpl_u8 *e; vz_track tr; zpl_allocator A; vz_track_init(&tr); A = vz_track_allocator(&tr); for (i = 0; i < n; i++) p[i] = vz_pct(80) ? (uint8_t)vz_r() : vz_pct(50) ? 0xff : 0;
    m = renc(p, n, want); e = zpl_base64_encode(A, p, (zpl_isize)n); VZ_CHECK(e && strlen((char *)e) == m && !memcmp(e, want, m), "encode", "%zu bytes: '%s', expected '%s'", n, e ? (char *)e : "(null)", want);
    t = vz_dup(want, m); d = zpl_base64_decode(A, t, (zpl_isize)m); VZ_CHECK(d && !memcmp(d, p, n), "decode", "the encoding of %zu bytes does not decode to them", n); VZ_CHECK(d[n] == 0, "terminator", "after %zu bytes", n); vz_undup(t);
    zpl_free(A, e); zpl_free(A, d); VZ_TRACK_DONE(&tr); vz_distinct(vz_hash(p, n, 1)); vz_sample("%zu bytes", n); free(p); free(want);
}
static void t_text(void) { /* arbitrary text */
    size_t n = vz_u(vz_pct(80) ? 24 : 200), i, pads = 0; char *s = malloc(n + 1), *t; int bad = 0, form; zpl_u8 *d; vz_track tr; zpl_allocator A; vz_track_init(&tr); A = vz_track_allocator(&tr); if (vz_pct(50)) n -= n % 4;
    for (i = 0; i < n; i++) s[i] = vz_pct(93) ? al[vz_u(64)] : vz_pct(60) ? '=' : (char)vz_r(); if (vz_pct(30)) for (i = 0; i < n && i < vz_u(5); i++) s[n - 1 - i] = '=';
    for (i = 0; i < n; i++) if (!s[i] || !strchr("ABCDEFGHIJKLMNOPQRSTUVWXYZabcdefghijklmnopqrstuvwxyz0123456789+/=", s[i])) bad = 1;
    form = !bad && n % 4 == 0; while (pads < n && s[n - 1 - pads] == '=') pads++; for (i = 0; i + pads < n; i++) if (s[i] == '=') form = 0; if (pads > 2) form = 0;
    t = vz_dup(s, n); d = zpl_base64_decode(A, t, (zpl_isize)n); vz_undup(t); VZ_CHECK(!bad || !d, "alphabet", "'%s' was decoded", vz_show(s, n));
    if (form) { VZ_CHECK(d, "decode", "well-formed '%s' rejected", vz_show(s, n)); for (i = 0; i < n / 4; i++) { uint32_t v = 0; int k, b; for (k = 0; k < 4; k++) { const char *q = strchr(al, s[4 * i + (size_t)k]); v = v << 6 | (s[4 * i + (size_t)k] == '=' ? 0 : (uint32_t)(q - al)); } b = i + 1 == n / 4 ? 3 - (int)pads : 3; for (k = 0; k < b; k++) VZ_CHECK(d[3 * i + (size_t)k] == (uint8_t)(v >> (16 - 8 * k)), "decode", "byte %zu of '%s'", 3 * i + (size_t)k, vz_show(s, n)); } vz_stat("well-formed texts", 1); } else vz_stat(bad ? "texts with foreign characters" : "malformed texts", 1);
    if (d) { VZ_CHECK(vz_track_find(&tr, d), "result", "not a block of the given allocator"); zpl_free(A, d); } VZ_TRACK_DONE(&tr); vz_distinct(vz_hash(s, n, 2)); free(s);
}
VZ_MAIN({"round trip", t_round, 1}, {"arbitrary text", t_text, 1})
