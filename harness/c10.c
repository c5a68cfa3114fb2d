/* UTF-8 and UTF-16 against an independent codec written from the Unicode tables */
#include "vz.h"
static int enc(uint32_t c, unsigned char *o) {
    if (c < 0x80) { o[0] = (unsigned char)c; return 1; }
    if (c < 0x800) { o[0] = 0xc0 | (c >> 6); o[1] = 0x80 | (c & 63); return 2; }
    if (c < 0x10000) { o[0] = 0xe0 | (c >> 12); o[1] = 0x80 | ((c >> 6) & 63); o[2] = 0x80 | (c & 63); return 3; }
    o[0] = 0xf0 | (c >> 18); o[1] = 0x80 | ((c >> 12) & 63); o[2] = 0x80 | ((c >> 6) & 63); o[3] = 0x80 | (c & 63); return 4;
}
/* length of the well-formed sequence at p, or 0 */
static int wf(const unsigned char *p, size_t n, uint32_t *c) {
    uint32_t v; int k, i; unsigned char t[4];
    if (!n) return 0;
    if (p[0] < 0x80) { *c = p[0]; return 1; }
    if (p[0] < 0xc0) return 0;
    if (p[0] < 0xe0) k = 2, v = p[0] & 31; else if (p[0] < 0xf0) k = 3, v = p[0] & 15; else if (p[0] < 0xf8) k = 4, v = p[0] & 7; else return 0;
    if (n < (size_t)k) return 0;
    for (i = 1; i < k; i++) { if ((p[i] & 0xc0) != 0x80) return 0; v = v << 6 | (p[i] & 63); }
    if (v > 0x10ffff || (v >= 0xd800 && v < 0xe000)) return 0;
    if (enc(v, t) != k) return 0; /* overlong */
    *c = v; return k;
}
static uint32_t rscalar(void) {
    static const uint32_t edge[] = {1, 0x7f, 0x80, 0x7ff, 0x800, 0xd7ff, 0xe000, 0xfffd, 0xfffe, 0xffff, 0x10000, 0x10ffff, 0xfff, 0x1000, 0x3ffff, 0x40000, 0xfffff, 0x100000};
    uint32_t c;
    switch (vz_u(6)) { case 0: return edge[vz_u(sizeof edge / 4)]; case 1: return (uint32_t)vz_range(1, 0x7f); case 2: return (uint32_t)vz_range(0x80, 0x7ff); case 3: return (uint32_t)vz_range(0x10000, 0x10ffff); }
    do c = (uint32_t)vz_range(0x800, 0xffff); while (c >= 0xd800 && c < 0xe000); return c;
}
static void t_scalars(void) { /* exhaustive over slices of the code space */
    static const uint32_t step = 0x2200; uint32_t lo = (uint32_t)(vz_case_no < 129 ? vz_case_no : vz_u(0x110000 / step)) * step, c, hi = lo + step;
    if (hi > 0x110000) hi = 0x110000;
    for (c = lo; c < hi; c++) {
        unsigned char w[4], *g = malloc(4); zpl_rune r = -7; int n; zpl_isize k;
        if (c >= 0xd800 && c < 0xe000) { k = zpl_utf8_encode_rune(g, (zpl_rune)c); VZ_CHECK(k == 3 && !memcmp(g, "\xef\xbf\xbd", 3), "encode-surrogate", "U+%04X gave %zd bytes %s", c, (ssize_t)k, vz_show(g, 3)); free(g); continue; }
        n = enc(c, w); k = zpl_utf8_encode_rune(g, (zpl_rune)c);
        VZ_CHECK(k == n && !memcmp(g, w, (size_t)n), "encode", "U+%04X gave %zd bytes %s", c, (ssize_t)k, vz_show(g, 4));
        { unsigned char *x = vz_dup(w, (size_t)n); k = zpl_utf8_decode(x, n, &r); VZ_CHECK(k == n && r == (zpl_rune)c, "decode", "U+%04X gave U+%04X width %zd", c, (unsigned)r, (ssize_t)k);
          VZ_CHECK(zpl_utf8_codepoint_size(x, n) == n, "codepoint-size", "U+%04X gave %zd", c, (ssize_t)zpl_utf8_codepoint_size(x, n));
          vz_undup(x);
          if (!(c & 7) || c < 0x900) { unsigned char t[9]; static const unsigned char nx[] = {'a', 0xc3, 0xe2, 0xf0, 0x7f, 0}; memcpy(t, w, (size_t)n); t[n] = nx[c / 8 % 6]; t[n + 1] = 0xa9; x = vz_dup(t, (size_t)n + 2); k = zpl_utf8_codepoint_size(x, n + 2); VZ_CHECK(k == n, "codepoint-size", "U+%04X before byte %02x gave %zd", c, t[n], (ssize_t)k); k = zpl_utf8_decode(x, n + 2, &r); VZ_CHECK(k == n && r == (zpl_rune)c, "decode", "U+%04X before byte %02x gave U+%04X width %zd", c, t[n], (unsigned)r, (ssize_t)k); k = zpl_utf8_decode(x, n + 2, 0); VZ_CHECK(k == n, "decode-width", "U+%04X has width %zd when only the width is asked for", c, (ssize_t)k); vz_undup(x); } }
        free(g);
    }
    { unsigned char *g = malloc(4); static const zpl_rune out[] = {-1, 0x110000, 0x7fffffff, INT32_MIN, 0x1fffff, 0x200000}; zpl_rune q = vz_pct(50) ? out[vz_u(6)] : (zpl_rune)(0x110000 + vz_u(0x6fffffff)); zpl_isize k = zpl_utf8_encode_rune(g, q); VZ_CHECK(k == 3 && !memcmp(g, "\xef\xbf\xbd", 3), "encode-outside", "%lx gave %zd bytes %s", (long)q, (ssize_t)k, vz_show(g, 4)); free(g); }
    vz_stat("scalars", hi - lo); vz_sample("scalars %llx to %llx", (unsigned long long)lo, (unsigned long long)hi); vz_distinct(lo);
}
static void dec_check(const unsigned char *p, size_t n) {
    unsigned char *x = vz_dup(p, n); uint32_t c = 0; int k = wf(p, n, &c); zpl_rune r = -7; zpl_isize w = zpl_utf8_decode(x, (zpl_isize)n, &r);
    if (k) VZ_CHECK(w == k && r == (zpl_rune)c, "decode", "%s gave U+%04X width %zd, expected U+%04X width %d", vz_show(p, n), (unsigned)r, (ssize_t)w, c, k);
    else if (n) VZ_CHECK(r == ZPL_RUNE_INVALID && w == 1, "decode-malformed", "%s gave U+%04X width %zd", vz_show(p, n), (unsigned)r, (ssize_t)w);
    else VZ_CHECK(r == ZPL_RUNE_INVALID && w == 0, "decode-empty", "gave U+%04X width %zd", (unsigned)r, (ssize_t)w);
    vz_undup(x);
}
static void t_bytes(void) { /* all strings of two bytes with one lead (exhaustive), plus structured longer ones */
    unsigned char b[6]; int i, j; unsigned lead = (unsigned)(vz_case_no < 600 ? vz_case_no : vz_u(256)) & 255;
    b[0] = (unsigned char)lead; dec_check(b, 0); dec_check(b, 1);
    for (i = 0; i < 256; i++) { b[1] = (unsigned char)i; dec_check(b, 2); }
    for (i = 0; i < 400; i++) {
        static const unsigned char m[] = {0x00, 0x7f, 0x80, 0x8f, 0x90, 0x9f, 0xa0, 0xbf, 0xc0, 0xc1, 0xc2, 0xdf, 0xe0, 0xed, 0xef, 0xf0, 0xf4, 0xf5, 0xff};
        int n = (int)vz_range(2, 6); for (j = 1; j < n; j++) b[j] = m[vz_u(sizeof m)]; if (vz_pct(50)) b[0] = m[vz_u(sizeof m)]; else b[0] = (unsigned char)vz_u(256);
        dec_check(b, (size_t)n);
    }
    vz_distinct(lead ^ vz_r());
}
static size_t u16len(const zpl_u16 *p) { size_t n = 0; while (p[n]) n++; return n; }
static void t_utf16(void) {
    size_t n = vz_u(40), i, bl = 0, ul = 0; unsigned char b[200]; zpl_u16 u[100]; uint64_t h = 0;
    for (i = 0; i < n; i++) { uint32_t c = rscalar(); bl += (size_t)enc(c, b + bl); if (c < 0x10000) u[ul++] = (zpl_u16)c; else { u[ul++] = (zpl_u16)(0xd800 + ((c - 0x10000) >> 10)); u[ul++] = (zpl_u16)(0xdc00 + (c & 0x3ff)); } h = h * 31 + c; }
    b[bl] = 0; u[ul] = 0;
    { unsigned char *x = vz_dup(b, bl + 1); zpl_u16 *y = vz_dup(u, (ul + 1) * 2), *o16; unsigned char *o8; size_t cap;
      VZ_CHECK((size_t)zpl_utf8_strlen(x) == n, "strlen", "%zd scalars instead of %zu in %s", (ssize_t)zpl_utf8_strlen(x), n, vz_show(b, bl));
      { unsigned char *z = vz_dup(b, bl); VZ_CHECK((size_t)zpl_utf8_strnlen(z, (zpl_isize)bl) == n, "strnlen", "%zd scalars instead of %zu in %s", (ssize_t)zpl_utf8_strnlen(z, (zpl_isize)bl), n, vz_show(b, bl)); vz_undup(z); }
      { zpl_isize lim = (zpl_isize)vz_u(bl + 20), want = 0; size_t at = 0; uint32_t c; VZ_CHECK((size_t)zpl_utf8_strnlen(x, (zpl_isize)(bl + 1 + vz_u(50))) == n, "strnlen-end", "not %zu scalars before the terminator of %s", n, vz_show(b, bl)); while (at < bl && (zpl_isize)at < lim) { at += (size_t)wf(b + at, bl - at, &c); want++; } VZ_CHECK(zpl_utf8_strnlen(x, lim) == want, "strnlen-limit", "%zd scalars begin in the first %zd bytes of %s, counted %zd", (ssize_t)want, (ssize_t)lim, vz_show(b, bl), (ssize_t)zpl_utf8_strnlen(x, lim)); }
      cap = vz_u(ul + 4); o16 = malloc(cap ? cap * 2 : 1);
      { zpl_u16 *r = zpl_utf8_to_ucs2(o16, (zpl_isize)cap, x);
        if (cap >= ul + 1) VZ_CHECK(r == o16 && u16len(r) == ul && !memcmp(r, u, (ul + 1) * 2), "to-utf16", "%s into %zu units", vz_show(b, bl), cap);
        else VZ_CHECK(!r, "to-utf16-room", "%zu units into %zu were accepted", ul + 1, cap); }
      free(o16); cap = vz_u(bl + 5); o8 = malloc(cap ? cap : 1);
      { zpl_u8 *r = zpl_ucs2_to_utf8(o8, (zpl_isize)cap, y);
        if (cap >= bl + 1) VZ_CHECK(r == o8 && !memcmp(r, b, bl + 1), "to-utf8", "%s into %zu bytes", vz_show(b, bl), cap);
        else VZ_CHECK(!r, "to-utf8-room", "%zu bytes into %zu were accepted", bl + 1, cap); }
      free(o8);
      { zpl_u16 *r = zpl_utf8_to_ucs2_buf(x); zpl_u8 *q; VZ_CHECK(r && !memcmp(r, u, (ul + 1) * 2), "to-utf16-buf", "%s", vz_show(b, bl)); q = zpl_ucs2_to_utf8_buf(r); VZ_CHECK(q && !memcmp(q, b, bl + 1), "to-utf8-buf", "%s", vz_show(b, bl)); }
      vz_undup(x); vz_undup(y); }
    vz_distinct(h);
}
static void t_bad16(void) { /* malformed input to the converters is rejected, whatever surrounds it */
    size_t bl = 0, ul = 0, i, n = vz_u(6); unsigned char b[80]; zpl_u16 u[40]; unsigned char *o8 = malloc(200); zpl_u16 *o16 = malloc(200);
    for (i = 0; i < n; i++) { uint32_t c = rscalar(); bl += (size_t)enc(c, b + bl); if (c < 0x10000) u[ul++] = (zpl_u16)c; else { u[ul++] = (zpl_u16)(0xd800 + ((c - 0x10000) >> 10)); u[ul++] = (zpl_u16)(0xdc00 + (c & 0x3ff)); } }
    { size_t k = (size_t)vz_range(1, 4), j, ok = 1; unsigned char bad[8]; uint32_t c;
      static const unsigned char m[] = {0x7f, 0x80, 0x8f, 0x90, 0x9f, 0xa0, 0xbf, 0xc0, 0xc1, 0xc2, 0xdf, 0xe0, 0xed, 0xef, 0xf0, 0xf4, 0xf5, 0xff};
      for (j = 0; j < k; j++) bad[j] = m[vz_u(sizeof m)];
      memcpy(b + bl, bad, k); bl += k; if (vz_pct(40)) b[bl++] = 'x'; b[bl] = 0;
      for (j = 0; j < bl;) { int w = wf(b + j, bl - j, &c); if (!w) { ok = 0; break; } j += (size_t)w; }
      { unsigned char *x = vz_dup(b, bl + 1); zpl_u16 *r = zpl_utf8_to_ucs2(o16, 100, x); VZ_CHECK((r != 0) == (ok != 0), "to-utf16-malformed", "%s %s", vz_show(b, bl), r ? "accepted" : "rejected"); zpl_utf8_strlen(x); vz_undup(x); }
      { unsigned char *x = vz_dup(b, bl); zpl_utf8_strnlen(x, (zpl_isize)bl); vz_undup(x); }
      if (!ok) vz_stat("malformed utf-8", 1); }
    { size_t k = (size_t)vz_range(1, 3), j; int ok = 1;
      for (j = 0; j < k; j++) u[ul++] = (zpl_u16)(vz_pct(70) ? (vz_pct(50) ? vz_range(0xd800, 0xdbff) : vz_range(0xdc00, 0xdfff)) : vz_range(1, 0xd7ff)); 
      u[ul] = 0;
      for (j = 0; j < ul; j++) { if (u[j] >= 0xd800 && u[j] < 0xdc00) { if (u[j + 1] >= 0xdc00 && u[j + 1] < 0xe000) j++; else ok = 0; } else if (u[j] >= 0xdc00 && u[j] < 0xe000) ok = 0; }
      { zpl_u16 *y = vz_dup(u, (ul + 1) * 2); zpl_u8 *r = zpl_ucs2_to_utf8(o8, 200, y); VZ_CHECK((r != 0) == ok, "to-utf8-malformed", "%zu units %s", ul, r ? "accepted" : "rejected"); vz_undup(y); }
      if (!ok) vz_stat("malformed utf-16", 1); }
    vz_distinct(vz_hash(b, bl, vz_hash(u, ul * 2, 0))); free(o8); free(o16);
}
VZ_MAIN({"scalars", t_scalars, 1}, {"bytes", t_bytes, 2}, {"utf16", t_utf16, 10}, {"malformed", t_bad16, 10})
