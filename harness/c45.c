/* half-precision conversion, all 65536 halves and single-precision numbers over every exponent */
#include "vz.h"
#include <math.h>
static double half_value(unsigned h) { int e = (int)(h >> 10 & 31), m = (int)(h & 1023); double v = e == 0 ? ldexp(m, -24) : ldexp(1024 + m, e - 25); return h & 0x8000 ? -v : v; }
static void one_half(unsigned h) {
    zpl_half in = (zpl_half)(unsigned short)h; float f = zpl_half_to_float(in), w; unsigned back = (unsigned short)zpl_float_to_half(f), b; memcpy(&b, &f, 4);
    if ((h & 0x7c00) == 0x7c00) {
        if (h & 1023) { VZ_CHECK(f != f, "half-nan", "half %04x gives %g", h, f); VZ_CHECK((back & 0x7c00) == 0x7c00 && (back & 1023), "half-nan", "half %04x comes back as %04x", h, back); vz_stat("NaN halves", 1); }
        else { VZ_CHECK(isinf(f) && (b >> 31) == (h >> 15), "half-inf", "half %04x gives %g", h, f); VZ_CHECK(back == h, "half-inf", "half %04x comes back as %04x", h, back); vz_stat("infinite halves", 1); } return; }
    w = (float)half_value(h); VZ_CHECK(!memcmp(&f, &w, 4), "half-value", "half %04x gives %.9g instead of %.9g", h, f, w); VZ_CHECK(back == h, "half-back", "half %04x comes back as %04x", h, back); vz_stat((h & 0x7c00) ? "normal halves" : "subnormal and zero halves", 1);
}
static unsigned next_ = 0;
static void t_all(void) { int i; for (i = 0; i < 4096; i++) { one_half(next_ & 0xffff); next_++; } vz_distinct(next_ & 0xffff); vz_stat("halves converted", 4096); }
static void t_single(void) {
    int q; for (q = 0; q < 400; q++) {
        unsigned bits, h, sgn; float f; double a, lo, hi, g;
        switch (vz_u(6)) {
            case 0: bits = (unsigned)vz_r(); break;
            case 1: bits = (unsigned)(vz_range(100, 145) << 23) | ((unsigned)vz_r() & 0x7fffff); break;
            case 2: bits = (unsigned)(vz_range(100, 145) << 23) | (((unsigned)vz_r() & 0x7ff) << 12); bits += (unsigned)vz_range(-2, 2); break; /* near rounding boundaries */
            case 3: { f = (float)((half_value((unsigned)vz_u(0x7c00)) + half_value((unsigned)vz_u(0x7c00))) / 2); memcpy(&bits, &f, 4); break; }
            case 4: { unsigned k = (unsigned)vz_u(0x7bff); f = (float)((half_value(k) + half_value(k + 1)) / 2); memcpy(&bits, &f, 4); bits += (unsigned)vz_range(-1, 1); vz_stat("halfway points", 1); break; }
            default: { static const float edge[] = { 65504, 65519, 65519.996f, 65520, 65536, 1e38f, INFINITY, 0, 5.9604645e-8f, 2.9802322e-8f, 2.9802326e-8f, 6.1035156e-5f, 6.0975552e-5f, 1e-40f, NAN }; f = edge[vz_u(sizeof edge / sizeof *edge)]; memcpy(&bits, &f, 4); if ((bits & 0x7f800000) != 0x7f800000 && bits) bits += (unsigned)vz_range(-1, 1); break; } }
        if (vz_pct(50)) bits |= 0x80000000u; memcpy(&f, &bits, 4); h = (unsigned short)zpl_float_to_half(f); sgn = bits >> 31; vz_distinct(bits);
        if (f != f) { VZ_CHECK((h & 0x7c00) == 0x7c00 && (h & 1023), "float-nan", "NaN %08x gives half %04x", bits, h); vz_stat("NaNs converted", 1); continue; }
        VZ_CHECK(h >> 15 == sgn, "sign", "%.9g gives half %04x", f, h); a = fabs((double)f); h &= 0x7fff;
        if (a >= 65520) { VZ_CHECK(h == 0x7c00, "overflow", "%.9g gives half %04x", f, h); vz_stat("overflows", 1); continue; }
        VZ_CHECK(h < 0x7c00, "finite", "%.9g gives half %04x", f, h); g = half_value(h); lo = h ? half_value(h - 1) : -1; hi = h == 0x7bff ? 65536 : half_value(h + 1);
        VZ_CHECK(fabs(g - a) <= fabs(a - lo) && fabs(g - a) <= fabs(hi - a), "nearest", "%.9g gives half %04x, that is %.9g", f, h, g); vz_stat(a < 6.1e-5 ? "small numbers rounded" : "numbers rounded", 1); vz_sample("%.9g to half %04x", f, h);
    }
}
VZ_MAIN({"halves", t_all, 1}, {"singles", t_single, 6})
