/* scalar math against the C library and stated identities */
#include "vz.h"
#include <math.h>
#include <float.h>
static double ulp32(double v) { float a = fabsf((float)v); return a < FLT_MIN ? 1e-44 : (double)nextafterf(a, INFINITY) - (double)a; }
static float gf(void) { /* boundary-heavy single-precision numbers within +-2^31 */
    float f; switch (vz_u(9)) {
        case 0: f = (float)vz_range(-20, 20); break; case 1: f = (float)vz_range(-40, 40) * 0.5f; break;
        case 2: f = (float)(int32_t)vz_edge64(); break; case 3: f = (float)ldexp(vz_unit() * 2 - 1, (int)vz_range(-30, 31)); break;
        case 4: f = (float)ldexp(1, (int)vz_range(0, 30)) + (float)vz_range(-2, 2) * 0.5f; break;
        case 5: f = (float)((vz_unit() - 0.5) * 20); break; case 6: f = (float)vz_range(-1000000, 1000000) * 0.25f; break; case 7: f = (float)vz_range(-8388608, 8388608) + 0.5f; break;
        default: f = (float)vz_range(-10, 10) + (vz_pct(50) ? 0.5f : 0); }
    if (vz_pct(25)) f = nextafterf(f, vz_pct(50) ? INFINITY : -INFINITY); if (vz_pct(50)) f = -f; return f;
}
static double gd(void) {
    double f; switch (vz_u(7)) {
        case 0: f = (double)vz_range(-40, 40) * 0.5; break; case 1: f = (double)(int64_t)vz_edge64(); break; case 2: f = ldexp(vz_unit() * 2 - 1, (int)vz_range(-60, 62)); break;
        case 3: f = ldexp(1, (int)vz_range(0, 61)) + (double)vz_range(-2, 2) * 0.5; break; case 4: f = (double)(int64_t)(vz_r() >> 12) + 0.5; break; case 5: f = (double)vz_range(-1000000000, 1000000000) * 0.25; break;
        default: f = (double)vz_range(-100, 100); }
    if (vz_pct(25)) f = nextafter(f, vz_pct(50) ? INFINITY : -INFINITY); if (vz_pct(50)) f = -f; return fabs(f) > 4e18 ? 1.5 : f;
}
#define EQ(got, want, name, ...) do { double g_ = (double)(got), w_ = (double)(want); VZ_CHECK(g_ == w_ || (g_ != g_ && w_ != w_), name, name "(" __VA_ARGS__); } while (0)
static void t_round(void) {
    int q; for (q = 0; q < 40; q++) {
        float x = gf(), y; double d = gd(), e;
        y = zpl_floor(x); VZ_CHECK(y == floorf(x), "floor", "floor(%.9g) gives %.9g", x, y); y = zpl_ceil(x); VZ_CHECK(y == ceilf(x), "ceil", "ceil(%.9g) gives %.9g", x, y); y = zpl_round(x); VZ_CHECK(y == roundf(x), "round", "round(%.9g) gives %.9g", x, y);
        e = zpl_floor64(d); VZ_CHECK(e == floor(d), "floor64", "floor64(%.17g) gives %.17g", d, e); e = zpl_ceil64(d); VZ_CHECK(e == ceil(d), "ceil64", "ceil64(%.17g) gives %.17g", d, e); e = zpl_round64(d); VZ_CHECK(e == round(d), "round64", "round64(%.17g) gives %.17g", d, e);
        if (x == floorf(x)) vz_stat(x < 0 ? "negative whole numbers" : "whole numbers", 1); else if (x + 0.5f == floorf(x + 0.5f) && fabsf(x) < 4e6f) vz_stat("halves", 1);
        { float a = gf(), r = zpl_copy_sign(x, a), w = copysignf(x, a); VZ_CHECK(!memcmp(&r, &w, 4), "copysign", "copy_sign(%g, %g) gives %g", x, a, r); } { double a = gd(), r = zpl_copy_sign64(d, a), w = copysign(d, a); VZ_CHECK(!memcmp(&r, &w, 8), "copysign64", "copy_sign64(%g, %g) gives %g", d, a, r); }
        VZ_CHECK(zpl_abs64(d) == fabs(d), "abs64", "abs64(%g)", d); VZ_CHECK(zpl_sign64(d) == (d < 0 ? -1 : 1), "sign64", "sign64(%g)", d); VZ_CHECK(zpl_abs(x) == fabsf(x), "abs", "abs(%g)", x);
        VZ_CHECK(zpl_sign(x) == (x >= 0 ? 1 : -1) && zpl_sign0(x) == (x > 0) - (x < 0), "sign", "sign(%g)", x); VZ_CHECK(zpl_square(x) == x * x && zpl_cube(x) == x * x * x, "square", "square or cube of %g", x);
        { float a = gf(), b = gf(), lo, hi, c; VZ_CHECK(zpl_min(a, b) == fminf(a, b) && zpl_max(a, b) == fmaxf(a, b), "minmax", "min or max of %g and %g", a, b); VZ_CHECK(zpl_min3(a, b, x) == fminf(fminf(a, b), x) && zpl_max3(a, b, x) == fmaxf(fmaxf(a, b), x), "minmax3", "min3 or max3 of %g, %g and %g", a, b, x);
          lo = fminf(a, b); hi = fmaxf(a, b); c = zpl_clamp(x, lo, hi); VZ_CHECK(c == (x < lo ? lo : x > hi ? hi : x), "clamp", "clamp(%g, %g, %g) gives %g", x, lo, hi, c); c = zpl_clamp01(x); VZ_CHECK(c == (x < 0 ? 0 : x > 1 ? 1 : x), "clamp01", "clamp01(%g) gives %g", x, c);
          if (vz_pct(20)) x = vz_pct(50) ? lo : hi; VZ_CHECK(!zpl_is_between(x, lo, hi) == !(x >= lo && x <= hi) && !zpl_is_between_limit(x, lo, hi) == !(x >= lo && x < hi), "between", "is_between(%g, %g, %g)", x, lo, hi); }
        vz_distinct(vz_hash(&x, 4, vz_hash(&d, 8, 1))); vz_sample("%.9g and %.17g through the rounding functions", x, d);
    }
}
static void modf32(float x, float y) {
    float r = zpl_mod(x, y), m = fmodf(x, y); double d = fabs((double)r - m), tol = 4 * ulp32(x) + 2 * ulp32(y), ay = fabs((double)y); if (ay - d < d) d = ay - d;
    VZ_CHECK(fabs(d) <= tol, "mod", "mod(%.9g, %.9g) gives %.9g instead of %.9g", x, y, r, m); VZ_CHECK(fabsf(r) <= fabsf(y) && (r == 0 || (r < 0) == (x < 0)), "mod-range", "mod(%.9g, %.9g) gives %.9g", x, y, r);
    r = zpl_remainder(x, y); d = fabs((double)r - remainderf(x, y)); if (fabs(ay - d) < d) d = fabs(ay - d); VZ_CHECK(d <= tol, "remainder", "remainder(%.9g, %.9g) gives %.9g", x, y, r); VZ_CHECK(fabs(r) <= ay / 2 + tol, "remainder-range", "remainder(%.9g, %.9g) gives %.9g", x, y, r);
}
static void modf64(double x, double y) {
    double r = zpl_mod64(x, y), m = fmod(x, y), d = fabs(r - m), ay = fabs(y), tol = (fabs(x) * 4 + ay * 2) * 2.3e-16; if (ay - d < d) d = ay - d;
    VZ_CHECK(fabs(d) <= tol, "mod64", "mod64(%.17g, %.17g) gives %.17g instead of %.17g", x, y, r, m); VZ_CHECK(fabs(r) <= ay && (r == 0 || (r < 0) == (x < 0)), "mod64-range", "mod64(%.17g, %.17g) gives %.17g", x, y, r);
    r = zpl_remainder64(x, y); d = fabs(r - remainder(x, y)); if (fabs(ay - d) < d) d = fabs(ay - d); VZ_CHECK(d <= tol, "remainder64", "remainder64(%.17g, %.17g) gives %.17g", x, y, r); VZ_CHECK(fabs(r) <= ay / 2 + tol, "remainder64-range", "remainder64(%.17g, %.17g) gives %.17g", x, y, r);
}
static void t_mod(void) {
    int q; for (q = 0; q < 30; q++) {
        int a = (int)vz_range(-(vz_pct(50) ? 20 : 100000), vz_pct(50) ? 20 : 100000), b; float x, y, r; do b = (int)vz_range(-50, 50); while (!b);
        r = zpl_mod((float)a, (float)b); VZ_CHECK(r == (float)(a % b), "mod-whole", "mod(%d, %d) gives %g", a, b, r); { double s = zpl_mod64(a, b); VZ_CHECK(s == (double)(a % b), "mod64-whole", "mod64(%d, %d) gives %g", a, b, s); } vz_stat(a < 0 ? "whole mods of negatives" : "whole mods", 1);
        y = (float)ldexp(0.5 + vz_unit() * 0.5, (int)vz_range(-8, 8)); if (vz_pct(30)) y = (float)vz_range(1, 12) * 0.25f; if (vz_pct(30)) y = -y; x = (float)((vz_unit() * 2 - 1) * fabs(y) * ldexp(1, (int)vz_u(18))); if (vz_pct(30)) x = y * (float)vz_range(-50, 50); modf32(x, y);
        { double u = (double)y + (vz_pct(50) ? vz_unit() * 0.01 : 0), v = (vz_unit() * 2 - 1) * fabs(u) * ldexp(1, (int)vz_u(40)); if (vz_pct(30)) v = u * (double)vz_range(-50, 50); modf64(v, u); vz_distinct(vz_hash(&v, 8, vz_hash(&x, 4, 2))); }
    }
}
static void near(const char *name, double got, double want, double rel, double abs_, double x, double y) { double d = fabs(got - want); VZ_CHECK(d <= fabs(want) * rel + abs_ || (got == want), name, "%s(%.9g, %.9g) gives %.9g instead of %.9g", name, x, y, got, want); }
static void t_fun(void) {
    int q; for (q = 0; q < 25; q++) {
        float p = (float)ldexp(0.5 + vz_unit() / 2, (int)vz_range(-60, 60)), a = (float)((vz_unit() * 2 - 1) * (vz_pct(50) ? 4 : 100)), u = (float)(vz_unit() * 2 - 1), b = (float)((vz_unit() * 2 - 1) * 10); if (vz_pct(10)) u = (float)((int)vz_u(3) - 1);
        if (vz_pct(15)) p = (float)vz_range(1, 1000); if (vz_pct(10)) a = (float)vz_range(-8, 8) * (float)(M_PI / 4);
        near("sqrt", zpl_sqrt(p), sqrt((double)p), 1.2e-7, 0, p, 0); near("rsqrt", zpl_rsqrt(p), 1 / sqrt((double)p), 5e-7, 0, p, 0); near("quake_rsqrt", zpl_quake_rsqrt(p), 1 / sqrt((double)p), 1e-5, 0, p, 0); VZ_CHECK(zpl_sqrt(0) == 0, "sqrt0", "sqrt(0)");
        near("hypot", zpl_hypot(a, b), hypot((double)a, (double)b), 5e-7, 1e-30, a, b); near("sin", zpl_sin(a), sin((double)a), 0, 5e-7, a, 0); near("cos", zpl_cos(a), cos((double)a), 0, 5e-7, a, 0);
        if (fabs(cos((double)a)) > 1e-3) near("tan", zpl_tan(a), tan((double)a), 1e-5, 1e-6, a, 0); near("arcsin", zpl_arcsin(u), asin((double)u), 1e-6, 1e-6, u, 0); near("arccos", zpl_arccos(u), acos((double)u), 1e-6, 1e-6, u, 0); near("arctan", zpl_arctan(a), atan((double)a), 1e-6, 1e-6, a, 0);
        near("arctan2", zpl_arctan2(a, b), atan2((double)a, (double)b), 1e-6, 1e-6, a, b); { float z = vz_pct(50) ? 0.0f : -b; near("arctan2", zpl_arctan2(z, u), atan2((double)z, (double)u), 1e-6, 1e-6, z, u); near("arctan2", zpl_arctan2(u, z), atan2((double)u, (double)z), 1e-6, 1e-6, u, z); }
        { float x = (float)((vz_unit() * 2 - 1) * 80); near("exp", zpl_exp(x), exp((double)x), 1e-6, 0, x, 0); x = (float)((vz_unit() * 2 - 1) * 120); if (vz_pct(20)) x = (float)vz_range(-30, 30); near("exp2", zpl_exp2(x), exp2((double)x), 1e-6 + 1.5e-7 * fabs(x), 0, x, 0); }
        near("log", zpl_log(p), log((double)p), 5e-7, 1e-7, p, 0); near("log2", zpl_log2(p), log2((double)p), 5e-7, 2e-7, p, 0); near("fast_exp", zpl_fast_exp(u), exp((double)u), 0, 0.0018, u, 0); near("fast_exp2", zpl_fast_exp2(u), exp2((double)u), 0, 0.0018, u, 0);
        { float base = (float)(vz_unit() * 20 + 0.01), ex = (float)((vz_unit() * 2 - 1) * 10); if (vz_pct(30)) ex = (float)vz_range(-8, 8); near("pow", zpl_pow(base, ex), pow((double)base, (double)ex), 2e-6, 1e-38, base, ex); if (ex == floorf(ex)) near("pow", zpl_pow(-base, ex), pow(-(double)base, (double)ex), 2e-6, 1e-38, -base, ex); }
        vz_stat("function evaluations", 22); vz_distinct(vz_hash(&p, 4, vz_hash(&a, 4, 3)));
    }
}
static void t_angle(void) {
    int q; for (q = 0; q < 40; q++) {
        float a = (float)((vz_unit() * 2 - 1) * (vz_pct(70) ? 10 : 400)), b = (float)((vz_unit() * 2 - 1) * (vz_pct(70) ? 10 : 400)), d; if (vz_pct(20)) a = (float)vz_range(-8, 8) * ZPL_PI / 4; if (vz_pct(20)) b = (float)vz_range(-8, 8) * ZPL_PI / 4;
        near("to_radians", zpl_to_radians(a), (double)a * M_PI / 180, 5e-7, 1e-30, a, 0); near("to_degrees", zpl_to_degrees(a), (double)a * 180 / M_PI, 5e-7, 1e-30, a, 0); near("to_degrees-to_radians", zpl_to_degrees(zpl_to_radians(a)), a, 1e-6, 1e-30, a, 0); near("to_radians-to_degrees", zpl_to_radians(zpl_to_degrees(a)), a, 1e-6, 1e-30, a, 0);
        d = zpl_angle_diff(a, b); { double w = remainder((double)a + d - b, 2 * M_PI), tol = 1e-6 + 4 * (ulp32(a) + ulp32(b)); VZ_CHECK(fabs(w) <= tol + 1e-6 * fabs((double)b - a), "angle-diff", "angle_diff(%.9g, %.9g) gives %.9g", a, b, d); VZ_CHECK(fabsf(d) <= 3.1416f + (float)tol, "angle-range", "angle_diff(%.9g, %.9g) gives %.9g", a, b, d); } vz_stat("angle differences", 1);
        { float t = (float)vz_unit(), l, e; if (vz_pct(20)) t = (float)vz_u(2); l = zpl_lerp(a, b, t); near("lerp", l, (double)a * (1 - (double)t) + (double)b * t, 3e-7, 3e-7 * (fabs(a) + fabs(b)), t, a); if (t == 0) VZ_CHECK(l == a, "lerp0", "lerp at 0"); if (t == 1) VZ_CHECK(l == b, "lerp1", "lerp at 1");
          if (fabsf(a - b) > 0.5f) { float x = a + (b - a) * t; double u = ((double)x - a) / ((double)b - a); near("unlerp", zpl_unlerp(x, a, b), u, 1e-6, 2e-6 * (1 + fabs(a) + fabs(b)), x, a); e = zpl_smooth_step(a, b, x); near("smooth_step", e, u * u * (3 - 2 * u), 1e-5, 1e-5 * (1 + fabs(a) + fabs(b)), x, a); e = zpl_smoother_step(a, b, x); near("smoother_step", e, u * u * u * (u * (6 * u - 15) + 10), 1e-5, 2e-5 * (1 + fabs(a) + fabs(b)), x, a); VZ_CHECK(zpl_smooth_step(a, b, a) == 0 && zpl_smooth_step(a, b, b) == 1 && zpl_smoother_step(a, b, a) == 0 && zpl_smoother_step(a, b, b) == 1, "step-ends", "smooth steps at their ends"); } }
        vz_distinct(vz_hash(&a, 4, vz_hash(&b, 4, 4)));
    }
}
static void t_const(void) {
#define K(c, v) VZ_CHECK((float)(c) == (float)(v), "constant", #c " is %.9g", (double)(c))
    K(ZPL_EPSILON, FLT_EPSILON); K(ZPL_ZERO, 0); K(ZPL_ONE, 1); K(ZPL_TWO_THIRDS, 2.0 / 3); K(ZPL_TAU, 2 * M_PI); K(ZPL_PI, M_PI); K(ZPL_ONE_OVER_TAU, 0.5 / M_PI); K(ZPL_ONE_OVER_PI, 1 / M_PI); K(ZPL_TAU_OVER_2, M_PI); K(ZPL_TAU_OVER_4, M_PI / 2); K(ZPL_TAU_OVER_8, M_PI / 4); K(ZPL_E, M_E); K(ZPL_SQRT_TWO, sqrt(2)); K(ZPL_SQRT_THREE, sqrt(3)); K(ZPL_SQRT_FIVE, sqrt(5)); K(ZPL_LOG_TWO, log(2)); K(ZPL_LOG_TEN, log(10));
    vz_stat("constants", 17); vz_distinct(99);
}
VZ_MAIN({"round", t_round, 5}, {"mod", t_mod, 5}, {"functions", t_fun, 4}, {"angles", t_angle, 4}, {"constants", t_const, 1})
