/* vectors and matrices against double-precision references computed from their definitions */
#include "vz.h"
#include <math.h>
static float gi(void) { return (float)vz_range(-30, 30); }
static float g(void) { switch (vz_u(4)) { case 0: return (float)vz_range(-8, 8); case 1: return gi(); case 2: return (float)((vz_unit() * 2 - 1) * 10); default: return (float)((vz_unit() * 2 - 1) * ldexp(1, (int)vz_range(-6, 10))); } }
static void near_(const char *key, double got, double want, double tol) { VZ_CHECK(fabs(got - want) <= tol, key, "%s: %.9g instead of %.9g", key, got, want); }
#define E6 2e-6
static void cmpv(const char *key, const float *got, const double *want, int n, double scale) { int i; for (i = 0; i < n; i++) VZ_CHECK(fabs(got[i] - want[i]) <= E6 * scale + 1e-30, key, "%s: element %d is %.9g instead of %.9g", key, i, got[i], want[i]); }
static double amax(const float *v, int n) { double m = 0; int i; for (i = 0; i < n; i++) if (fabs(v[i]) > m) m = fabs(v[i]); return m; }
static double ddot(const float *a, const float *b, int n) { double s = 0; int i; for (i = 0; i < n; i++) s += (double)a[i] * b[i]; return s; }
#define VEC(N) \
static void t_vec##N(void) { int q, i; for (q = 0; q < 25; q++) { zpl_vec##N a, b, d, z; double w[4], sc, s; float k, m; \
    for (i = 0; i < N; i++) { a.e[i] = g(); b.e[i] = g(); } do k = g(); while (fabsf(k) < 1e-3f); if (vz_pct(10)) b = a; sc = amax(a.e, N) + amax(b.e, N); \
    for (i = 0; i < N; i++) w[i] = (double)a.e[i] + b.e[i]; zpl_vec##N##_add(&d, a, b); cmpv("vec" #N "_add", d.e, w, N, sc); d = a; zpl_vec##N##_addeq(&d, b); cmpv("vec" #N "_addeq", d.e, w, N, sc); d = b; zpl_vec##N##_add(&d, a, d); cmpv("vec" #N "_add onto itself", d.e, w, N, sc); \
    for (i = 0; i < N; i++) w[i] = (double)a.e[i] - b.e[i]; zpl_vec##N##_sub(&d, a, b); cmpv("vec" #N "_sub", d.e, w, N, sc); d = a; zpl_vec##N##_subeq(&d, b); cmpv("vec" #N "_subeq", d.e, w, N, sc); d = b; zpl_vec##N##_sub(&d, a, d); cmpv("vec" #N "_sub onto itself", d.e, w, N, sc); \
    for (i = 0; i < N; i++) w[i] = (double)a.e[i] * k; zpl_vec##N##_mul(&d, a, k); cmpv("vec" #N "_mul", d.e, w, N, sc * fabs(k)); d = a; zpl_vec##N##_muleq(&d, k); cmpv("vec" #N "_muleq", d.e, w, N, sc * fabs(k)); \
    for (i = 0; i < N; i++) w[i] = (double)a.e[i] / k; zpl_vec##N##_div(&d, a, k); cmpv("vec" #N "_div", d.e, w, N, sc / fabs(k)); d = a; zpl_vec##N##_diveq(&d, k); cmpv("vec" #N "_diveq", d.e, w, N, sc / fabs(k)); \
    near_("vec" #N "_dot", zpl_vec##N##_dot(a, b), ddot(a.e, b.e, N), 4 * E6 * sc * sc); s = ddot(a.e, a.e, N); near_("vec" #N "_mag2", zpl_vec##N##_mag2(a), s, E6 * s); near_("vec" #N "_mag", zpl_vec##N##_mag(a), sqrt(s), E6 * sqrt(s)); \
    if (s > 1e-12) { for (i = 0; i < N; i++) w[i] = a.e[i] / sqrt(s); zpl_vec##N##_norm(&d, a); cmpv("vec" #N "_norm", d.e, w, N, 1); zpl_vec##N##_norm0(&d, a); cmpv("vec" #N "_norm0", d.e, w, N, 1); d = a; zpl_vec##N##_norm(&d, d); cmpv("vec" #N "_norm onto itself", d.e, w, N, 1); d = a; zpl_vec##N##_norm0(&d, d); cmpv("vec" #N "_norm0 onto itself", d.e, w, N, 1); vz_stat("vectors normalised", 1); } \
    if (s > 1e-2 && s < 1e4) { zpl_vec##N ti; float sc = (float)pow(10, vz_unit() * 33 - 16.5); for (i = 0; i < N; i++) { ti.e[i] = a.e[i] * sc; w[i] = a.e[i] / sqrt(s); } zpl_vec##N##_norm(&d, ti); cmpv("vec" #N "_norm of a tiny or huge vector", d.e, w, N, 4); zpl_vec##N##_norm0(&d, ti); cmpv("vec" #N "_norm0 of a tiny or huge vector", d.e, w, N, 4); near_("vec" #N "_mag of a tiny or huge vector", zpl_vec##N##_mag(ti) / sc, sqrt(s), 1e-5 * sqrt(s)); vz_stat("tiny and huge vectors", 1); } \
    z = zpl_vec##N##f_zero(); for (i = 0; i < N; i++) { VZ_CHECK(z.e[i] == 0, "zero", "vec" #N "f_zero gives %g", z.e[i]); w[i] = 0; } d = a; zpl_vec##N##_norm0(&d, z); cmpv("vec" #N "_norm0 of zero", d.e, w, N, 0); \
    d = zpl_vec##N##fv(a.e); VZ_CHECK(!memcmp(&d, &a, sizeof d), "fv", "vec" #N "fv"); m = (float)vz_unit(); if (vz_pct(20)) m = (float)vz_u(2); if (vz_pct(10)) m = m * 4 - 2; \
    for (i = 0; i < N; i++) w[i] = a.e[i] + ((double)b.e[i] - a.e[i]) * m; zpl_vec##N##_lerp(&d, a, b, m); cmpv("vec" #N "_lerp", d.e, w, N, 4 * sc); d = a; zpl_vec##N##_lerp(&d, d, b, m); cmpv("vec" #N "_lerp onto itself", d.e, w, N, 4 * sc); \
    vz_distinct(vz_hash(&a, sizeof a, vz_hash(&b, sizeof b, N))); vz_stat("vector pairs", 1); vz_sample("vectors of dimension %d from %.9g, %.9g and %.9g, %.9g", N, a.x, a.y, b.x, b.y); } }
VEC(2) VEC(3) VEC(4)
static void unit(double *n, int d) { double s; int i; do { for (s = 0, i = 0; i < d; i++) { n[i] = vz_unit() * 2 - 1; s += n[i] * n[i]; } } while (s < 0.05 || s > 1); for (i = 0; i < d; i++) n[i] /= sqrt(s); }
#define BEND(N) \
static void t_bend##N(void) { int q, i; for (q = 0; q < 40; q++) { double u[3], v[3], w[3], dt = 0, k; zpl_vec##N n, in, d; float eta = (float)(0.3 + vz_unit() * 2); unit(u, N); unit(v, N); for (i = 0; i < N; i++) { n.e[i] = (float)u[i]; in.e[i] = (float)v[i]; } if (vz_pct(15)) in = n; if (vz_pct(10)) for (i = 0; i < N; i++) in.e[i] = -n.e[i]; if (vz_pct(10)) eta = 1; \
    dt = ddot(n.e, in.e, N); for (i = 0; i < N; i++) w[i] = in.e[i] - 2 * dt * n.e[i]; zpl_vec##N##_reflect(&d, in, n); cmpv("vec" #N "_reflect", d.e, w, N, 2); d = in; zpl_vec##N##_reflect(&d, d, n); cmpv("vec" #N "_reflect onto itself", d.e, w, N, 2); \
    k = 1 - (double)eta * eta * (1 - dt * dt); if (fabs(k) < 1e-3) continue; for (i = 0; i < N; i++) w[i] = k < 0 ? 0 : eta * in.e[i] - (eta * dt + sqrt(k)) * n.e[i]; zpl_vec##N##_refract(&d, in, n, eta); cmpv("vec" #N "_refract", d.e, w, N, 100); if (k < 0) for (i = 0; i < N; i++) VZ_CHECK(d.e[i] == 0, "refract-total", "refract under total reflection gives %g", d.e[i]); vz_stat(k < 0 ? "total reflections" : "refractions", 1); \
    vz_distinct(vz_hash(&n, sizeof n, vz_hash(&in, sizeof in, 9))); \
    { zpl_vec##N a, b, va, vb; float t = (float)vz_unit(); double sc, T; if (vz_pct(20)) t = (float)vz_u(2); T = t; for (i = 0; i < N; i++) { a.e[i] = g(); b.e[i] = g(); va.e[i] = g(); vb.e[i] = g(); } sc = amax(a.e, N) + amax(b.e, N) + amax(va.e, N) + amax(vb.e, N); \
      for (i = 0; i < N; i++) w[i] = (2 * T * T * T - 3 * T * T + 1) * a.e[i] + (T * T * T - 2 * T * T + T) * va.e[i] + (3 * T * T - 2 * T * T * T) * b.e[i] + (T * T * T - T * T) * vb.e[i]; zpl_vec##N##_cslerp(&d, a, va, b, vb, t); cmpv("vec" #N "_cslerp", d.e, w, N, 2 * sc); \
      for (i = 0; i < N; i++) w[i] = (6 * T * T - 6 * T) * a.e[i] + (3 * T * T - 4 * T + 1) * va.e[i] + (6 * T - 6 * T * T) * b.e[i] + (3 * T * T - 2 * T) * vb.e[i]; zpl_vec##N##_dcslerp(&d, a, va, b, vb, t); cmpv("vec" #N "_dcslerp", d.e, w, N, 8 * sc); } } }
BEND(2) BEND(3)
static void t_misc(void) {
    int q; for (q = 0; q < 40; q++) {
        zpl_vec2 a = zpl_vec2f(g(), g()), b = zpl_vec2f(g(), g()), c = zpl_vec2f(g(), g()); zpl_vec3 u = zpl_vec3f(g(), g(), g()), v = zpl_vec3f(g(), g(), g()), d; zpl_vec4 x; float r; double w[3], sc = amax(u.e, 3) * amax(v.e, 3);
        VZ_CHECK(zpl_vec2_max(a) == (a.x > a.y ? a.x : a.y), "vec2_max", "vec2_max"); VZ_CHECK(zpl_vec3_max(u) == fmaxf(u.x, fmaxf(u.y, u.z)), "vec3_max", "vec3_max(%g, %g, %g)", u.x, u.y, u.z);
        near_("vec2_side", zpl_vec2_side(a, b, c), ((double)b.x - a.x) * ((double)c.y - a.y) - ((double)c.x - a.x) * ((double)b.y - a.y), 8 * E6 * (amax(a.e, 2) + amax(b.e, 2) + amax(c.e, 2)) * (amax(a.e, 2) + amax(b.e, 2) + amax(c.e, 2)));
        r = 7; zpl_vec2_cross(&r, a, b); near_("vec2_cross", r, (double)a.x * b.y - (double)a.y * b.x, 4 * E6 * amax(a.e, 2) * amax(b.e, 2));
        w[0] = (double)u.y * v.z - (double)u.z * v.y; w[1] = (double)u.z * v.x - (double)u.x * v.z; w[2] = (double)u.x * v.y - (double)u.y * v.x; zpl_vec3_cross(&d, u, v); cmpv("vec3_cross", d.e, w, 3, 4 * sc); d = u; zpl_vec3_cross(&d, d, v); cmpv("vec3_cross onto itself", d.e, w, 3, 4 * sc);
        if (a.y < 0.00005f) VZ_CHECK(zpl_vec2_aspect_ratio(a) == 0, "aspect", "aspect ratio of (%g, %g)", a.x, a.y); else if (a.y > 0.0002f) near_("aspect", zpl_vec2_aspect_ratio(a), (double)a.x / a.y, E6 * fabs(a.x / a.y)); x = zpl_vec4f(1, 2, 3, 4); VZ_CHECK(x.x == 1 && x.y == 2 && x.z == 3 && x.w == 4, "vec4f", "vec4f");
        { zpl_plane p; p.a = g(); p.b = g(); p.c = g(); p.d = g(); near_("plane_distance", zpl_plane_distance(&p, u), (double)p.a * u.x + (double)p.b * u.y + (double)p.c * u.z + p.d, 4 * E6 * (amax(p.e, 4) * amax(u.e, 3) + fabs(p.d))); }
        vz_distinct(vz_hash(&a, sizeof a, vz_hash(&u, sizeof u, 5)));
    }
}
/* matrices: column-major references */
static void rmul(int n, const float *a, const float *b, double *o) { int i, j, k; for (j = 0; j < n; j++) for (i = 0; i < n; i++) { double s = 0; for (k = 0; k < n; k++) s += (double)a[k * n + i] * b[j * n + k]; o[j * n + i] = s; } }
static void rvec(int n, const float *a, const float *v, double *o) { int i, k; for (i = 0; i < n; i++) { o[i] = 0; for (k = 0; k < n; k++) o[i] += (double)a[k * n + i] * v[k]; } }
static double rinv(int n, const float *a, double *o) { /* Gauss-Jordan with pivoting in double, returns the determinant */
    double m[4][8], det = 1; int i, j, k; for (i = 0; i < n; i++) for (j = 0; j < n; j++) { m[i][j] = a[j * n + i]; m[i][n + j] = i == j; }
    for (k = 0; k < n; k++) { int p = k; double t; for (i = k + 1; i < n; i++) if (fabs(m[i][k]) > fabs(m[p][k])) p = i; if (fabs(m[p][k]) < 1e-9) return 0; if (p != k) { det = -det; for (j = 0; j < 2 * n; j++) { t = m[k][j]; m[k][j] = m[p][j]; m[p][j] = t; } } t = m[k][k]; det *= t; for (j = 0; j < 2 * n; j++) m[k][j] /= t; for (i = 0; i < n; i++) if (i != k) { t = m[i][k]; for (j = 0; j < 2 * n; j++) m[i][j] -= t * m[k][j]; } }
    for (i = 0; i < n; i++) for (j = 0; j < n; j++) o[j * n + i] = m[i][n + j]; return det;
}
static double dnorm(const double *a, int n) { double m = 0; int i; for (i = 0; i < n; i++) if (fabs(a[i]) > m) m = fabs(a[i]); return m; }
static void gmat(float *m, int n) { int i, f = (int)vz_u(4); for (i = 0; i < n * n; i++) m[i] = f == 0 ? (float)vz_range(-9, 9) : f == 1 ? gi() : f == 2 ? (float)(vz_unit() * 2 - 1) : g(); }
static void unimod(float *m, int n) { int i, j, k, q; for (i = 0; i < n * n; i++) m[i] = i / n == i % n; for (q = 0; q < 6; q++) { i = (int)vz_u((unsigned)n); j = (int)vz_u((unsigned)n); if (i == j) for (k = 0; k < n; k++) m[i * n + k] = -m[i * n + k]; else { float f = (float)vz_range(-2, 2); for (k = 0; k < n; k++) m[i * n + k] += f * m[j * n + k]; } } }
#define TYPE2(N) zpl_float##N
#define MAT(N, NN, SQ) \
static void t_mat##N(void) { int q, i, j; for (q = 0; q < 12; q++) { zpl_mat##N a, b, c, r, ab, s; zpl_vec##N v, o, o2; double w[16], w2[16], sc; \
    gmat(a.e, N); gmat(b.e, N); gmat(c.e, N); for (i = 0; i < N; i++) v.e[i] = g(); \
    sc = N * amax(a.e, SQ) * amax(b.e, SQ); rmul(N, a.e, b.e, w); memset(&r, 0x7f, sizeof r); zpl_mat##N##_mul(&r, &a, &b); cmpv("mat" #N "_mul", r.e, w, SQ, sc); ab = r; r = a; zpl_mat##N##_mul(&r, &r, &b); cmpv("mat" #N "_mul onto the left factor", r.e, w, SQ, sc); r = b; zpl_mat##N##_mul(&r, &a, &r); cmpv("mat" #N "_mul onto the right factor", r.e, w, SQ, sc); rmul(N, a.e, a.e, w2); r = a; zpl_mat##N##_mul(&r, &r, &r); cmpv("mat" #N "_mul squared in place", r.e, w2, SQ, N * amax(a.e, SQ) * amax(a.e, SQ)); \
    memset(&r, 0x7f, sizeof r); zpl_float##NN##_mul(zpl_float##NN##_m(&r), zpl_float##NN##_m(&a), zpl_float##NN##_m(&b)); cmpv("float" #NN "_mul", r.e, w, SQ, sc); r = a; zpl_float##NN##_mul(zpl_float##NN##_m(&r), zpl_float##NN##_m(&r), zpl_float##NN##_m(&b)); cmpv("float" #NN "_mul onto the left factor", r.e, w, SQ, sc); \
    { zpl_mat##N bc, l, m; zpl_mat##N##_mul(&bc, &b, &c); zpl_mat##N##_mul(&l, &ab, &c); zpl_mat##N##_mul(&m, &a, &bc); for (i = 0; i < SQ; i++) VZ_CHECK(fabs((double)l.e[i] - m.e[i]) <= 4 * E6 * N * N * amax(a.e, SQ) * amax(b.e, SQ) * amax(c.e, SQ) + 1e-30, "associative", "mat" #N " product is not associative: %g and %g", l.e[i], m.e[i]); } \
    rvec(N, a.e, v.e, w); sc = N * amax(a.e, SQ) * amax(v.e, N); zpl_mat##N##_mul_vec##N(&o, &a, v); cmpv("mat" #N "_mul_vec" #N, o.e, w, N, sc); zpl_float##NN##_mul_vec##N(&o, zpl_float##NN##_m(&a), v); cmpv("float" #NN "_mul_vec" #N, o.e, w, N, sc); o = v; zpl_mat##N##_mul_vec##N(&o, &a, o); cmpv("mat" #N "_mul_vec" #N " onto itself", o.e, w, N, sc); \
    zpl_mat##N##_mul_vec##N(&o, &b, v); zpl_mat##N##_mul_vec##N(&o, &a, o); zpl_mat##N##_mul_vec##N(&o2, &ab, v); for (i = 0; i < N; i++) VZ_CHECK(fabs((double)o.e[i] - o2.e[i]) <= 4 * E6 * N * N * amax(a.e, SQ) * amax(b.e, SQ) * amax(v.e, N) + 1e-30, "in-turn", "mat" #N " product applied gives %g, factors in turn %g", o2.e[i], o.e[i]); \
    r = a; zpl_mat##N##_transpose(&r); for (i = 0; i < N; i++) for (j = 0; j < N; j++) VZ_CHECK(r.e[i * N + j] == a.e[j * N + i], "transpose", "mat" #N "_transpose (%d, %d)", i, j); s = a; zpl_float##NN##_transpose(zpl_float##NN##_m(&s)); VZ_CHECK(!memcmp(&s, &r, sizeof r), "transpose", "float" #NN "_transpose"); zpl_mat##N##_transpose(&r); VZ_CHECK(!memcmp(&r, &a, sizeof r), "transpose-twice", "mat" #N "_transpose twice"); \
    memset(&r, 0x7f, sizeof r); zpl_mat##N##_identity(&r); memset(&s, 0x7f, sizeof s); zpl_float##NN##_identity(zpl_float##NN##_m(&s)); for (i = 0; i < SQ; i++) VZ_CHECK(r.e[i] == (i / N == i % N) && s.e[i] == r.e[i], "identity", "mat" #N " identity element %d", i); zpl_mat##N##_mul(&s, &a, &r); for (i = 0; i < SQ; i++) VZ_CHECK(s.e[i] == a.e[i], "identity", "mat" #N " times the identity"); \
    { float f[N][N], fl[SQ]; VZ_CHECK((void *)zpl_mat##N##_f(f) == (void *)f && (void *)zpl_mat##N##_v(a.col) == (void *)&a && (void *)zpl_float##NN##_v(a.col) == (void *)&a && (void *)zpl_float##NN##_m(&a) == (void *)&a && (void *)zpl_float##NN##_##SQ(fl) == (void *)fl, "casts", "mat" #N " casts"); } \
    memset(&r, 0x7f, sizeof r); s = a; zpl_mat##N##_copy(&r, &a); VZ_CHECK(!memcmp(&r, &s, sizeof r) && !memcmp(&a, &s, sizeof a), "copy", "mat" #N "_copy"); \
    INV##N \
    { double d, k; if (vz_pct(30)) unimod(a.e, N); d = rinv(N, a.e, w2); k = d == 0 ? 1e9 : amax(a.e, SQ) * dnorm(w2, SQ) * N; if (k < 200) { memset(&r, 0x7f, sizeof r); s = a; zpl_mat##N##_inverse(&r, &a); VZ_CHECK(!memcmp(&s, &a, sizeof s), "inverse-input", "mat" #N "_inverse changed its input"); for (i = 0; i < SQ; i++) VZ_CHECK(fabs(r.e[i] - w2[i]) <= 3e-6 * k * dnorm(w2, SQ), "inverse", "mat" #N "_inverse element %d is %.9g instead of %.9g (condition %.3g)", i, r.e[i], w2[i], k); vz_stat("matrices inverted", 1); } } \
    vz_distinct(vz_hash(&a, sizeof a, vz_hash(&b, sizeof b, 10 + N))); vz_stat("matrix triples", 1); } }
#define DET(N, SQ, F) { double da = rinv(N, a.e, w2), db = rinv(N, b.e, w2), ta = pow(amax(a.e, SQ), N) * F, tb = pow(amax(b.e, SQ), N) * F; near_("mat" #N "_determinate", zpl_mat##N##_determinate(&a), da, 4 * E6 * ta + 1e-8); near_("determinant of a product", zpl_mat##N##_determinate(&ab), da * db, 16 * E6 * ta * tb * F * F + 1e-6); }
#define INV2 DET(2, 4, 2)
#define INV3 DET(3, 9, 6)
#define INV4
MAT(2, 22, 4) MAT(3, 33, 9) MAT(4, 44, 16)
/* transformations */
static void apply(zpl_mat4 *m, double x, double y, double z, double w, double *o) { zpl_vec4 v = zpl_vec4f((float)x, (float)y, (float)z, (float)w), r; int i; zpl_mat4_mul_vec4(&r, m, v); for (i = 0; i < 4; i++) o[i] = r.e[i]; }
static void is4(const char *key, const double *o, double x, double y, double z, double w, double tol) { double e[4]; int i; e[0] = x; e[1] = y; e[2] = z; e[3] = w; for (i = 0; i < 4; i++) VZ_CHECK(fabs(o[i] - e[i]) <= tol, key, "%s: component %d is %.9g instead of %.9g", key, i, o[i], e[i]); }
static void same4(const char *key, zpl_mat4 *a, zpl_mat4 *b, double tol) { int i; for (i = 0; i < 16; i++) VZ_CHECK(fabs((double)a->e[i] - b->e[i]) <= tol, key, "%s: element %d is %.9g instead of %.9g", key, i, a->e[i], b->e[i]); }
static void ndc(const char *key, zpl_mat4 *m, double x, double y, double z, double ex, double ey, double ez, double tol) { double o[4]; int i; apply(m, x, y, z, 1, o); VZ_CHECK(o[3] > 0, key, "%s: w is %g", key, o[3]); for (i = 0; i < 3; i++) o[i] /= o[3]; o[3] = 1; is4(key, o, ex, ey, ez, 1, tol); }
static void t_xform(void) {
    int q; for (q = 0; q < 10; q++) {
        zpl_mat4 m, t, r, k; double o[4], p[3], ax[3], c, s, dt, rot[3]; int i; zpl_vec3 v = zpl_vec3f(g(), g(), g()), axis; float f = g(), ang = (float)((vz_unit() * 2 - 1) * 7), scale; double pm, vm = amax(v.e, 3);
        for (i = 0; i < 3; i++) p[i] = (float)g(); pm = dnorm(p, 3); if (vz_pct(20)) ang = (float)vz_range(-4, 4) * (float)(M_PI / 2);
        memset(&m, 0x7f, sizeof m); zpl_mat4_to_translate(&m, v); apply(&m, p[0], p[1], p[2], 1, o); is4("to_translate of a point", o, p[0] + v.x, p[1] + v.y, p[2] + v.z, 1, E6 * (pm + vm)); apply(&m, p[0], p[1], p[2], 0, o); is4("to_translate of a direction", o, p[0], p[1], p[2], 0, E6 * pm);
        memset(&m, 0x7f, sizeof m); zpl_mat4_to_scale(&m, v); apply(&m, p[0], p[1], p[2], 1, o); is4("to_scale", o, p[0] * v.x, p[1] * v.y, p[2] * v.z, 1, E6 * pm * vm); memset(&m, 0x7f, sizeof m); zpl_mat4_to_scalef(&m, f); apply(&m, p[0], p[1], p[2], 1, o); is4("to_scalef", o, p[0] * f, p[1] * f, p[2] * f, 1, E6 * pm * fabs(f));
        unit(ax, 3); if (vz_pct(20)) { ax[0] = ax[1] = ax[2] = 0; ax[vz_u(3)] = vz_pct(50) ? 1 : -1; } scale = vz_pct(50) ? 1 : (float)(0.01 + vz_unit() * 20); axis = zpl_vec3f((float)ax[0] * scale, (float)ax[1] * scale, (float)ax[2] * scale);
        c = cos((double)ang); s = sin((double)ang); dt = ax[0] * p[0] + ax[1] * p[1] + ax[2] * p[2]; rot[0] = p[0] * c + (ax[1] * p[2] - ax[2] * p[1]) * s + ax[0] * dt * (1 - c); rot[1] = p[1] * c + (ax[2] * p[0] - ax[0] * p[2]) * s + ax[1] * dt * (1 - c); rot[2] = p[2] * c + (ax[0] * p[1] - ax[1] * p[0]) * s + ax[2] * dt * (1 - c);
        memset(&m, 0x7f, sizeof m); zpl_mat4_axis_angle(&m, axis, ang); apply(&m, p[0], p[1], p[2], 1, o); is4("axis_angle", o, rot[0], rot[1], rot[2], 1, 5 * E6 * pm + 1e-9); memset(&k, 0x7f, sizeof k); zpl_mat4_to_rotate(&k, axis, ang); same4("to_rotate", &k, &m, 1e-6);
        gmat(t.e, 4); { double tm = amax(t.e, 16) * 8 * E6; k = t; zpl_mat4_rotate(&k, axis, ang); zpl_mat4_mul(&r, &t, &m); same4("mat4_rotate", &k, &r, tm); k = t; zpl_mat4_translate(&k, v); zpl_mat4_to_translate(&m, v); zpl_mat4_mul(&r, &t, &m); same4("mat4_translate", &k, &r, tm * (1 + vm)); k = t; zpl_mat4_scale(&k, v); zpl_mat4_to_scale(&m, v); zpl_mat4_mul(&r, &t, &m); same4("mat4_scale", &k, &r, tm * (1 + vm)); k = t; zpl_mat4_scalef(&k, f); zpl_mat4_to_scalef(&m, f); zpl_mat4_mul(&r, &t, &m); same4("mat4_scalef", &k, &r, tm * (1 + fabs(f))); }
        vz_stat("transformations", 10);
        { double l = (vz_unit() * 2 - 1) * 50, b = (vz_unit() * 2 - 1) * 50, w = (0.5 + vz_unit()) * 60, h = (0.5 + vz_unit()) * 60, n = vz_unit() * 5 + 0.1, fa = n + 1 + vz_unit() * 100, x = vz_unit(), y = vz_unit(), z = vz_unit(), X, Y; float L, R, B, T, N, F; int vq = (int)vz_u(4); if (vq == 0) { l = rint(l); b = rint(b); w = rint(w); h = rint(h); n = rint(n) + 1; fa = n + 1 + (double)vz_u(100); } else if (vq == 1) { if (vz_pct(50)) w = rint(w) * 2, h = rint(h) * 2; l = -w / 2; b = -h / 2; } else if (vq == 2 && vz_pct(50)) { l = b = 0; } L = (float)l; R = (float)(l + w); B = (float)b; T = (float)(b + h); N = (float)n; F = (float)fa; if (vz_pct(20)) { float sw = T; T = B; B = sw; }
          if (vz_pct(40)) { x = (double)vz_u(2); y = (double)vz_u(2); z = (double)vz_u(2); } X = L + x * ((double)R - L); Y = B + y * ((double)T - B);
          memset(&m, 0x7f, sizeof m); zpl_mat4_ortho2d(&m, L, R, B, T); ndc("ortho2d", &m, X, Y, z, 2 * x - 1, 2 * y - 1, -z, 2e-5); memset(&m, 0x7f, sizeof m); zpl_mat4_ortho2d_dx(&m, L, R, B, T); ndc("ortho2d_dx", &m, X, Y, z, 2 * x - 1, 2 * y - 1, -z, 2e-5);
          memset(&m, 0x7f, sizeof m); zpl_mat4_ortho3d(&m, L, R, B, T, N, F); ndc("ortho3d", &m, X, Y, -(N + z * ((double)F - N)), 2 * x - 1, 2 * y - 1, 2 * z - 1, 5e-5); memset(&m, 0x7f, sizeof m); zpl_mat4_ortho3d_dx(&m, L, R, B, T, N, F); ndc("ortho3d_dx", &m, X, Y, -(N + z * ((double)F - N)), 2 * x - 1, 2 * y - 1, z, 5e-5); }
        { double fov = 0.3 + vz_unit() * 2, asp = 0.4 + vz_unit() * 2, n = 0.1 + vz_unit() * 2, fa = n * (2 + vz_unit() * 50), x = vz_unit() * 2 - 1, y = vz_unit() * 2 - 1, d = n + vz_unit() * (fa - n), t2, X, Y; float FV, A, N, F; if (vz_pct(20)) asp = 1; if (vz_pct(20)) { n = 1 + (double)vz_u(3); fa = n * (2 + (double)vz_u(50)); d = n + vz_unit() * (fa - n); } if (vz_pct(20)) fov = vz_pct(50) ? M_PI / 2 : 1 + (double)vz_u(2); t2 = tan((double)(float)fov / 2); FV = (float)fov; A = (float)asp; N = (float)n; F = (float)fa; n = N; fa = F; if (vz_pct(40)) { d = vz_pct(50) ? n : fa; x = vz_pct(50) ? 1 : -1; y = vz_pct(50) ? 1 : -1; } X = x * d * t2 * A; Y = y * d * t2;
          memset(&m, 0x7f, sizeof m); zpl_mat4_perspective(&m, FV, A, N, F); ndc("perspective", &m, X, Y, -d, x, y, ((fa + n) * d - 2 * fa * n) / ((fa - n) * d), 1e-4); memset(&m, 0x7f, sizeof m); zpl_mat4_perspective_dx(&m, FV, A, N, F); ndc("perspective_dx", &m, X, Y, -d, x, y, (fa * d - fa * n) / ((fa - n) * d), 1e-4);
          memset(&m, 0x7f, sizeof m); zpl_mat4_infinite_perspective(&m, FV, A, N); ndc("infinite_perspective", &m, X, Y, -d, x, y, 1 - 2 * n / d, 1e-4); memset(&m, 0x7f, sizeof m); zpl_mat4_infinite_perspective_dx(&m, FV, A, N); ndc("infinite_perspective_dx", &m, X, Y, -d, x, y, 1 - n / d, 1e-4); vz_stat("projections", 8); }
        { zpl_vec3 eye = zpl_vec3f(g(), g(), g()), cen, up; double dir[3], u[3], dist = 0.5 + vz_unit() * 20, cr, em = amax(eye.e, 3), D = 0, wv[3], sg; int lh; do { unit(dir, 3); unit(u, 3); cr = fabs(dir[0] * u[0] + dir[1] * u[1] + dir[2] * u[2]); } while (cr > 0.95); if (vz_pct(15)) { int ax_ = (int)vz_u(3); dir[0] = dir[1] = dir[2] = 0; dir[ax_] = vz_pct(50) ? 1 : -1; dist = 1 + (double)vz_u(100); } if (vz_pct(20)) { u[0] = u[2] = 0; u[1] = 1; if (fabs(dir[1]) > 0.95) continue; }
          cen = zpl_vec3f(eye.x + (float)(dir[0] * dist), eye.y + (float)(dir[1] * dist), eye.z + (float)(dir[2] * dist)); up = zpl_vec3f((float)u[0] * 3, (float)u[1] * 3, (float)u[2] * 3); for (i = 0; i < 3; i++) D += ((double)cen.e[i] - eye.e[i]) * ((double)cen.e[i] - eye.e[i]); D = sqrt(D); if (D < 0.2) continue; for (i = 0; i < 3; i++) wv[i] = ((double)cen.e[i] - eye.e[i]) / D;
          if (fabs(wv[0] * u[0] + wv[1] * u[1] + wv[2] * u[2]) > 0.97) continue;
          for (lh = 0; lh < 2; lh++) { double tol = 4e-5 * (1 + em + D) * (1 + em / D); zpl_mat4 tr; memset(&m, 0x7f, sizeof m); if (lh) zpl_mat4_look_at_lh(&m, eye, cen, up); else zpl_mat4_look_at(&m, eye, cen, up); sg = lh ? 1 : -1; apply(&m, eye.x, eye.y, eye.z, 1, o); is4(lh ? "look_at_lh eye" : "look_at eye", o, 0, 0, 0, 1, tol); apply(&m, cen.x, cen.y, cen.z, 1, o); is4(lh ? "look_at_lh centre" : "look_at centre", o, 0, 0, sg * D, 1, tol);
            apply(&m, u[0], u[1], u[2], 0, o); VZ_CHECK(fabs(o[0]) < tol && o[1] > 0, "look_at up", "up maps to (%g, %g)", o[0], o[1]); tr = m; tr.col[3] = zpl_vec4f(0, 0, 0, 1); k = tr; zpl_mat4_transpose(&k); zpl_mat4_mul(&r, &tr, &k); zpl_mat4_identity(&k); same4("look_at rigid", &r, &k, 1e-4);
            { zpl_vec3 c0 = tr.col[0].xyz, c1 = tr.col[1].xyz, c2 = tr.col[2].xyz, x; zpl_vec3_cross(&x, c0, c1); near_("look_at orientation", zpl_vec3_dot(x, c2), 1, 1e-4); } vz_stat("view matrices", 1); } }
        vz_distinct(vz_hash(&v, sizeof v, vz_hash(p, sizeof p, 20)));
    }
}
#if defined(__cplusplus)
#define OPSV(N) static void ops_v##N(void) { zpl_vec##N a, b, r; double w[4], sc; float k; int i; for (i = 0; i < N; i++) { a.e[i] = g(); do b.e[i] = g(); while (fabsf(b.e[i]) < 1e-3f); } do k = g(); while (fabsf(k) < 1e-3f); sc = amax(a.e, N) + amax(b.e, N); \
    for (i = 0; i < N; i++) w[i] = (double)a.e[i] + b.e[i]; r = a + b; cmpv("vec" #N " +", r.e, w, N, sc); r = a; r += b; cmpv("vec" #N " +=", r.e, w, N, sc); for (i = 0; i < N; i++) w[i] = (double)a.e[i] - b.e[i]; r = a - b; cmpv("vec" #N " -", r.e, w, N, sc); r = a; r -= b; cmpv("vec" #N " -=", r.e, w, N, sc); \
    for (i = 0; i < N; i++) w[i] = -(double)a.e[i]; r = -a; cmpv("vec" #N " unary -", r.e, w, N, sc); r = +a; VZ_CHECK(r == a && !(r != a), "vec equality", "vec" #N " ==, != or unary +"); for (i = 0; i < N; i++) { r = a; r.e[i] += 1 + fabsf(r.e[i]); VZ_CHECK(r != a && !(r == a), "vec equality", "vec" #N " equal though component %d differs", i); } \
    for (i = 0; i < N; i++) w[i] = (double)a.e[i] * k; r = a * k; cmpv("vec" #N " * scalar", r.e, w, N, sc * fabs(k)); r = k * a; cmpv("scalar * vec" #N, r.e, w, N, sc * fabs(k)); r = a; r *= k; cmpv("vec" #N " *=", r.e, w, N, sc * fabs(k)); for (i = 0; i < N; i++) w[i] = (double)a.e[i] / k; r = a / k; cmpv("vec" #N " / scalar", r.e, w, N, sc / fabs(k)); r = a; r /= k; cmpv("vec" #N " /=", r.e, w, N, sc / fabs(k)); \
    for (i = 0; i < N; i++) w[i] = (double)a.e[i] * b.e[i]; r = a * b; cmpv("vec" #N " * vec", r.e, w, N, sc * sc); r = a / b; for (i = 0; i < N; i++) near_("vec" #N " / vec", r.e[i], (double)a.e[i] / b.e[i], E6 * fabs(a.e[i] / b.e[i])); }
OPSV(2) OPSV(3) OPSV(4)
#define OPSM(N, SQ) static void ops_m##N(void) { zpl_mat##N a, b, r; zpl_vec##N v, u; double w[16], sc; float k; int i; gmat(a.e, N); gmat(b.e, N); for (i = 0; i < N; i++) v.e[i] = g(); do k = g(); while (fabsf(k) < 1e-3f); sc = amax(a.e, SQ) + amax(b.e, SQ); \
    for (i = 0; i < SQ; i++) w[i] = (double)a.e[i] + b.e[i]; r = a + b; cmpv("mat" #N " +", r.e, w, SQ, sc); r = a; r += b; cmpv("mat" #N " +=", r.e, w, SQ, sc); for (i = 0; i < SQ; i++) w[i] = (double)a.e[i] - b.e[i]; r = a - b; cmpv("mat" #N " -", r.e, w, SQ, sc); r = a; r -= b; cmpv("mat" #N " -=", r.e, w, SQ, sc); \
    rmul(N, a.e, b.e, w); r = a * b; cmpv("mat" #N " *", r.e, w, SQ, N * sc * sc); r = a; r *= b; cmpv("mat" #N " *=", r.e, w, SQ, N * sc * sc); rvec(N, a.e, v.e, w); u = a * v; cmpv("mat" #N " * vec", u.e, w, N, N * sc * amax(v.e, N)); \
    for (i = 0; i < SQ; i++) w[i] = (double)a.e[i] * k; r = a * k; cmpv("mat" #N " * scalar", r.e, w, SQ, sc * fabs(k)); r = k * a; cmpv("scalar * mat" #N, r.e, w, SQ, sc * fabs(k)); for (i = 0; i < SQ; i++) w[i] = (double)a.e[i] / k; r = a / k; cmpv("mat" #N " / scalar", r.e, w, SQ, sc / fabs(k)); }
OPSM(2, 4) OPSM(3, 9) OPSM(4, 16)
static void t_ops(void) { int q; for (q = 0; q < 20; q++) { ops_v2(); ops_v3(); ops_v4(); ops_m2(); ops_m3(); ops_m4(); vz_distinct(vz_r()); vz_stat("operator rounds", 1); } }
#endif
#if defined(__cplusplus)
#define OPS , {"operators", t_ops, 8}
#else
#define OPS
#endif
/* every name of a component names the same number */
static void t_names(void) {
    zpl_vec2 a; zpl_vec3 b; zpl_vec4 c; zpl_mat2 m2; zpl_mat3 m3; zpl_mat4 m4; zpl_quat q; zpl_plane p; float e[16]; int i;
    for (i = 0; i < 16; i++) e[i] = (float)(i + 1) + (float)vz_u(100) * 16; a = zpl_vec2f(e[0], e[1]); b = zpl_vec3f(e[0], e[1], e[2]); c = zpl_vec4f(e[0], e[1], e[2], e[3]); q = zpl_quatf(e[0], e[1], e[2], e[3]);
#define NM(t, x, n) VZ_CHECK((x) == e[n], t, t "." #x " is %g instead of %g", (double)(x), (double)e[n])
    NM("names", a.x, 0); NM("names", a.y, 1); NM("names", a.s, 0); NM("names", a.t, 1); NM("names", a.e[0], 0); NM("names", a.e[1], 1);
    NM("names", b.x, 0); NM("names", b.y, 1); NM("names", b.z, 2); NM("names", b.r, 0); NM("names", b.g, 1); NM("names", b.b, 2); NM("names", b.s, 0); NM("names", b.t, 1); NM("names", b.p, 2); NM("names", b.xy.y, 1); NM("names", b.st.x, 0); NM("names", b.e[2], 2);
    NM("names", c.x, 0); NM("names", c.y, 1); NM("names", c.z, 2); NM("names", c.w, 3); NM("names", c.r, 0); NM("names", c.g, 1); NM("names", c.b, 2); NM("names", c.a, 3); NM("names", c.s, 0); NM("names", c.t, 1); NM("names", c.p, 2); NM("names", c.q, 3); NM("names", c.xy.x, 0); NM("names", c.zw.x, 2); NM("names", c.zw.y, 3); NM("names", c.st.y, 1); NM("names", c.pq.x, 2); NM("names", c.pq.y, 3); NM("names", c.xyz.z, 2); NM("names", c.rgb.b, 2);
    NM("names", q.x, 0); NM("names", q.y, 1); NM("names", q.z, 2); NM("names", q.w, 3); NM("names", q.xyzw.w, 3); NM("names", q.xyz.z, 2);
    memcpy(p.e, e, sizeof p.e); NM("names", p.a, 0); NM("names", p.b, 1); NM("names", p.c, 2); NM("names", p.d, 3); NM("names", p.n.x, 0); NM("names", p.n.z, 2); NM("names", p.xyzw.w, 3);
    memcpy(m2.e, e, sizeof m2.e); NM("names", m2.x.x, 0); NM("names", m2.y.x, 2); NM("names", m2.col[1].y, 3); memcpy(m3.e, e, sizeof m3.e); NM("names", m3.x.z, 2); NM("names", m3.y.x, 3); NM("names", m3.z.z, 8); NM("names", m3.col[1].y, 4);
    memcpy(m4.e, e, sizeof m4.e); NM("names", m4.x.w, 3); NM("names", m4.y.x, 4); NM("names", m4.z.y, 9); NM("names", m4.w.w, 15); NM("names", m4.col[3].x, 12); vz_distinct(vz_hash(e, sizeof e, 7));
}
VZ_MAIN({"vec2", t_vec2, 2}, {"names", t_names, 1}, {"vec3", t_vec3, 2}, {"vec4", t_vec4, 2}, {"bend2", t_bend2, 2}, {"bend3", t_bend3, 2}, {"misc", t_misc, 2}, {"mat2", t_mat2, 3}, {"mat3", t_mat3, 4}, {"mat4", t_mat4, 4}, {"xform", t_xform, 5} OPS)
