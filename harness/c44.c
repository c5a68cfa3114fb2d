/* quaternions against double-precision references */
#include "vz.h"
#include <math.h>
typedef struct { double x, y, z, w; } Q;
static Q q_(double x, double y, double z, double w) { Q r; r.x = x; r.y = y; r.z = z; r.w = w; return r; }
static Q qd(zpl_quat q) { return q_(q.x, q.y, q.z, q.w); }
static Q qm(Q a, Q b) { return q_(a.w * b.x + a.x * b.w + a.y * b.z - a.z * b.y, a.w * b.y - a.x * b.z + a.y * b.w + a.z * b.x, a.w * b.z + a.x * b.y - a.y * b.x + a.z * b.w, a.w * b.w - a.x * b.x - a.y * b.y - a.z * b.z); }
static double qdot(Q a, Q b) { return a.x * b.x + a.y * b.y + a.z * b.z + a.w * b.w; }
static double qlen(Q a) { return sqrt(qdot(a, a)); }
static Q qs(Q a, double s) { return q_(a.x * s, a.y * s, a.z * s, a.w * s); }
static Q qadd(Q a, Q b) { return q_(a.x + b.x, a.y + b.y, a.z + b.z, a.w + b.w); }
static Q qconj(Q a) { return q_(-a.x, -a.y, -a.z, a.w); }
static void is(const char *key, zpl_quat g, Q w, double tol) { double d = fabs(g.x - w.x); d = fmax(d, fabs(g.y - w.y)); d = fmax(d, fabs(g.z - w.z)); d = fmax(d, fabs(g.w - w.w)); VZ_CHECK(d <= tol, key, "%s gives (%.7g, %.7g, %.7g, %.7g) instead of (%.7g, %.7g, %.7g, %.7g)", key, g.x, g.y, g.z, g.w, w.x, w.y, w.z, w.w); }
static int same_rot(Q a, Q b, double tol) { return fabs(fabs(qdot(a, b)) - qlen(a) * qlen(b)) <= tol; }
static float g(void) { return vz_pct(30) ? (float)vz_range(-6, 6) : (float)((vz_unit() * 2 - 1) * (vz_pct(50) ? 2 : 20)); }
static zpl_quat any(void) { zpl_quat q; do { q.x = g(); q.y = g(); q.z = g(); q.w = g(); } while (qlen(qd(q)) < 0.05); return q; }
static zpl_quat unitq(void) { zpl_quat q; double l; Q d; if (vz_pct(15)) { memset(&q, 0, sizeof q); q.e[vz_u(4)] = vz_pct(50) ? 1.0f : -1.0f; return q; } do { q.x = (float)(vz_unit() * 2 - 1); q.y = (float)(vz_unit() * 2 - 1); q.z = (float)(vz_unit() * 2 - 1); q.w = (float)(vz_unit() * 2 - 1); if (vz_pct(20)) q.e[vz_u(4)] *= 0.02f; if (vz_pct(10)) q.e[vz_u(4)] = 0; d = qd(q); l = qlen(d); } while (l < 0.2 || l > 1); return zpl_quatf((float)(q.x / l), (float)(q.y / l), (float)(q.z / l), (float)(q.w / l)); }
static void rotd(Q q, const double *v, double *o) { Q r = qm(qm(q, q_(v[0], v[1], v[2], 0)), qconj(q)); double n = qdot(q, q); o[0] = r.x / n; o[1] = r.y / n; o[2] = r.z / n; }
static void t_alg(void) {
    int i; for (i = 0; i < 40; i++) {
        zpl_quat a = any(), b = any(), d, z; Q A, B; float s; double la, lb; if (vz_pct(10)) b = a; do s = g(); while (fabsf(s) < 1e-2f); A = qd(a); B = qd(b); la = qlen(A); lb = qlen(B);
        zpl_quat_add(&d, a, b); is("quat_add", d, qadd(A, B), 2e-6 * (la + lb)); d = a; zpl_quat_addeq(&d, b); is("quat_addeq", d, qadd(A, B), 2e-6 * (la + lb)); zpl_quat_sub(&d, a, b); is("quat_sub", d, qadd(A, qs(B, -1)), 2e-6 * (la + lb)); d = a; zpl_quat_subeq(&d, b); is("quat_subeq", d, qadd(A, qs(B, -1)), 2e-6 * (la + lb));
        zpl_quat_mul(&d, a, b); is("quat_mul", d, qm(A, B), 4e-6 * la * lb); d = a; zpl_quat_muleq(&d, b); is("quat_muleq", d, qm(A, B), 4e-6 * la * lb); d = b; zpl_quat_mul(&d, a, d); is("quat_mul onto the right factor", d, qm(A, B), 4e-6 * la * lb); d = a; zpl_quat_muleq(&d, d); is("quat_muleq by itself", d, qm(A, A), 4e-6 * la * la);
        { Q w = qs(qm(A, qconj(B)), 1 / (lb * lb)); double t = 6e-6 * la / lb; zpl_quat_div(&d, a, b); is("quat_div", d, w, t); d = a; zpl_quat_diveq(&d, b); is("quat_diveq", d, w, t); d = b; zpl_quat_div(&d, a, d); is("quat_div onto the divisor", d, w, t); }
        zpl_quat_mulf(&d, a, s); is("quat_mulf", d, qs(A, s), 2e-6 * la * fabs(s)); d = a; zpl_quat_muleqf(&d, s); is("quat_muleqf", d, qs(A, s), 2e-6 * la * fabs(s)); zpl_quat_divf(&d, a, s); is("quat_divf", d, qs(A, 1 / (double)s), 2e-6 * la / fabs(s)); d = a; zpl_quat_diveqf(&d, s); is("quat_diveqf", d, qs(A, 1 / (double)s), 2e-6 * la / fabs(s));
        VZ_CHECK(fabs(zpl_quat_dot(a, b) - qdot(A, B)) <= 4e-6 * la * lb, "quat_dot", "quat_dot"); VZ_CHECK(fabs(zpl_quat_mag(a) - la) <= 2e-6 * la, "quat_mag", "quat_mag"); zpl_quat_norm(&d, a); is("quat_norm", d, qs(A, 1 / la), 2e-6); d = a; zpl_quat_norm(&d, d); is("quat_norm onto itself", d, qs(A, 1 / la), 2e-6);
        zpl_quat_conj(&d, a); is("quat_conj", d, qconj(A), 0); d = a; zpl_quat_conj(&d, d); is("quat_conj onto itself", d, qconj(A), 0); zpl_quat_inverse(&d, a); is("quat_inverse", d, qs(qconj(A), 1 / (la * la)), 3e-6 / la); d = a; zpl_quat_inverse(&d, d); is("quat_inverse onto itself", d, qs(qconj(A), 1 / (la * la)), 3e-6 / la);
        zpl_quat_inverse(&d, a); zpl_quat_mul(&z, a, d); is("quaternion times its inverse", z, q_(0, 0, 0, 1), 6e-6); is("quat_identity", zpl_quat_identity(), q_(0, 0, 0, 1), 0); is("quatfv", zpl_quatfv(a.e), A, 0); is("quatf", zpl_quatf(1, 2, 3, 4), q_(1, 2, 3, 4), 0);
        { zpl_quat c = any(), l, m; double lc = qlen(qd(c)); zpl_quat_mul(&l, a, b); zpl_quat_mul(&l, l, c); zpl_quat_mul(&m, b, c); zpl_quat_mul(&m, a, m); is("associativity of the product", l, qd(m), 1e-5 * la * lb * lc); }
        vz_stat("quaternion pairs", 1); vz_distinct(vz_hash(&a, sizeof a, vz_hash(&b, sizeof b, 1))); vz_sample("(%g, %g, %g, %g) and (%g, %g, %g, %g)", a.x, a.y, a.z, a.w, b.x, b.y, b.z, b.w);
#if defined(__cplusplus)
        VZ_CHECK(a == a && !(a != a), "==", "quaternion equality"); { int k; for (k = 0; k < 4; k++) { d = a; d.e[k] += 1 + fabsf(d.e[k]); VZ_CHECK(d != a && !(d == a), "==", "quaternions equal though component %d differs", k); } } is("unary +", +a, A, 0); is("unary -", -a, qs(A, -1), 0); is("operator +", a + b, qadd(A, B), 2e-6 * (la + lb)); is("operator -", a - b, qadd(A, qs(B, -1)), 2e-6 * (la + lb)); is("operator *", a * b, qm(A, B), 4e-6 * la * lb); is("operator * scalar", a * s, qs(A, s), 2e-6 * la * fabs(s)); is("scalar operator *", s * a, qs(A, s), 2e-6 * la * fabs(s)); is("operator / scalar", a / s, qs(A, 1 / (double)s), 2e-6 * la / fabs(s));
        d = a; d += b; is("operator +=", d, qadd(A, B), 2e-6 * (la + lb)); d = a; d -= b; is("operator -=", d, qadd(A, qs(B, -1)), 2e-6 * (la + lb)); d = a; d *= b; is("operator *=", d, qm(A, B), 4e-6 * la * lb); d = a; d /= b; is("operator /=", d, qs(qm(A, qconj(B)), 1 / (lb * lb)), 6e-6 * la / lb); d = a; d *= s; is("operator *= scalar", d, qs(A, s), 2e-6 * la * fabs(s)); d = a; d /= s; is("operator /= scalar", d, qs(A, 1 / (double)s), 2e-6 * la / fabs(s));
        { zpl_quat u = unitq(); zpl_vec3 v = zpl_vec3f(1, -2, 3), r = u * v, e; zpl_quat_rotate_vec3(&e, u, v); VZ_CHECK(fabs(r.x - e.x) + fabs(r.y - e.y) + fabs(r.z - e.z) < 1e-5, "rotate operator", "quaternion times vector"); } vz_stat("operator rounds", 1);
#endif
    }
}
static void t_rot(void) {
    int i, k; for (i = 0; i < 30; i++) {
        zpl_quat q = unitq(), r, u, p; zpl_mat4 m, m2, m3; zpl_vec3 v, d; zpl_vec4 h; double vd[3], o[3], s; Q A; for (k = 0; k < 3; k++) { v.e[k] = g(); vd[k] = v.e[k]; } s = fabs(vd[0]) + fabs(vd[1]) + fabs(vd[2]); A = qd(q); rotd(A, vd, o);
        zpl_quat_rotate_vec3(&d, q, v); for (k = 0; k < 3; k++) VZ_CHECK(fabs(d.e[k] - o[k]) <= 6e-6 * s, "rotate_vec3", "rotated component %d is %.7g instead of %.7g", k, d.e[k], o[k]); d = v; zpl_quat_rotate_vec3(&d, q, d); for (k = 0; k < 3; k++) VZ_CHECK(fabs(d.e[k] - o[k]) <= 6e-6 * s, "rotate_vec3-alias", "component %d rotated in place is %.7g instead of %.7g", k, d.e[k], o[k]);
        memset(&m, 0x7f, sizeof m); { float sc = vz_pct(50) ? 1.0f : (float)(0.1 + vz_unit() * 10); zpl_quat_mulf(&u, q, sc); } zpl_mat4_from_quat(&m, u); zpl_mat4_mul_vec4(&h, &m, zpl_vec4f(v.x, v.y, v.z, 1)); for (k = 0; k < 3; k++) VZ_CHECK(fabs(h.e[k] - o[k]) <= 6e-6 * s, "mat4_from_quat", "component %d through the matrix is %.7g instead of %.7g", k, h.e[k], o[k]); VZ_CHECK(h.w == 1, "mat4_from_quat-w", "w is %g", h.w);
        memset(&r, 0x7f, sizeof r); zpl_quat_from_mat4(&r, &m); VZ_CHECK(fabs(qlen(qd(r)) - 1) < 1e-5 && same_rot(qd(r), A, 1e-5), "quat_from_mat4", "(%g, %g, %g, %g) comes back as (%g, %g, %g, %g)", q.x, q.y, q.z, q.w, r.x, r.y, r.z, r.w); { double aw = fabs(A.w), big = fmax(fabs(A.x), fmax(fabs(A.y), fabs(A.z))); vz_stat(big > aw ? "rotations beyond a third" : "smaller rotations", 1); { double e[3]; rotd(qd(r), vd, e); for (k = 0; k < 3; k++) VZ_CHECK(fabs(e[k] - o[k]) <= 2e-5 * s, "quat_from_mat4-rot", "component %d is %.7g instead of %.7g", k, e[k], o[k]); } }
        p = unitq(); zpl_quat_mul(&r, q, p); zpl_mat4_from_quat(&m, r); zpl_mat4_from_quat(&m2, q); zpl_mat4_from_quat(&m3, p); zpl_mat4_mul(&m2, &m2, &m3); for (k = 0; k < 16; k++) VZ_CHECK(fabs((double)m.e[k] - m2.e[k]) <= 8e-6, "compose", "matrix of a product: element %d is %.7g instead of %.7g", k, m.e[k], m2.e[k]);
        { double ax[3], l, ang = (vz_unit() * 2 - 1) * 3.1, c, sn, dt, e[3]; zpl_vec3 axis; float sc = (float)(0.05 + vz_unit() * 9), fa; Q w; do { for (k = 0; k < 3; k++) ax[k] = vz_unit() * 2 - 1; l = sqrt(ax[0] * ax[0] + ax[1] * ax[1] + ax[2] * ax[2]); } while (l < 0.1); if (vz_pct(30)) { ax[0] = ax[1] = ax[2] = 0; ax[vz_u(3)] = l = 1; } for (k = 0; k < 3; k++) ax[k] /= l; if (vz_pct(20)) ang = (double)vz_range(-2, 2) * M_PI / 2; if (vz_pct(10)) ang *= 2; fa = (float)ang; ang = fa; for (k = 0; k < 3; k++) axis.e[k] = (float)(ax[k] * sc);
          r = zpl_quat_axis_angle(axis, fa); w = q_(ax[0] * sin(ang / 2), ax[1] * sin(ang / 2), ax[2] * sin(ang / 2), cos(ang / 2)); is("quat_axis_angle", r, w, 4e-6); c = cos(ang); sn = sin(ang); dt = ax[0] * vd[0] + ax[1] * vd[1] + ax[2] * vd[2]; e[0] = vd[0] * c + (ax[1] * vd[2] - ax[2] * vd[1]) * sn + ax[0] * dt * (1 - c); e[1] = vd[1] * c + (ax[2] * vd[0] - ax[0] * vd[2]) * sn + ax[1] * dt * (1 - c); e[2] = vd[2] * c + (ax[0] * vd[1] - ax[1] * vd[0]) * sn + ax[2] * dt * (1 - c);
          zpl_quat_rotate_vec3(&d, r, v); for (k = 0; k < 3; k++) VZ_CHECK(fabs(d.e[k] - e[k]) <= 1e-5 * s, "axis-angle-rotation", "component %d is %.7g instead of %.7g", k, d.e[k], e[k]); zpl_mat4_from_quat(&m, r); zpl_mat4_axis_angle(&m2, axis, fa); for (k = 0; k < 16; k++) VZ_CHECK(fabs((double)m.e[k] - m2.e[k]) <= 1e-5, "axis-angle-matrix", "element %d is %.7g and %.7g", k, m.e[k], m2.e[k]);
          zpl_quat_mulf(&u, r, vz_pct(50) ? 1.0f : sc); { double w2 = 2 * acos(fmin(1, fmax(-1, w.w))), got = zpl_quat_angle(u); VZ_CHECK(fabs(cos(got / 2) - cos(w2 / 2)) <= 1e-6 && got >= 0 && got <= 6.2832, "quat_angle", "angle %.7g instead of %.7g", got, w2); if (fabs(sin(ang / 2)) > 0.15) { zpl_vec3 x; double sg = ang < 0 ? -1 : 1; if (sin(ang / 2) * sg < 0) sg = -sg; VZ_CHECK(fabs(got - w2) < 2e-5, "quat_angle", "angle %.7g instead of %.7g", got, w2); zpl_quat_axis(&x, u); for (k = 0; k < 3; k++) VZ_CHECK(fabs(x.e[k] - sg * ax[k]) <= 1e-4, "quat_axis", "axis component %d is %.7g instead of %.7g", k, x.e[k], sg * ax[k]); r = zpl_quat_axis_angle(x, (float)got); VZ_CHECK(same_rot(qd(r), w, 1e-5), "axis-angle round trip", "axis and angle of a quaternion make another rotation"); vz_stat("axes and angles read back", 1); } } }
        { float pi_ = zpl_quat_angle(zpl_quatf(0, 0, 0, vz_pct(50) ? 1.0f : (float)(0.1 + vz_unit() * 20))); VZ_CHECK(fabs(pi_) < 1e-3, "identity-angle", "angle of an identity is %g", pi_); }
        vz_stat("rotations", 1); vz_distinct(vz_hash(&q, sizeof q, vz_hash(&v, sizeof v, 2)));
    }
}
static double wrap(double a) { return remainder(a, 2 * M_PI); }
static void t_euler(void) {
    int i, k; for (i = 0; i < 40; i++) {
        float pitch = (float)((vz_unit() * 2 - 1) * 3.1), yaw = (float)((vz_unit() * 2 - 1) * 1.5), roll = (float)((vz_unit() * 2 - 1) * 3.1); zpl_quat q; Q w, P, Y, R, G; double v[3], o[3], e[3]; float a, b, c; int f = (int)vz_u(7);
        if (vz_pct(10)) yaw = (float)(M_PI / 2) * (vz_pct(50) ? 1 : -1); if (f == 6) { roll = 0; yaw *= 0.95f; } if (f < 3) { if (f != 0) pitch = 0; if (f != 1) yaw = 0; if (f != 2) roll = 0; }
        P = q_(sin((double)pitch / 2), 0, 0, cos((double)pitch / 2)); Y = q_(0, sin((double)yaw / 2), 0, cos((double)yaw / 2)); R = q_(0, 0, sin((double)roll / 2), cos((double)roll / 2)); w = qm(qm(Y, P), R); q = zpl_quat_euler_angles(pitch, yaw, roll); is("quat_euler_angles", q, w, 4e-6); (void)v; (void)o; (void)e; (void)k;
        a = zpl_quat_pitch(q); b = zpl_quat_yaw(q); c = zpl_quat_roll(q); VZ_CHECK(a == a && b == b && c == c, "euler-nan", "angles of a quaternion are %g, %g, %g", a, b, c);
        /* the getters must describe this rotation: the same rotation as roll after yaw after pitch */
        P = q_(sin((double)a / 2), 0, 0, cos((double)a / 2)); Y = q_(0, sin((double)b / 2), 0, cos((double)b / 2)); R = q_(0, 0, sin((double)c / 2), cos((double)c / 2)); G = qm(qm(R, Y), P);
        if (fabs(sin((double)zpl_quat_yaw(q))) < 0.999) { VZ_CHECK(same_rot(G, w, 2e-5), "euler-getters", "pitch, yaw and roll of a quaternion (%.6g, %.6g, %.6g) make another rotation than (%.6g, %.6g, %.6g)", a, b, c, pitch, yaw, roll); vz_stat("angles read back", 1); }
        if (f < 3) { VZ_CHECK((f == 1 ? fabs(b - yaw) : f == 0 ? fabs(wrap((double)a - pitch)) : fabs(wrap((double)c - roll))) < (f == 1 && fabs(yaw) > 1.4 ? 2e-3 : 1e-4), "euler-single", "single angle (%.6g, %.6g, %.6g) reads back as (%.6g, %.6g, %.6g)", pitch, yaw, roll, a, b, c); vz_stat("single angles", 1); }
        else if (f == 6) { if (fabs(sin((double)yaw)) < 0.999) { VZ_CHECK(fabs(wrap((double)a - pitch)) < 1e-4 && fabs(b - yaw) < 1e-3 && fabs(wrap((double)c)) < 1e-4, "euler-pair", "pitch and yaw (%.6g, %.6g) read back as (%.6g, %.6g, %.6g)", pitch, yaw, a, b, c); vz_stat("pitch and yaw pairs", 1); } }
        else if (fabs(sin((double)yaw)) < 0.99 && fabs(pitch) < 1.5 && fabs(sin((double)pitch) * sin((double)roll) * sin((double)yaw)) > 0.05) {
            int ok = fabs(wrap((double)a - pitch)) < 1e-3 && fabs(b - yaw) < 1e-3 && fabs(wrap((double)c - roll)) < 1e-3; vz_stat("angle triples", 1);
            VZ_CHECK(ok || !same_rot(G, w, 2e-5), "euler-mixed", "angles of which all three differ from zero, as (%.6g, %.6g, %.6g), read back as those of the opposite order of rotations", pitch, yaw, roll); }
        vz_distinct(vz_hash(&q, sizeof q, 3));
    }
}
static Q slerp(Q a, Q b, double t) { double c = qdot(a, b), an, s; if (c < 0) { b = qs(b, -1); c = -c; } if (c > 1) c = 1; an = acos(c); s = sin(an); if (s < 1e-6) return qadd(qs(a, 1 - t), qs(b, t)); return qadd(qs(a, sin((1 - t) * an) / s), qs(b, sin(t * an) / s)); }
static Q nl(Q a, Q b, double t) { Q r = qadd(qs(a, 1 - t), qs(b, t)); return qs(r, 1 / qlen(r)); }
static Q sa(Q a, Q b, double t) { return nl(a, b, t + (1 - qdot(a, b)) / 3 * t * (-2 * t * t + 3 * t - 1)); }
static void t_interp(void) {
    int i; for (i = 0; i < 40; i++) {
        zpl_quat a = unitq(), b = unitq(), c = unitq(), e = unitq(), d; Q A, B, C, E; float t = (float)vz_unit(); double T, dt; if (vz_pct(20)) t = (float)vz_u(2); T = t;
        if (vz_pct(15)) { b = a; vz_stat("identical endpoints", 1); } else if (vz_pct(15)) { b = zpl_quatf(-a.x, -a.y, -a.z, -a.w); vz_stat("opposite endpoints", 1); } else if (vz_pct(15)) { double l; b = zpl_quatf(a.x + (float)(vz_unit() - 0.5) * 0.01f, a.y + (float)(vz_unit() - 0.5) * 0.01f, a.z, a.w); l = qlen(qd(b)); b = zpl_quatf((float)(b.x / l), (float)(b.y / l), (float)(b.z / l), (float)(b.w / l)); }
        A = qd(a); B = qd(b); C = qd(c); E = qd(e); dt = qdot(A, B);
        zpl_quat_slerp(&d, a, b, t); VZ_CHECK(fabs(qlen(qd(d)) - 1) < 1e-4, "slerp-unit", "slerp gives a quaternion of length %g", qlen(qd(d))); if (fabs(dt) > 1e-4) is("quat_slerp", d, slerp(A, B, T), 2e-4); if (t == 0) is("quat_slerp at 0", d, A, 1e-5); if (t == 1) VZ_CHECK(same_rot(qd(d), B, 1e-5), "slerp-1", "slerp at 1 is another rotation");
        { double an = acos(fmin(1, fabs(dt))), da = acos(fmin(1, fabs(qdot(qd(d), A)))), db = acos(fmin(1, fabs(qdot(qd(d), B)))); VZ_CHECK(da <= an + 2e-3 && db <= an + 2e-3 && fabs(da - T * an) < 3e-3 && fabs(db - (1 - T) * an) < 3e-3, "slerp-arc", "slerp at %g is %g and %g away from endpoints %g apart", T, da, db, an); } vz_stat(dt < 0 ? "arcs turned around" : "arcs", 1);
        { zpl_quat x = a; zpl_quat_slerp(&x, x, b, t); if (fabs(dt) > 1e-4) is("quat_slerp onto itself", x, slerp(A, B, T), 2e-4); }
        zpl_quat_lerp(&d, a, b, t); is("quat_lerp", d, qadd(qs(A, 1 - T), qs(B, T)), 4e-6); if (qlen(qadd(qs(A, 1 - T), qs(B, T))) > 0.05) { zpl_quat_nlerp(&d, a, b, t); is("quat_nlerp", d, nl(A, B, T), 1e-4); }
        if (dt > -0.9) { zpl_quat_slerp_approx(&d, a, b, t); is("quat_slerp_approx", d, sa(A, B, T), 1e-4); if (dt > 0.7) is("quat_slerp_approx against slerp", d, slerp(A, B, T), 0.02); }
        { Q x = slerp(A, B, T), y = slerp(C, E, T); if (fabs(dt) > 1e-3 && fabs(qdot(C, E)) > 1e-3 && fabs(qdot(x, y)) > 1e-2) { zpl_quat_squad(&d, a, c, e, b, t); is("quat_squad", d, slerp(x, y, 2 * T * (1 - T)), 2e-3); vz_stat("squads", 1); } }
        { Q x = qadd(qs(A, 1 - T), qs(B, T)), y = qadd(qs(C, 1 - T), qs(E, T)); if (qlen(x) > 0.1 && qlen(y) > 0.1) { double h = 2 * T * (1 - T); x = qs(x, 1 / qlen(x)); y = qs(y, 1 / qlen(y)); if (qlen(qadd(qs(x, 1 - h), qs(y, h))) > 0.1) { zpl_quat_nquad(&d, a, c, e, b, t); is("quat_nquad", d, nl(x, y, h), 1e-3); } }
          if (dt > -0.7 && qdot(C, E) > -0.7) { x = sa(A, B, T); y = sa(C, E, T); if (qdot(x, y) > -0.7) { zpl_quat_squad_approx(&d, a, c, e, b, t); is("quat_squad_approx", d, sa(x, y, 2 * T * (1 - T)), 1e-3); } } }
        vz_distinct(vz_hash(&a, sizeof a, vz_hash(&b, sizeof b, 4)));
    }
}
VZ_MAIN({"algebra", t_alg, 4}, {"rotation", t_rot, 4}, {"euler", t_euler, 3}, {"interpolation", t_interp, 4})
