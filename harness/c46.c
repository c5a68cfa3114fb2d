/* rectangles, boxes and frusta against the point sets they denote */
#include "vz.h"
#include <math.h>
static float grid(void) { return (float)vz_range(-24, 24) * 0.25f; }
static float around(float a) { switch (vz_u(6)) { case 0: return a; case 1: return nextafterf(a, INFINITY); case 2: return nextafterf(a, -INFINITY); case 3: return a + 0.25f; case 4: return a - 0.25f; default: return grid(); } }
static int in1(float v, float p, float d) { float lo = d < 0 ? p + d : p, hi = d < 0 ? p : p + d; return v >= lo && v < hi; }
static int inr(zpl_rect2 r, float x, float y) { return in1(x, r.pos.x, r.dim.x) && in1(y, r.pos.y, r.dim.y); }
static int inb(zpl_aabb2 b, float x, float y) { return x >= b.min.x && x < b.max.x && y >= b.min.y && y < b.max.y; }
static int eqb(zpl_aabb2 b, float x0, float y0, float x1, float y1) { return b.min.x == x0 && b.min.y == y0 && b.max.x == x1 && b.max.y == y1; }
static float pick(zpl_rect2 r, int y) { float p = y ? r.pos.y : r.pos.x, d = y ? r.dim.y : r.dim.x; return around(vz_pct(50) ? p : p + d); }
static zpl_rect2 grect(void) { zpl_rect2 r = zpl_rect2f(zpl_vec2f(grid(), grid()), zpl_vec2f(grid(), grid())); if (vz_pct(60)) { r.dim.x = fabsf(r.dim.x); r.dim.y = fabsf(r.dim.y); } if (vz_pct(10)) r.dim.x = 0; if (vz_pct(10)) r.dim.y = 0; return r; }
static void t_rect(void) {
    int q, i; for (q = 0; q < 40; q++) {
        zpl_rect2 a = grect(), b = grect(), r; int hit, any = 0; if (vz_pct(15)) b = a; if (vz_pct(15)) { b.pos.x = a.pos.x + a.dim.x; vz_stat("touching rectangles", 1); } if (vz_pct(15)) b.pos.y = a.pos.y + a.dim.y;
        for (i = 0; i < 12; i++) { float x = pick(a, 0), y = pick(a, 1); int c = zpl_rect2_contains(a, x, y), d = zpl_rect2_contains_vec2(a, zpl_vec2f(x, y)); VZ_CHECK(!c == !inr(a, x, y) && !d == !c, "rect-contains", "rectangle at (%g, %g) of (%g, %g) and point (%.9g, %.9g): %d", a.pos.x, a.pos.y, a.dim.x, a.dim.y, x, y, c); vz_stat(c ? "points inside" : "points outside", 1); }
        memset(&r, 0x7f, sizeof r); hit = zpl_rect2_intersection_result(a, b, &r); VZ_CHECK(!hit == !zpl_rect2_intersects(a, b) && !hit == !zpl_rect2_intersects(b, a), "intersects", "rect2_intersects and rect2_intersection_result disagree");
        for (i = 0; i < 16; i++) { float x = vz_pct(50) ? pick(a, 0) : pick(b, 0), y = vz_pct(50) ? pick(a, 1) : pick(b, 1); int both = inr(a, x, y) && inr(b, x, y); any |= both; VZ_CHECK(both == (hit && inr(r, x, y)), "intersection", "(%g, %g | %g, %g) and (%g, %g | %g, %g) intersect (%d) in (%g, %g | %g, %g) but (%.9g, %.9g) is%s in both", a.pos.x, a.pos.y, a.dim.x, a.dim.y, b.pos.x, b.pos.y, b.dim.x, b.dim.y, hit, r.pos.x, r.pos.y, r.dim.x, r.dim.y, x, y, both ? "" : " not"); }
        { float ax0 = fminf(a.pos.x, a.pos.x + a.dim.x), ax1 = fmaxf(a.pos.x, a.pos.x + a.dim.x), ay0 = fminf(a.pos.y, a.pos.y + a.dim.y), ay1 = fmaxf(a.pos.y, a.pos.y + a.dim.y), bx0 = fminf(b.pos.x, b.pos.x + b.dim.x), bx1 = fmaxf(b.pos.x, b.pos.x + b.dim.x), by0 = fminf(b.pos.y, b.pos.y + b.dim.y), by1 = fmaxf(b.pos.y, b.pos.y + b.dim.y), x0 = fmaxf(ax0, bx0), x1 = fminf(ax1, bx1), y0 = fmaxf(ay0, by0), y1 = fminf(ay1, by1);
          if (x0 < x1 && y0 < y1) { VZ_CHECK(hit && r.pos.x == x0 && r.pos.y == y0 && r.pos.x + r.dim.x == x1 && r.pos.y + r.dim.y == y1, "common", "common region is (%g, %g | %g, %g), answer %d", r.pos.x, r.pos.y, r.dim.x, r.dim.y, hit); vz_stat("intersections", 1); } else { VZ_CHECK(!hit && r.pos.x == 0 && r.pos.y == 0 && r.dim.x == 0 && r.dim.y == 0, "apart", "rectangles without a common region: answer %d, result (%g, %g | %g, %g)", hit, r.pos.x, r.pos.y, r.dim.x, r.dim.y); vz_stat("rectangles apart", 1); } }
        { zpl_aabb2 bb = zpl_aabb2_rect2(a); zpl_rect2 back; VZ_CHECK(eqb(bb, a.pos.x, a.pos.y, a.pos.x + a.dim.x, a.pos.y + a.dim.y), "aabb2_rect2", "aabb2_rect2"); back = zpl_rect2_aabb2(bb); VZ_CHECK(!memcmp(&back.pos, &a.pos, sizeof a.pos) && back.dim.x == a.dim.x && back.dim.y == a.dim.y, "rect2_aabb2", "rect2_aabb2"); }
        { zpl_rect3 c, back; zpl_aabb3 bb; zpl_vec3 rp = zpl_vec3f(grid(), grid(), grid()), rd = zpl_vec3f(grid(), grid(), grid()); c = zpl_rect3f(rp, rd); for (i = 0; i < 3; i++) VZ_CHECK(c.pos.e[i] == rp.e[i] && c.dim.e[i] == rd.e[i], "rect3f", "rect3f, component %d", i); bb = zpl_aabb3_rect3(c); back = zpl_rect3_aabb3(bb); for (i = 0; i < 3; i++) VZ_CHECK(bb.min.e[i] == c.pos.e[i] && bb.max.e[i] == c.pos.e[i] + c.dim.e[i] && back.pos.e[i] == c.pos.e[i] && back.dim.e[i] == c.dim.e[i], "aabb3_rect3", "conversion of a 3D rectangle, component %d", i); }
        vz_distinct(vz_hash(&a, sizeof a, vz_hash(&b, sizeof b, 1))); vz_sample("rectangles (%g, %g | %g, %g) and (%g, %g | %g, %g)", a.pos.x, a.pos.y, a.dim.x, a.dim.y, b.pos.x, b.pos.y, b.dim.x, b.dim.y);
    }
}
static void t_box(void) {
    int q, i; for (q = 0; q < 40; q++) {
        float x0 = grid(), y0 = grid(), w = fabsf(grid()), h = fabsf(grid()), k; zpl_aabb2 a, p, c, g, o; zpl_aabb3 t; float x1 = x0 + w, y1 = y0 + h; a = zpl_aabb2f(x0, y0, x1, y1); VZ_CHECK(eqb(a, x0, y0, x1, y1), "aabb2f", "aabb2f"); if (vz_pct(8)) { w = 0; x1 = x0; a = zpl_aabb2f(x0, y0, x1, y1); }
        for (i = 0; i < 10; i++) { float x = around(vz_pct(50) ? x0 : x1), y = around(vz_pct(50) ? y0 : y1); VZ_CHECK(!zpl_aabb2_contains(a, x, y) == !inb(a, x, y), "aabb2-contains", "box (%g, %g)-(%g, %g) and point (%.9g, %.9g)", x0, y0, x1, y1, x, y); }
        { float q6[6]; int z; for (z = 0; z < 6; z++) q6[z] = grid(); t = zpl_aabb3f(q6[0], q6[1], q6[2], q6[3], q6[4], q6[5]); for (z = 0; z < 3; z++) VZ_CHECK(t.min.e[z] == q6[z] && t.max.e[z] == q6[3 + z], "aabb3f", "aabb3f puts component %d elsewhere", z); } for (i = 0; i < 10; i++) { float v[3]; int j, in = 1; for (j = 0; j < 3; j++) { v[j] = around(vz_pct(50) ? t.min.e[j] : t.max.e[j]); if (vz_pct(40)) v[j] = (t.min.e[j] + t.max.e[j]) / 2; in &= v[j] >= t.min.e[j] && v[j] < t.max.e[j]; } VZ_CHECK(!zpl_aabb3_contains(t, v[0], v[1], v[2]) == !in, "aabb3-contains", "box (%g, %g, %g)-(%g, %g, %g) and point (%.9g, %.9g, %.9g)", t.min.x, t.min.y, t.min.z, t.max.x, t.max.y, t.max.z, v[0], v[1], v[2]); vz_stat(in ? "points in 3D boxes" : "points out of 3D boxes", 1); }
        k = vz_pct(25) ? w : vz_pct(25) ? h : (float)vz_range(0, 60) * 0.25f;
        { int side; for (side = 0; side < 4; side++) { float cw = fminf(k, w), ch = fminf(k, h); float e[4]; /* the piece cut off */ static const char *nm[] = { "left", "right", "top", "bottom" }; e[0] = x0; e[1] = y0; e[2] = x1; e[3] = y1; if (side == 0) e[2] = x0 + cw; if (side == 1) e[0] = x1 - cw; if (side == 2) e[3] = y0 + ch; if (side == 3) e[1] = y1 - ch;
            c = a; p = side == 0 ? zpl_aabb2_cut_left(&c, k) : side == 1 ? zpl_aabb2_cut_right(&c, k) : side == 2 ? zpl_aabb2_cut_top(&c, k) : zpl_aabb2_cut_bottom(&c, k); VZ_CHECK(eqb(p, e[0], e[1], e[2], e[3]), "cut-piece", "cut_%s by %g of (%g, %g)-(%g, %g) gives (%g, %g)-(%g, %g)", nm[side], k, x0, y0, x1, y1, p.min.x, p.min.y, p.max.x, p.max.y);
            for (i = 0; i < 8; i++) { float x = around(vz_pct(50) ? e[0] : e[2]), y = around(vz_pct(50) ? e[1] : e[3]); int n = inb(p, x, y) + inb(c, x, y); VZ_CHECK(n == inb(a, x, y), "cut-partition", "cut_%s by %g: (%.9g, %.9g) is in %d pieces", nm[side], k, x, y, n); }
            VZ_CHECK(c.min.x <= c.max.x && c.min.y <= c.max.y && c.min.x >= x0 && c.max.x <= x1 && c.min.y >= y0 && c.max.y <= y1, "cut-rest", "cut_%s leaves (%g, %g)-(%g, %g)", nm[side], c.min.x, c.min.y, c.max.x, c.max.y);
            o = a; g = side == 0 ? zpl_aabb2_get_left(&o, k) : side == 1 ? zpl_aabb2_get_right(&o, k) : side == 2 ? zpl_aabb2_get_top(&o, k) : zpl_aabb2_get_bottom(&o, k); VZ_CHECK(!memcmp(&o, &a, sizeof a) && eqb(g, e[0], e[1], e[2], e[3]), "get", "get_%s by %g of (%g, %g)-(%g, %g) gives (%g, %g)-(%g, %g)", nm[side], k, x0, y0, x1, y1, g.min.x, g.min.y, g.max.x, g.max.y);
            g = side == 0 ? zpl_aabb2_add_left(&o, k) : side == 1 ? zpl_aabb2_add_right(&o, k) : side == 2 ? zpl_aabb2_add_top(&o, k) : zpl_aabb2_add_bottom(&o, k); e[0] = x0; e[1] = y0; e[2] = x1; e[3] = y1; if (side == 0) { e[0] = x0 - k; e[2] = x0; } if (side == 1) { e[0] = x1; e[2] = x1 + k; } if (side == 2) { e[1] = y0 - k; e[3] = y0; } if (side == 3) { e[1] = y1; e[3] = y1 + k; } VZ_CHECK(!memcmp(&o, &a, sizeof a) && eqb(g, e[0], e[1], e[2], e[3]), "add", "add_%s by %g of (%g, %g)-(%g, %g) gives (%g, %g)-(%g, %g)", nm[side], k, x0, y0, x1, y1, g.min.x, g.min.y, g.max.x, g.max.y);
            vz_stat(k > w || k > h ? "cuts beyond the box" : "cuts", 1); } }
        { float m = vz_pct(20) ? w / 2 : vz_pct(20) ? h / 2 : (float)vz_range(0, 40) * 0.125f; c = zpl_aabb2_contract(&a, m); if (2 * m <= w && 2 * m <= h) { VZ_CHECK(eqb(c, x0 + m, y0 + m, x1 - m, y1 - m), "contract", "(%g, %g)-(%g, %g) contracted by %g is (%g, %g)-(%g, %g)", x0, y0, x1, y1, m, c.min.x, c.min.y, c.max.x, c.max.y); vz_stat("contractions", 1); } else { VZ_CHECK(eqb(c, 0, 0, 0, 0), "contract-away", "contracted away: (%g, %g)-(%g, %g)", c.min.x, c.min.y, c.max.x, c.max.y); vz_stat("boxes contracted away", 1); }
          c = zpl_aabb2_expand(&a, m); VZ_CHECK(eqb(c, x0 - m, y0 - m, x1 + m, y1 + m), "expand", "(%g, %g)-(%g, %g) expanded by %g is (%g, %g)-(%g, %g)", x0, y0, x1, y1, m, c.min.x, c.min.y, c.max.x, c.max.y); c = zpl_aabb2_contract(&c, m); VZ_CHECK(eqb(c, x0, y0, x1, y1), "expand-contract", "expanding and contracting by %g", m); VZ_CHECK(!memcmp(&o, &a, sizeof a), "const", "input changed"); }
        vz_distinct(vz_hash(&a, sizeof a, vz_hash(&k, 4, 2)));
    }
}
typedef struct { double n[3], d; } PL;
static double pd(const PL *p, const double *v) { return p->n[0] * v[0] + p->n[1] * v[1] + p->n[2] * v[2] + p->d; }
static double rf(double a, double b) { return a + vz_unit() * (b - a); }
static void t_frustum(void) {
    zpl_mat4 cam, proj; zpl_frustum f; PL pl[6]; double pv[16], n, fa, scale; int i, j, k, persp = vz_pct(70), rolled = vz_pct(60), steep; zpl_vec3 eye = zpl_vec3f((float)rf(-20, 20), (float)rf(-20, 20), (float)rf(-20, 20)), cen, up = zpl_vec3f(0, 1, 0); const zpl_plane *fp[6]; zpl_mat4 cs, ps;
    do { cen = zpl_vec3f(eye.x + (float)rf(-10, 10), eye.y + (float)rf(-4, 4), eye.z + (float)rf(-10, 10)); if (rolled) up = zpl_vec3f((float)rf(-1, 1), (float)rf(-1, 1), (float)rf(-1, 1)); { zpl_vec3 d, c; zpl_vec3_sub(&d, cen, eye); zpl_vec3_cross(&c, d, up); steep = zpl_vec3_mag(c) < 0.3f * zpl_vec3_mag(d) * zpl_vec3_mag(up) || zpl_vec3_mag(up) < 0.2f || zpl_vec3_mag(d) < 2; } } while (steep); if (rolled) vz_stat("rolled cameras", 1); zpl_mat4_look_at(&cam, eye, cen, up); if (vz_pct(20)) { zpl_mat4_identity(&cam); vz_stat("cameras at the origin", 1); }
    n = rf(0.1, 3); fa = n * rf(2, 40); if (persp) zpl_mat4_perspective(&proj, (float)rf(0.4, 2.2), (float)rf(0.5, 2.2), (float)n, (float)fa); else { float l = (float)rf(-12, 4), b = (float)rf(-12, 4), w_ = (float)rf(2, 20), h_ = (float)rf(2, 20); if (vz_pct(20)) { l = -w_ / 2; b = -h_ / 2; } else if (vz_pct(10)) l = b = 0; zpl_mat4_ortho3d(&proj, l, l + w_, b, b + h_, (float)n, (float)fa); } if (vz_pct(10)) { zpl_mat4_infinite_perspective(&proj, (float)rf(0.4, 2.2), 1.5f, (float)n); persp = 2; fa = n * 30; }
    cs = cam; ps = proj; memset(&f, 0x7f, sizeof f); zpl_frustum_create(&f, &cam, &proj); VZ_CHECK(!memcmp(&cs, &cam, sizeof cs) && !memcmp(&ps, &proj, sizeof ps), "create-input", "frustum_create changed a matrix");
    for (j = 0; j < 4; j++) for (i = 0; i < 4; i++) { double s = 0; for (k = 0; k < 4; k++) s += (double)proj.e[k * 4 + i] * cam.e[j * 4 + k]; pv[j * 4 + i] = s; }
    for (k = 0; k < 6; k++) { double e[4], l = 0; for (j = 0; j < 4; j++) { e[j] = pv[j * 4 + 3] + (k & 1 ? -1 : 1) * pv[j * 4 + k / 2]; if (j < 3) l += e[j] * e[j]; } l = sqrt(l); if (persp == 2 && k == 5) l = 0; for (j = 0; j < 3; j++) pl[k].n[j] = l > 0 ? e[j] / l : 0; pl[k].d = l > 0 ? e[3] / l : 1e9; }
    scale = fa + fabs(eye.x) + fabs(eye.y) + fabs(eye.z) + 1;
    fp[0] = &f.x1; fp[1] = &f.x2; fp[2] = &f.y1; fp[3] = &f.y2; fp[4] = &f.z1; fp[5] = &f.z2; if (persp != 2) { int used = 0; for (i = 0; i < 6; i++) { double best = 1e9; int bk = -1; for (k = 0; k < 6; k++) { double d = fabs(fp[i]->a - pl[k].n[0]) + fabs(fp[i]->b - pl[k].n[1]) + fabs(fp[i]->c - pl[k].n[2]) + fabs(fp[i]->d - pl[k].d) / scale; if (d < best && !(used >> k & 1)) { best = d; bk = k; } } VZ_CHECK(best < 2e-3, "planes", "plane %d of the frustum (%g, %g, %g, %g) is no side of the view volume", i, fp[i]->a, fp[i]->b, fp[i]->c, fp[i]->d); used |= 1 << bk; } }
    for (i = 0; i < 30; i++) { /* points chosen through normalised device coordinates or anywhere */
        double v[3], m = 1e9; zpl_vec3 p; float r; int in; for (k = 0; k < 3; k++) v[k] = eye.e[k] + rf(-1, 1) * (vz_pct(50) ? fa : fa / 4);
        p = zpl_vec3f((float)v[0], (float)v[1], (float)v[2]); if (vz_pct(50)) { double t = rf(0, 1.1), u = rf(-0.6, 0.6), w = rf(-0.6, 0.6), d = n + t * (fa - n); zpl_vec3 s = zpl_vec3f(cam.e[0], cam.e[4], cam.e[8]), uu = zpl_vec3f(cam.e[1], cam.e[5], cam.e[9]), b = zpl_vec3f(cam.e[2], cam.e[6], cam.e[10]); double ex = 0, ey = 0, ez = 0; if (cam.e[12] != 0 || cam.e[13] != 0 || cam.e[14] != 0) { ex = eye.x; ey = eye.y; ez = eye.z; } p = zpl_vec3f((float)(ex + s.x * u * d + uu.x * w * d - b.x * d), (float)(ey + s.y * u * d + uu.y * w * d - b.y * d), (float)(ez + s.z * u * d + uu.z * w * d - b.z * d)); }
        for (k = 0; k < 3; k++) v[k] = p.e[k]; for (k = 0; k < 6; k++) { double d = pd(&pl[k], v); if (d < m) m = d; } in = m > 0; if (fabs(m) > 2e-3 * scale) { VZ_CHECK(!zpl_frustum_point_inside(&f, p) == !in, "point", "point (%g, %g, %g) at %g from the nearest side is reported %s", p.x, p.y, p.z, m, in ? "outside" : "inside"); vz_stat(in ? "points in a frustum" : "points out of a frustum", 1); }
        r = (float)rf(0, fa / 2); if (vz_pct(5)) r = 0; if (fabs(m + r) > 2e-3 * scale) { int si = m > -r; VZ_CHECK(!zpl_frustum_sphere_inside(&f, p, r) == !si, "sphere", "sphere of radius %g at %g from the nearest side is reported %s", r, m, si ? "outside" : "inside"); vz_stat(si ? in ? "spheres centred inside" : "spheres reaching inside" : "spheres outside", 1); }
        { zpl_aabb3 b; int corner = 0, beyond = 0, q; float e[3]; double wm[6]; for (k = 0; k < 3; k++) e[k] = (float)(rf(0, 1) * rf(0, 1) * fa / 2); if (vz_pct(10)) { e[vz_u(3)] = 0; if (vz_pct(30)) e[0] = e[1] = e[2] = 0; } b = zpl_aabb3f(p.x, p.y, p.z, p.x + e[0], p.y + e[1], p.z + e[2]); if (vz_pct(50)) b = zpl_aabb3f(p.x - e[0], p.y - e[1], p.z - e[2], p.x, p.y, p.z); for (k = 0; k < 6; k++) wm[k] = -1e9; for (q = 0; q < 8; q++) { double c[3], cm = 1e9; for (k = 0; k < 3; k++) c[k] = q >> k & 1 ? b.max.e[k] : b.min.e[k]; for (k = 0; k < 6; k++) { double d = pd(&pl[k], c); if (d > wm[k]) wm[k] = d; if (d < cm) cm = d; } if (cm > 2e-3 * scale) corner = 1; } for (k = 0; k < 6; k++) if (wm[k] < -2e-3 * scale) beyond = 1;
          if (corner) { VZ_CHECK(zpl_frustum_box_inside(&f, b), "box-in", "a box with a corner inside the frustum is reported outside"); vz_stat("boxes with a corner inside", 1); } else if (beyond) { VZ_CHECK(!zpl_frustum_box_inside(&f, b), "box-out", "a box beyond one side of the frustum is reported inside"); vz_stat("boxes beyond a side", 1); } }
    }
    vz_distinct(vz_hash(&cam, sizeof cam, vz_hash(&proj, sizeof proj, 3))); vz_stat("frusta", 1);
}
VZ_MAIN({"rectangles", t_rect, 4}, {"boxes", t_box, 4}, {"frusta", t_frustum, 4})
