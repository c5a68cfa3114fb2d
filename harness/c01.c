/* C01 memory primitives against byte-by-byte definitions; operands sit at every
 * misalignment in blocks whose surroundings are poisoned or guarded. */
#include "vz.h"

typedef struct { uint8_t *base, *p; size_t n, off; } obj;
/* n bytes at misalignment off; bytes just outside are poisoned (8-byte granules) and
 * the rest are canaries. */
static obj mk(size_t n, size_t off) {
    obj o; o.n = n; o.off = off; o.base = (uint8_t *)malloc(n + off + 64); memset(o.base, 0xC3, n + off + 64); o.p = o.base + 16 + off; return o;
}
static void arm(obj *o) { /* make everything after the object unaddressable; before: canaries plus poison of whole granules */
    vz_poison(o->p + o->n, o->base + o->n + o->off + 64 - (o->p + o->n)); vz_poison(o->base, (size_t)(o->p - o->base) & ~(size_t)7);
}
static void drop(obj *o, const char *what) {
    size_t i, tot = o->n + o->off + 64; int bad = 0;
    vz_unpoison(o->base, tot);
    for (i = 0; i < tot; i++) if (!(o->base + i >= o->p && o->base + i < o->p + o->n) && o->base[i] != 0xC3) bad = 1;
    free(o->base);
    VZ_CHECK(!bad, "wrote-outside", "%s wrote outside its range", what);
}
static size_t len(void) {
    if (vz_pct(2)) return vz_near2(8, 17);
    switch (vz_u(6)) { case 0: return vz_u(10); case 1: return vz_u(40); case 2: return vz_u(300); case 3: return 8 * vz_u(40) + vz_u(3); case 4: return 250 + vz_u(16) + 256 * vz_u(4); default: return vz_u(2000); }
}
static void fill(uint8_t *p, size_t n) { /* small alphabet makes equal runs and hits likely */
    int m = (int)vz_u(4); size_t i;
    for (i = 0; i < n; i++) p[i] = m == 0 ? (uint8_t)vz_r() : m == 1 ? (uint8_t)(vz_u(2) * 255) : m == 2 ? 0 : (uint8_t)(0x7e + vz_u(4));
}
static uint64_t sig(size_t a, size_t b, size_t c, const void *p, size_t n) { return vz_hash(p, n, a * 1315423911u + b * 2654435761u + c); }

static void t_copy(void) {
    size_t n = len(), a = vz_u(16), b = vz_u(16); obj s = mk(n, a), d = mk(n, b); uint8_t *want = (uint8_t *)malloc(n + 1);
    fill(s.p, n); memcpy(want, s.p, n); arm(&s); arm(&d);
    void *r = (vz_u(2) ? zpl_memcopy : zpl_memmove)(d.p, s.p, (zpl_isize)n);
    VZ_CHECK(r == d.p, "copy-ret", "returned %p not dest", r);
    VZ_CHECK(!memcmp(d.p, want, n), "copy", "n=%zu offs %zu,%zu: bytes differ", n, a, b);
    VZ_CHECK(!memcmp(s.p, want, n), "copy-src", "n=%zu: source changed", n);
    if (n) vz_distinct(sig(n, a, b, want, n)); vz_sample("copy n=%zu srcmis=%zu dstmis=%zu", n, a, b);
    free(want); drop(&s, "copy"); drop(&d, "copy");
}
static void t_move(void) {
    size_t n = len(), a = vz_u(16), span, i; long sh = (long)vz_range(-40, 40); if (vz_pct(30)) sh = (long)vz_range(-8, 8) * 8; if (vz_pct(10)) sh = (long)vz_range(-(int64_t)n, (int64_t)n);
    size_t lo = sh < 0 ? (size_t)-sh : 0; span = n + (size_t)(sh < 0 ? -sh : sh);
    obj o = mk(span, a); uint8_t *ref = (uint8_t *)malloc(span + 1), *tmp = (uint8_t *)malloc(n + 1); uint8_t *src = o.p + lo, *dst = src + sh;
    fill(o.p, span); for (i = 0; i < span; i++) if (vz_pct(50)) o.p[i] = (uint8_t)i;
    memcpy(ref, o.p, span); memcpy(tmp, ref + lo, n); memcpy(ref + lo + sh, tmp, n); arm(&o);
    void *r = zpl_memmove(dst, src, (zpl_isize)n);
    VZ_CHECK(r == dst, "move-ret", "returned %p", r);
    VZ_CHECK(!memcmp(o.p, ref, span), "move", "n=%zu shift=%ld mis=%zu", n, sh, a);
    if (n && sh) vz_distinct(sig(n, (size_t)sh, a, ref, span)); vz_sample("move n=%zu shift=%ld mis=%zu", n, sh, a);
    free(ref); free(tmp); drop(&o, "move");
}
static void t_set(void) {
    size_t n = len(), a = vz_u(16), i; uint8_t c = (uint8_t)vz_r(); obj d = mk(n, a); int z = vz_pct(20);
    fill(d.p, n); arm(&d);
    if (z) { c = 0; zpl_zero_size(d.p, (zpl_isize)n); } else { void *r = zpl_memset(d.p, c, (zpl_isize)n); VZ_CHECK(r == d.p, "set-ret", "returned %p", r); }
    for (i = 0; i < n; i++) VZ_CHECK(d.p[i] == c, "set", "n=%zu mis=%zu c=%02x: byte %zu is %02x", n, a, c, i, d.p[i]);
    if (n) vz_distinct(sig(n, a, c, "", 0)); drop(&d, "set");
}
static void t_swap(void) {
    size_t n = len(), a = vz_u(16), b = vz_u(16); obj x = mk(n, a), y = mk(n, b); uint8_t *wx = (uint8_t *)malloc(n + 1), *wy = (uint8_t *)malloc(n + 1);
    fill(x.p, n); fill(y.p, n); memcpy(wx, x.p, n); memcpy(wy, y.p, n); arm(&x); arm(&y);
    if (vz_pct(5)) { zpl_memswap(x.p, x.p, (zpl_isize)n); VZ_CHECK(!memcmp(x.p, wx, n), "swap-self", "n=%zu", n); }
    zpl_memswap(x.p, y.p, (zpl_isize)n);
    VZ_CHECK(!memcmp(x.p, wy, n) && !memcmp(y.p, wx, n), "swap", "n=%zu offs %zu,%zu", n, a, b);
    if (n) vz_distinct(sig(n, a, b, wx, n)); free(wx); free(wy); drop(&x, "swap"); drop(&y, "swap");
}
static void t_compare(void) {
    size_t n = len(), a = vz_u(16), b = vz_u(16); obj x = mk(n, a), y = mk(n, b); long k = 0; int w, g;
    fill(x.p, n); memcpy(y.p, x.p, n); if (n && vz_pct(80)) { for (k = (long)vz_range(1, 3); k; k--) y.p[vz_pct(30) ? n - 1 : vz_u(n)] = (uint8_t)vz_r(); }
    arm(&x); arm(&y);
    w = memcmp(x.p, y.p, n); g = zpl_memcompare(x.p, y.p, (zpl_isize)n);
    VZ_CHECK((w > 0) - (w < 0) == (g > 0) - (g < 0), "compare", "n=%zu memcmp %d got %d", n, w, g);
    if (n) vz_distinct(sig(n, a, b, y.p, n)); drop(&x, "compare"); drop(&y, "compare");
}
static void t_find(void) {
    size_t n = len(), a = vz_u(16), i; obj x = mk(n, a); uint8_t c = (uint8_t)(vz_pct(50) ? 0x80 + vz_u(4) - 2 : vz_r()); long f = -1, l = -1;
    fill(x.p, n); if (vz_pct(50)) for (i = 0; i < n; i++) if (x.p[i] == c) x.p[i] ^= (uint8_t)(1u << vz_u(8)); if (n && vz_pct(60)) x.p[vz_pct(30) ? n - 1 : vz_u(n)] = c;
    for (i = 0; i < n; i++) if (x.p[i] == c) { if (f < 0) f = (long)i; l = (long)i; }
    if (vz_pct(40) && n < 290) { /* the bytes after the range hold the sought value: must not be found */
        vz_unpoison(x.base, n + a + 64); uint8_t keep[8]; memcpy(keep, x.p + n, 8); memset(x.p + n, c, 8);
        const void *p = zpl_memchr(x.p, c, (zpl_isize)n), *q = zpl_memrchr(x.p, c, (zpl_isize)n); memcpy(x.p + n, keep, 8);
        VZ_CHECK(p == (f < 0 ? 0 : x.p + f), "find-first", "n=%zu mis=%zu c=%02x want %ld got %ld", n, a, c, f, p ? (long)((uint8_t *)p - x.p) : -1L);
        VZ_CHECK(q == (l < 0 ? 0 : x.p + l), "find-last", "n=%zu c=%02x want %ld", n, c, l);
    } else {
        arm(&x);
        const void *p = zpl_memchr(x.p, c, (zpl_isize)n), *q = zpl_memrchr(x.p, c, (zpl_isize)n);
        VZ_CHECK(p == (f < 0 ? 0 : x.p + f), "find-first", "n=%zu mis=%zu c=%02x want %ld got %ld", n, a, c, f, p ? (long)((uint8_t *)p - x.p) : -1L);
        VZ_CHECK(q == (l < 0 ? 0 : x.p + l), "find-last", "n=%zu c=%02x want %ld", n, c, l);
    }
    if (n) vz_distinct(sig(n, a, c, x.p, n)); drop(&x, "find");
}
static void t_align(void) {
    int i; for (i = 0; i < 200; i++) {
        unsigned sh = (unsigned)vz_u(21); uint64_t al = 1ull << sh, v = vz_edge64() & 0x7fffffffffffull, w = (v + al - 1) / al * al; uint64_t odd = 1 + vz_u(1000), vo = vz_r() >> 20;
        VZ_CHECK((uint64_t)zpl_align_forward((void *)v, (zpl_isize)al) == w, "align-ptr", "%llx by %llx", (long long)v, (long long)al);
        VZ_CHECK((uint64_t)zpl_align_forward_i64((zpl_i64)v, (zpl_isize)al) == w, "align-i64", "%llx by %llx", (long long)v, (long long)al);
        VZ_CHECK(zpl_align_forward_u64(v, al) == w, "align-u64", "%llx by %llx", (long long)v, (long long)al);
        VZ_CHECK(zpl_align_forward_u64(vo, odd) == (vo + odd - 1) / odd * odd && zpl_align_forward_i64((zpl_i64)vo, (zpl_isize)odd) == (zpl_i64)((vo + odd - 1) / odd * odd), "align-odd", "%llu by %llu", (long long)vo, (long long)odd);
        { int64_t x = (int64_t)vz_edge64(); int bits = __builtin_popcountll((uint64_t)x); VZ_CHECK(!!zpl_is_power_of_two((zpl_isize)x) == (x > 0 && bits == 1), "pow2", "%lld", (long long)x); }
        { char buf[64]; long k = (long)vz_u(64); VZ_CHECK(zpl_pointer_add(buf, k) == buf + k && zpl_pointer_sub(buf + 64, k) == buf + 64 - k && zpl_pointer_diff(buf, buf + k) == k && zpl_pointer_add_const(buf, k) == buf + k && zpl_pointer_sub_const(buf + 64, k) == buf + 64 - k, "ptr-arith", "%ld", k); }
        vz_distinct(sig((size_t)v, al, odd, "", 0));
    }
}
/* every small length x alignment pair, exhaustively, one (length) per case */
static void t_grid(void) {
    size_t n = vz_u(72), a, b, i;
    for (a = 0; a < 8; a++) for (b = 0; b < 8; b++) {
        obj s = mk(n, a), d = mk(n, b); for (i = 0; i < n; i++) s.p[i] = (uint8_t)(i + 1); arm(&s); arm(&d);
        zpl_memmove(d.p, s.p, (zpl_isize)n); VZ_CHECK(!memcmp(d.p, s.p, n), "grid-move", "n=%zu %zu %zu", n, a, b);
        zpl_memset(d.p, 0x5A, (zpl_isize)n); for (i = 0; i < n; i++) VZ_CHECK(d.p[i] == 0x5A, "grid-set", "n=%zu mis=%zu byte %zu", n, b, i);
        for (i = 0; i < n; i++) { VZ_CHECK(zpl_memchr(s.p, (zpl_u8)(i + 1), (zpl_isize)n) == s.p + i, "grid-find", "n=%zu mis=%zu at %zu", n, a, i); }
        VZ_CHECK(!zpl_memchr(s.p, 0xFE, (zpl_isize)n) && !zpl_memrchr(s.p, 0xFE, (zpl_isize)n), "grid-find-none", "n=%zu", n);
        { size_t da; for (da = 1; da < 9 && da < n; da++) { uint8_t ref[80]; vz_unpoison(s.base, n + a + 64); memcpy(ref, s.p, n); memmove(ref + da, ref, n - da); zpl_memmove(s.p + da, s.p, (zpl_isize)(n - da)); VZ_CHECK(!memcmp(ref, s.p, n), "grid-overlap-up", "n=%zu d=%zu", n, da); memmove(ref, ref + da, n - da); zpl_memmove(s.p, s.p + da, (zpl_isize)(n - da)); VZ_CHECK(!memcmp(ref, s.p, n), "grid-overlap-down", "n=%zu d=%zu", n, da); for (i = 0; i < n; i++) s.p[i] = (uint8_t)(i + 1); } }
        drop(&s, "grid"); drop(&d, "grid");
    }
    vz_distinct(n);
}
/* values with types of their own before and after the memory is cleared, moved, swapped or scanned as bytes */
typedef struct rec { char const *name; struct rec *parent; double real; int small; float f; void *list; } rec;
static __attribute__((noinline)) void reset(rec *r, char const *name) { rec *parent = r->parent; double real = r->real; float f = r->f; zpl_zero_item(r); r->name = name; r->parent = parent; r->real = real; r->f = f; }
static __attribute__((noinline)) rec *slide(rec **list, int n, int from, int to) { rec *first = list[from]; zpl_memmove(list + to, list + from, (zpl_isize)(n * (int)sizeof *list)); return list[to] == first ? list[to + n - 1] : NULL; }
static __attribute__((noinline)) double trade(double *a, double *b, float *c, float *d) { double x = *a, y = *b; float u = *c; zpl_memswap(a, b, sizeof *a); zpl_memswap(c, d, sizeof *c); *b += 1; return *a == y && *b == x + 1 && *d == u ? *a : -1; }
static __attribute__((noinline)) int spot(float *f, int n, int at) { void const *p; int i; for (i = 0; i < n; i++) f[i] = 0; f[at] = 2; p = zpl_memchr(f, 0x40, (zpl_isize)(n * (int)sizeof *f)); f[at] = 0; return p ? (int)(((char const *)p - (char const *)f) / (int)sizeof *f) : -1; }
static void t_typed(void) {
    int i; for (i = 0; i < 40; i++) {
        int n = 1 + (int)vz_u(12), k = (int)vz_u((uint64_t)n); rec *r = malloc(sizeof *r * (size_t)n), *old = r + (size_t)vz_u((uint64_t)n), was; double rv = (double)vz_range(1, 1000); char nm[2] = "n"; int j;
        for (j = 0; j < n; j++) { r[j].name = "x"; r[j].parent = old; r[j].real = rv; r[j].small = 7; r[j].f = 3; r[j].list = r; }
        reset(r + k, nm); was = r[k];
        VZ_CHECK(was.name == nm && was.parent == old && was.real == rv && was.f == 3 && !was.small && !was.list, "typed-zero", "a record kept aside, cleared and filled again: parent %p (should be %p) real %g (should be %g)", (void *)was.parent, (void *)old, was.real, rv);
        { rec *l[40], *q; int from = (int)vz_u(20), to = (int)vz_u(20), m = 1 + (int)vz_u(20); for (j = 0; j < 40; j++) l[j] = r + j; q = slide(l, m, from, to); VZ_CHECK(q == r + from + m - 1, "typed-move", "%d pointers moved from %d to %d", m, from, to); }
        { double a = rv, b = rv + 5, g; float c = 1, d = 2; g = trade(&a, &b, &c, &d); VZ_CHECK(g == rv + 5 && a == rv + 5 && b == rv + 1 && c == 2 && d == 1, "typed-swap", "%g %g %g %g %g", g, a, b, c, d); }
        { float f[32]; int w = 8 + (int)vz_u(24), at = (int)vz_u((uint64_t)w); j = spot(f, w, at); VZ_CHECK(j == at, "typed-find", "%d of %d reported as %d", at, w, j); }
        free(r); vz_distinct(sig((size_t)n, (size_t)k, (size_t)i, "typed", 5));
    }
}
VZ_MAIN({"copy", t_copy, 4}, {"move", t_move, 8}, {"set", t_set, 5}, {"swap", t_swap, 5}, {"compare", t_compare, 4}, {"find", t_find, 6}, {"align", t_align, 1}, {"grid", t_grid, 1}, {"typed", t_typed, 1})
