/* C05 ring buffer against a bounded FIFO model; every value is unique */
#include "vz.h"
typedef struct { uint64_t id; uint8_t pad[16]; } wide;
static wide mkw(uint64_t id) { wide w; w.id = id; memset(w.pad, (int)id, 16); return w; }
static uint64_t idw(wide w) { int i; for (i = 0; i < 16; i++) if (w.pad[i] != (uint8_t)w.id) return ~0ull; return w.id; }
#define mku(id) ((zpl_u64)(id))
#define idu(v) ((uint64_t)(v))
ZPL_RING(static, ru_, zpl_u64)
ZPL_RING(static, rw_, wide)
#define GEN(F, T, MK, ID) static void run_##F(void) { \
    vz_track t; vz_track_init(&t); zpl_allocator a = vz_track_allocator(&t); ZPL_JOIN2(F, T) r; int cap = 1 + (int)vz_u(vz_pct(70) ? 6 : 60), ops = 20 + (int)vz_u(200), k, bias = 30 + (int)vz_u(40); uint64_t q[64], next = 1, h = (uint64_t)cap; int n = 0; uint64_t over = 0; \
    ZPL_JOIN2(F, init)(&r, a, cap); \
    for (k = 0; k < ops; k++) { int o; \
        VZ_CHECK(!!ZPL_JOIN2(F, empty)(&r) == (n == 0), "empty", "empty() wrong with %d of %d", n, cap); VZ_CHECK(!!ZPL_JOIN2(F, full)(&r) == (n == cap), "full", "full() wrong with %d of %d", n, cap); \
        o = (int)vz_u(100); h = h * 31 + (uint64_t)(o < bias) + (uint64_t)(o > 90); \
        if (o < bias) { ZPL_JOIN2(F, append)(&r, MK(next)); if (n == cap) { memmove(q, q + 1, (size_t)(--n) * 8); over++; } q[n++] = next++; } \
        else if (o < 90) { T *p = ZPL_JOIN2(F, get)(&r); if (!n) VZ_CHECK(!p, "get-empty", "got an element from an empty ring"); else { VZ_CHECK(p, "get-null", "null with %d elements", n); VZ_CHECK(ID(*p) == q[0], "order", "got %llu want %llu (cap %d)", (long long)ID(*p), (long long)q[0], cap); memmove(q, q + 1, (size_t)(--n) * 8); } } \
        else if (o < 95) { T *arr = 0; int c = (int)vz_u((uint64_t)cap * 2 + 2), i; zpl_array_init(arr, a); for (i = 0; i < c; i++) { zpl_array_append(arr, MK(next)); if (n == cap) { memmove(q, q + 1, (size_t)(--n) * 8); over++; } q[n++] = next++; } ZPL_JOIN2(F, append_array)(&r, arr); zpl_array_free(arr); h = h * 31 + (uint64_t)c; } \
        else { zpl_usize lim = vz_u((uint64_t)cap + 3); int want = (int)lim < n ? (int)lim : n, i; T *arr = ZPL_JOIN2(F, get_array)(&r, lim, a); VZ_CHECK(arr, "drain-null", "null array"); VZ_CHECK(zpl_array_count(arr) == want, "drain-count", "limit %d with %d held gave %ld", (int)lim, n, (long)zpl_array_count(arr)); for (i = 0; i < want; i++) VZ_CHECK(ID(arr[i]) == q[i], "drain-order", "element %d is %llu want %llu", i, (long long)ID(arr[i]), (long long)q[i]); memmove(q, q + want, (size_t)(n - want) * 8); n -= want; zpl_array_free(arr); h = h * 31 + lim; } \
    } \
    while (n) { T *p = ZPL_JOIN2(F, get)(&r); VZ_CHECK(p && ID(*p) == q[0], "final-order", "draining the ring"); memmove(q, q + 1, (size_t)(--n) * 8); } \
    VZ_CHECK(!ZPL_JOIN2(F, get)(&r), "get-empty", "element after draining"); \
    vz_stat("elements pushed", next - 1); vz_stat("overwrites", over); vz_sample("cap %d, %d ops, %llu pushed", cap, ops, (long long)next - 1); vz_distinct(h); ZPL_JOIN2(F, free)(&r); VZ_TRACK_DONE(&t); }
GEN(ru_, zpl_u64, mku, idu)
GEN(rw_, wide, mkw, idw)
static void t_ring(void) { if (vz_u(2)) run_ru_(); else run_rw_(); }
/* many entries: more than sixteen bits can count; values are consecutive, so the model is the first and the number of them */
static void t_large(void) {
    vz_track t; zpl_allocator a; ru_zpl_u64 r; size_t cap = vz_near2(7, 17), n = 0, k, i; uint64_t next = 1; vz_track_init(&t); a = vz_track_allocator(&t); ru_init(&r, a, (zpl_isize)cap);
    for (k = 0; k < 12; k++) { size_t c = vz_pct(50) ? vz_u(cap + cap / 4) : vz_u(cap / 2 + 2); zpl_u64 *arr = 0;
        switch (vz_u(4)) {
        case 0: for (i = 0; i < c; i++) ru_append(&r, next++); n = n + c > cap ? cap : n + c; break;
        case 1: zpl_array_init(arr, a); for (i = 0; i < c; i++) zpl_array_append(arr, next++); ru_append_array(&r, arr); zpl_array_free(arr); n = n + c > cap ? cap : n + c; break;
        case 2: for (i = 0; i < c && n; i++, n--) { zpl_u64 *p = ru_get(&r); VZ_CHECK(p && *p == next - n, "large-order", "got %llu want %llu (cap %zu)", p ? (unsigned long long)*p : 0ull, (unsigned long long)(next - n), cap); } break;
        default: arr = ru_get_array(&r, c, a); if (c > n) c = n; VZ_CHECK(arr && zpl_array_count(arr) == (zpl_isize)c, "large-drain", "%zu of %zu held in a ring of %zu gave %ld", c, n, cap, arr ? (long)zpl_array_count(arr) : -1l); for (i = 0; i < c; i++) VZ_CHECK(arr[i] == next - n + i, "large-order", "element %zu is %llu want %llu (cap %zu)", i, (unsigned long long)arr[i], (unsigned long long)(next - n + i), cap); n -= c; zpl_array_free(arr); break; }
        VZ_CHECK(!ru_empty(&r) == (n != 0) && !ru_full(&r) == (n != cap), "large-full", "empty %d, full %d with %zu of %zu", (int)ru_empty(&r), (int)ru_full(&r), n, cap); }
    while (n) { zpl_u64 *p = ru_get(&r); VZ_CHECK(p && *p == next - n, "large-order", "draining a ring of %zu", cap); n--; } VZ_CHECK(!ru_get(&r), "get-empty", "element after draining");
    vz_stat("elements pushed through large rings", next - 1); vz_distinct(next * 31 + cap); ru_free(&r); VZ_TRACK_DONE(&t);
}
VZ_MAIN({"ring", t_ring, 300}, {"large", t_large, 1})
