/* C04 dynamic arrays and buffers against a plain sequence */
#include "vz.h"
typedef struct { uint8_t b[3]; } e3; typedef struct { uint64_t a, b, c; } e24; typedef struct { uint8_t b[64]; } e64; typedef struct { uint32_t a, b, c; } e12;
#define MAXN 400
/* fill an element of any size from a 64-bit value */
static void put(void *p, size_t n, uint64_t v) { size_t i; uint8_t *b = (uint8_t *)p; for (i = 0; i < n; i++) { b[i] = (uint8_t)(v >> ((i & 7) * 8)); if ((i & 7) == 7) v = v * 0x9E3779B97F4A7C15ull + 1; } }
#define ARR(T) \
static void same_##T(T *x, const uint8_t *m, int n, const char *op) { \
    zpl_isize c = zpl_array_count(x); VZ_CHECK(c == n, "array-count", #T " after %s: count %ld want %d", op, (long)c, n); \
    VZ_CHECK(zpl_array_capacity(x) >= c, "array-capacity", #T " after %s: capacity %ld < count %ld", op, (long)zpl_array_capacity(x), (long)c); \
    VZ_CHECK(zpl_array_elem_size(x) == sizeof(T), "array-elem-size", #T); \
    for (int i = 0; i < n; i++) VZ_CHECK(!memcmp(&x[i], m + (size_t)i * sizeof(T), sizeof(T)), "array-elements", #T " after %s: element %d of %d differs", op, i, n); } \
static void arr_##T(void) { \
    vz_track t; vz_track_init(&t); zpl_allocator a = vz_track_allocator(&t); T *x = 0; static uint8_t m[(MAXN + 70) * sizeof(T)]; int n = 0, ops = 10 + (int)vz_u(120), k; uint64_t h = sizeof(T); const size_t S = sizeof(T); \
    if (vz_u(2)) { VZ_CHECK(zpl_array_init(x, a), "array-ret", "init failed"); } else { zpl_isize c0 = (zpl_isize)vz_u(6); VZ_CHECK(zpl_array_init_reserve(x, a, c0), "array-ret", "init_reserve"); VZ_CHECK(zpl_array_capacity(x) == c0, "array-reserve", "capacity %ld asked %ld", (long)zpl_array_capacity(x), (long)c0); } \
    VZ_CHECK(zpl_array_allocator(x).data == &t, "array-allocator", "wrong allocator"); \
    for (k = 0; k < ops; k++) { const char *op = ""; T v, vs[40]; int i, c; put(&v, S, vz_r()); for (i = 0; i < 40; i++) put(&vs[i], S, vz_r()); \
        int o = (int)vz_u(17); if (n > MAXN - 64 && (o < 7)) o = 10; h = h * 31 + (uint64_t)o; \
        switch (o) { \
        case 0: case 1: case 2: op = "append"; VZ_CHECK(zpl_array_append(x, v), "array-ret", "append failed"); memcpy(m + n++ * S, &v, S); break; \
        case 3: { op = "append_at"; zpl_isize at = (zpl_isize)vz_u((uint64_t)n + 1); int real = at > n ? n : (int)at; if (vz_pct(10)) { at = n + 1 + (zpl_isize)vz_u(30); real = n; op = "append_at past the end"; } VZ_CHECK(zpl_array_append_at(x, v, at), "array-ret", "append_at failed"); memmove(m + (real + 1) * S, m + real * S, (size_t)(n - real) * S); memcpy(m + real * S, &v, S); n++; h += (uint64_t)real; } break; \
        case 4: op = "appendv"; c = (int)vz_u(40); VZ_CHECK(zpl_array_appendv(x, vs, c), "array-ret", "appendv failed"); memcpy(m + n * S, vs, (size_t)c * S); n += c; break; \
        case 5: case 6: { op = "appendv_at"; c = (int)vz_u(20); int at = (int)vz_u((uint64_t)n + 3), real = at > n ? n : at; VZ_CHECK(zpl_array_appendv_at(x, vs, c, at), "array-ret", "appendv_at failed"); memmove(m + (real + c) * S, m + real * S, (size_t)(n - real) * S); memcpy(m + real * S, vs, (size_t)c * S); n += c; h += (uint64_t)real * 7; } break; \
        case 7: case 8: if (n) { op = "remove_at"; i = (int)vz_u((uint64_t)n); zpl_array_remove_at(x, i); memmove(m + i * S, m + (i + 1) * S, (size_t)(n - i - 1) * S); n--; } break; \
        case 9: if (n) { op = "pop"; zpl_array_pop(x); n--; } break; \
        case 10: { op = "resize down"; c = (int)vz_u((uint64_t)n + 1); VZ_CHECK(zpl_array_resize(x, c), "array-ret", "resize"); n = c; } break; \
        case 11: { op = "resize up"; c = n + (int)vz_u(10); if (c <= MAXN) { VZ_CHECK(zpl_array_resize(x, c), "array-ret", "resize"); VZ_CHECK(zpl_array_count(x) == c, "array-count", "resize"); for (i = n; i < c; i++) { x[i] = vs[i - n]; memcpy(m + i * S, &vs[i - n], S); } n = c; } } break; \
        case 12: { op = "reserve"; zpl_isize want = (zpl_isize)vz_u(2 * MAXN), old = zpl_array_capacity(x); VZ_CHECK(zpl_array_reserve(x, want), "array-ret", "reserve"); VZ_CHECK(zpl_array_capacity(x) >= want && zpl_array_capacity(x) >= old, "array-reserve", "capacity %ld after reserving %ld (was %ld)", (long)zpl_array_capacity(x), (long)want, (long)old); } break; \
        case 13: { op = "set_capacity"; zpl_isize want = vz_pct(60) ? n + (zpl_isize)vz_u(10) : (zpl_isize)vz_u((uint64_t)n + 1); VZ_CHECK(zpl_array_set_capacity(x, want), "array-ret", "set_capacity"); VZ_CHECK(zpl_array_capacity(x) == want, "array-reserve", "capacity %ld want %ld", (long)zpl_array_capacity(x), (long)want); if (want < n) n = (int)want; } break; \
        case 14: if (n) { op = "fill"; int b = (int)vz_u((uint64_t)n), e = b + (int)vz_u((uint64_t)(n - b) + 1); zpl_array_fill(x, b, e, v); for (i = b; i < e; i++) memcpy(m + i * S, &v, S); } break; \
        case 15: { op = "copy"; T *y = 0; VZ_CHECK(zpl_array_copy_init(y, x), "array-ret", "copy_init"); same_##T(y, m, n, "copy_init"); if (n) { put(&y[0], S, 77); } VZ_CHECK(zpl_array_append(y, v), "array-ret", "append to copy"); same_##T(x, m, n, "editing a copy"); if (vz_u(2)) { zpl_array_free(y); } else { zpl_array_free(x); x = y; if (n) { memcpy(m, &y[0], S); } memcpy(m + n * S, &v, S); n++; } } break; \
        case 16: if (vz_pct(15)) { op = "clear"; zpl_array_clear(x); n = 0; } else { op = "grow"; zpl_isize old = zpl_array_capacity(x); if (old < 2 * MAXN) { VZ_CHECK(zpl_array_grow(x, 0), "array-ret", "grow"); VZ_CHECK(zpl_array_capacity(x) > old, "array-reserve", "grow kept %ld", (long)old); } } break; } \
        same_##T(x, m, n, op); if (n) { VZ_CHECK(!memcmp(&zpl_array_back(x), m + (n - 1) * S, S) && !memcmp(&zpl_array_front(x), m, S) && zpl_array_end(x) == x + n - 1, "array-ends", "front/back"); } \
        VZ_CHECK(t.nlive == 1, "array-storage", "%zu blocks live after %s", t.nlive, op); } \
    vz_distinct(h * 64 + S); vz_sample("array of %zu-byte elements, %d ops, final count %d", S, ops, n); zpl_array_free(x); VZ_TRACK_DONE(&t); } \
static void buf_##T(void) { \
    vz_track t; vz_track_init(&t); zpl_allocator a = vz_track_allocator(&t); T *x = 0; int cap = 1 + (int)vz_u(60), n = 0, k, ops = 10 + (int)vz_u(60); static uint8_t m[64 * sizeof(T)]; const size_t S = sizeof(T); uint64_t h = S * 100 + (uint64_t)cap; \
    zpl_buffer_init(x, a, cap); VZ_CHECK(zpl_buffer_capacity(x) == cap && zpl_buffer_count(x) == 0 && zpl_buffer_allocator(x).data == &t, "buffer-init", "cap %d", cap); \
    for (k = 0; k < ops; k++) { T v, vs[60]; int i, c, o = (int)vz_u(8); put(&v, S, vz_r()); for (i = 0; i < 60; i++) put(&vs[i], S, vz_r()); h = h * 31 + (uint64_t)o; \
        if (o < 4 && n < cap) { zpl_buffer_append(x, v); memcpy(m + n++ * S, &v, S); } \
        else if (o == 4) { c = (int)vz_u((uint64_t)(cap - n) + 1); zpl_buffer_appendv(x, vs, c); memcpy(m + n * S, vs, (size_t)c * S); n += c; } \
        else if (o == 5 && n) { zpl_buffer_pop(x); n--; } else if (o == 6 && vz_pct(20)) { zpl_buffer_clear(x); n = 0; } \
        else if (o == 7) { T *y = 0; zpl_buffer_copy_init(y, x); VZ_CHECK(zpl_buffer_count(y) == n && zpl_buffer_capacity(y) == cap && !memcmp(y, m, (size_t)n * S), "buffer-copy", "copy differs"); if (n) put(y, S, 1); zpl_buffer_free(y); } \
        VZ_CHECK(zpl_buffer_count(x) == n && zpl_buffer_capacity(x) == cap, "buffer-count", "count %ld want %d", (long)zpl_buffer_count(x), n); VZ_CHECK(!memcmp(x, m, (size_t)n * S), "buffer-elements", "contents differ"); if (n) VZ_CHECK(zpl_buffer_end(x) == x + n - 1, "buffer-end", "end"); } \
    vz_distinct(h); zpl_buffer_free(x); VZ_TRACK_DONE(&t); }
ARR(uint8_t) ARR(uint16_t) ARR(e3) ARR(uint32_t) ARR(uint64_t) ARR(e12) ARR(e24) ARR(e64)
static void t_array(void) { switch (vz_u(8)) { case 0: arr_uint8_t(); break; case 1: arr_uint16_t(); break; case 2: arr_e3(); break; case 3: arr_uint32_t(); break; case 4: arr_uint64_t(); break; case 5: arr_e12(); break; case 6: arr_e24(); break; default: arr_e64(); } }
static void t_buffer(void) { switch (vz_u(8)) { case 0: buf_uint8_t(); break; case 1: buf_uint16_t(); break; case 2: buf_e3(); break; case 3: buf_uint32_t(); break; case 4: buf_uint64_t(); break; case 5: buf_e12(); break; case 6: buf_e24(); break; default: buf_e64(); } }
/* many elements: more than sixteen bits can count */
#define LARGE(T) static void large_##T(void) { \
    vz_track t; vz_track_init(&t); zpl_allocator a = vz_track_allocator(&t); T *x = 0, *y = 0; size_t N = vz_near2(9, 17), n = 0, i, k; const size_t S = sizeof(T); uint8_t *m = malloc((N + 4000) * S), *src = malloc(N * S); int how = (int)vz_u(3); put(src, N * S, vz_r()); \
    zpl_array_init(x, a); if (vz_pct(30)) zpl_array_reserve(x, (zpl_isize)N); \
    if (how == 0) { for (i = 0; i < N; i++) { T v; memcpy(&v, src + i * S, S); zpl_array_append(x, v); } } else if (how == 1) { VZ_CHECK(zpl_array_appendv(x, (T *)src, (zpl_isize)N), "array-ret", "appendv"); } else { zpl_array_resize(x, (zpl_isize)N); memcpy(x, src, N * S); } \
    memcpy(m, src, N * S); n = N; \
    for (k = 0; k < 24; k++) { const char *op = ""; T v; size_t at = vz_pct(30) ? n - vz_u(n < 5 ? n + 1 : 5) : vz_u(n + 1); put(&v, S, vz_r()); \
        switch (vz_u(7)) { \
        case 0: op = "append_at"; zpl_array_append_at(x, v, (zpl_isize)at); memmove(m + (at + 1) * S, m + at * S, (n - at) * S); memcpy(m + at * S, &v, S); n++; break; \
        case 1: { size_t c = vz_u(100); op = "appendv_at"; if (c > N) c = N; zpl_array_appendv_at(x, (T *)src, (zpl_isize)c, (zpl_isize)at); memmove(m + (at + c) * S, m + at * S, (n - at) * S); memcpy(m + at * S, src, c * S); n += c; } break; \
        case 2: op = "remove_at"; if (at == n) at--; zpl_array_remove_at(x, (zpl_isize)at); memmove(m + at * S, m + (at + 1) * S, (n - at - 1) * S); n--; break; \
        case 3: { size_t e = at + vz_u(n - at + 1); op = "fill"; zpl_array_fill(x, (zpl_isize)at, (zpl_isize)e, v); for (i = at; i < e; i++) memcpy(m + i * S, &v, S); } break; \
        case 4: op = "copy_init"; y = 0; VZ_CHECK(zpl_array_copy_init(y, x), "array-ret", "copy_init"); zpl_array_free(x); x = y; break; \
        case 5: op = "set_capacity"; zpl_array_set_capacity(x, (zpl_isize)(n + vz_u(3))); break; \
        default: op = "append"; zpl_array_append(x, v); memcpy(m + n++ * S, &v, S); break; } \
        VZ_CHECK((size_t)zpl_array_count(x) == n && zpl_array_capacity(x) >= (zpl_isize)n, "large-count", "%zu-byte elements after %s: count %ld want %zu", S, op, (long)zpl_array_count(x), n); VZ_CHECK(!memcmp(x, m, n * S), "large-elements", "%zu elements of %zu bytes after %s differ", n, S, op); if (n < 10) break; } \
    vz_stat("elements of large arrays", n); vz_distinct(vz_hash(m, n * S, S)); vz_sample("large array of %zu elements of %zu bytes", n, S); zpl_array_free(x); VZ_TRACK_DONE(&t); \
    zpl_buffer_init(x, a, (zpl_isize)N); for (i = 0; i < N / 2; i++) { T v; memcpy(&v, src + i * S, S); zpl_buffer_append(x, v); } zpl_buffer_appendv(x, (T *)(src + i * S), (zpl_isize)(N - i)); VZ_CHECK(zpl_buffer_count(x) == (zpl_isize)N && zpl_buffer_capacity(x) == (zpl_isize)N && !memcmp(x, src, N * S), "large-buffer", "%zu elements of %zu bytes differ", N, S); y = 0; zpl_buffer_copy_init(y, x); VZ_CHECK(zpl_buffer_count(y) == (zpl_isize)N && !memcmp(y, src, N * S), "large-buffer", "the copy of %zu elements of %zu bytes differs", N, S); zpl_buffer_free(x); zpl_buffer_free(y); VZ_TRACK_DONE(&t); free(m); free(src); }
LARGE(uint8_t) LARGE(uint16_t) LARGE(e3) LARGE(e12) LARGE(e64)
static void t_large(void) { switch (vz_u(5)) { case 0: large_uint8_t(); break; case 1: large_uint16_t(); break; case 2: large_e3(); break; case 3: large_e12(); break; default: large_e64(); } }
VZ_MAIN({"array", t_array, 400}, {"buffer", t_buffer, 100}, {"large", t_large, 1})
