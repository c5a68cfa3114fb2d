/* random generators.  clock_gettime is replaced (ld --wrap) to advance by arbitrary amounts while seeding */
#include "vz.h"
#include <time.h>
static int jumping; static long long jump; static int nclock;
int __real_clock_gettime(clockid_t, struct timespec *);
int __wrap_clock_gettime(clockid_t c, struct timespec *t) { int r = __real_clock_gettime(c, t); { if (jumping) { nclock++; jump += (long long)vz_u(3) * 350000000ll + (long long)vz_u(20000000); } { long long n = t->tv_nsec + jump % 1000000000ll; t->tv_sec += jump / 1000000000ll + n / 1000000000ll; t->tv_nsec = n % 1000000000ll; } } return r; }
static void state(zpl_random *r) { int i; memset(r, 0, sizeof *r); if (vz_pct(25)) { zpl_random_init(r); return; } for (i = 0; i < 8; i++) r->offsets[i] = vz_pct(85) ? (zpl_u32)vz_r() : (zpl_u32)vz_edge64(); r->value = (zpl_u32)vz_edge64(); }
static int64_t lo64, hi64; static void bounds(void) { lo64 = (int64_t)vz_edge64(); hi64 = (int64_t)vz_edge64(); if (vz_pct(10)) { lo64 = INT64_MIN; hi64 = INT64_MAX; } if (vz_pct(20)) hi64 = lo64 > INT64_MAX - 300 ? lo64 : lo64 + (int64_t)vz_u(300); if (lo64 > hi64) { int64_t t = lo64; lo64 = hi64; hi64 = t; } }
static void t_copy(void) { zpl_random a, b; int k, n = (int)vz_range(10, 400); uint64_t hh = 1; state(&a); b = a;
    for (k = 0; k < n; k++) { uint64_t x, y; double fx, fy; switch (vz_u(7)) { case 0: x = zpl_random_gen_u32(&a); y = zpl_random_gen_u32(&b); break; case 1: x = zpl_random_gen_u64(&a); y = zpl_random_gen_u64(&b); break; case 2: x = zpl_random_gen_u32_unique(&a); y = zpl_random_gen_u32_unique(&b); break; case 3: x = (uint64_t)zpl_random_gen_isize(&a); y = (uint64_t)zpl_random_gen_isize(&b); break;
          case 4: bounds(); x = (uint64_t)zpl_random_range_i64(&a, lo64, hi64); y = (uint64_t)zpl_random_range_i64(&b, lo64, hi64); break; case 5: bounds(); x = (uint64_t)zpl_random_range_isize(&a, lo64, hi64); y = (uint64_t)zpl_random_range_isize(&b, lo64, hi64); break; default: fx = zpl_random_range_f64(&a, -3, 9); fy = zpl_random_range_f64(&b, -3, 9); memcpy(&x, &fx, 8); memcpy(&y, &fy, 8); }
        VZ_CHECK(x == y, "reproducible", "draw %d of two generators in one state: %llx and %llx", k, (unsigned long long)x, (unsigned long long)y); hh = hh * 31 + x; if (vz_pct(3)) { zpl_random c = a; a = b; b = c; } }
    vz_distinct(hh); vz_sample("%d draws from two copies of a generator, digest %llx", n, (unsigned long long)hh); }
static void t_range(void) { zpl_random r; int k; uint64_t hh = 2; state(&r); for (k = 0; k < 200; k++) { int64_t v; bounds(); if (vz_pct(50)) v = zpl_random_range_i64(&r, lo64, hi64); else v = zpl_random_range_isize(&r, lo64, hi64); VZ_CHECK(v >= lo64 && v <= hi64, "range", "%lld drawn from %lld..%lld", (long long)v, (long long)lo64, (long long)hi64); hh = hh * 31 + (uint64_t)v;
      { double a = vz_unit() * 200 - 100, b = a + vz_unit() * (double)(1 << vz_u(20)), f; if (vz_pct(20)) { a = ldexp(vz_unit() - .5, (int)vz_range(-300, 300)); b = a + fabs(ldexp(vz_unit(), (int)vz_range(-300, 300))); } if (vz_pct(10)) b = a; f = zpl_random_range_f64(&r, a, b); VZ_CHECK(f >= a && f <= b, "range_f64", "%.17g drawn from %.17g..%.17g", f, a, b); } } vz_distinct(hh); }
static void t_every(void) { zpl_random r; int n = (int)vz_range(1, 24), k, seen[24] = {0}, left = n; int64_t base; state(&r); bounds(); base = lo64 > INT64_MAX - 24 ? INT64_MAX - 24 : lo64; for (k = 0; k < 400 * n && left; k++) { int64_t v = vz_pct(50) ? zpl_random_range_i64(&r, base, base + n - 1) : zpl_random_range_isize(&r, base, base + n - 1); VZ_CHECK(v >= base && v < base + n, "range", "%lld from %lld..%lld", (long long)v, (long long)base, (long long)(base + n - 1)); if (!seen[v - base]) { seen[v - base] = 1; left--; } } VZ_CHECK(!left, "every-value", "%d of the %d values %lld.. never drawn in %d draws", left, n, (long long)base, k); vz_distinct((uint64_t)base * 31 + (uint64_t)n); }
static int q_u32(const void *a, const void *b) { uint32_t x = *(const uint32_t *)a, y = *(const uint32_t *)b; return x < y ? -1 : x > y; }
static void t_unique(void) { zpl_random r; size_t n = vz_thorough ? 1u << 22 : 1u << 18, i; uint32_t *v = malloc(n * 4); state(&r); if (vz_pct(30)) r.value = (zpl_u32)(0u - (uint32_t)vz_u(n)); for (i = 0; i < n; i++) v[i] = zpl_random_gen_u32_unique(&r); qsort(v, n, 4, q_u32); for (i = 1; i < n; i++) VZ_CHECK(v[i] != v[i - 1], "unique", "%u drawn twice within %zu unique draws", v[i], n); vz_stat("unique draws", n); vz_distinct(v[0] * 7919ull + v[n - 1]); free(v); }
static void t_windows(void) { /* draws around the points where a permutation of the 32-bit numbers is likely to be pieced together */
    static const uint32_t at[] = {0, 4294967291u / 2, 4294967291u, 0x80000000u, 0xffffffffu, 0x40000000u, 0x10000u, 0xc0000000u}; zpl_random r; size_t n = 0, i; uint32_t *v = malloc(8 * 600 * 4), st[8 * 600], got = 0; int k, w = 1 + (int)vz_u(250);
    state(&r); if (vz_pct(50)) memset(&r, 0, sizeof r);
    for (k = 0; k < 8; k++) { uint32_t s = at[k] - (uint32_t)w; int j, dup; for (j = 0; j < 2 * w + 1; j++, s++) { size_t q; dup = 0; for (q = 0; q < n && !dup; q++) dup = st[q] == s; if (dup) continue; r.value = s; st[n] = s; v[n++] = zpl_random_gen_u32_unique(&r); } }
    (void)got; qsort(v, n, 4, q_u32); for (i = 1; i < n; i++) VZ_CHECK(v[i] != v[i - 1], "unique", "%u drawn from two positions of one unique stream", v[i]); vz_stat("unique draws at the seams", n); vz_distinct(v[0] * 7919ull + v[n - 1]); free(v); }
static void chi(const char *what, const uint32_t *c, int bins, double total) { double e = total / bins, x = 0; int i; for (i = 0; i < bins; i++) x += (c[i] - e) * (c[i] - e) / e; VZ_CHECK(x < bins + 14 * sqrt(2.0 * bins) + 40, "uniform", "%s: chi-square %.0f over %d bins", what, x, bins); }
static void t_uniform(void) { zpl_random r; uint32_t c[4][256] = {{0}}, d[10] = {0}, f[64] = {0}, g[256] = {0}; int k, j, n = 40000; uint32_t prev = 0; state(&r); for (k = 0; k < n; k++) { uint32_t x = zpl_random_gen_u32(&r); for (j = 0; j < 4; j++) c[j][x >> (8 * j) & 255]++; d[zpl_random_range_i64(&r, 0, 9)]++; j = (int)(zpl_random_range_f64(&r, 0, 64)); f[j > 63 ? 63 : j]++; x = (uint32_t)(zpl_random_gen_u64(&r) >> 32); g[(x ^ prev) & 255]++; prev = x; } for (j = 0; j < 4; j++) chi("bytes of 32-bit draws", c[j], 256, n); chi("range 0..9", d, 10, n); chi("fractions", f, 64, n); chi("successive differences", g, 256, n); vz_stat("draws tested for uniformity", (uint64_t)n * 4); vz_distinct(prev); }
static void t_init(void) { zpl_random r[40]; int i, k, n = 40; int j = vz_pct(60); jumping = j; nclock = 0; for (i = 0; i < n; i++) { memset(&r[i], 0x5a, sizeof r[i]); zpl_random_init(&r[i]); } jumping = 0; VZ_CHECK(n, "init", "x"); for (i = 0; i < n; i++) for (k = 0; k < i; k++) VZ_CHECK(memcmp(&r[i], &r[k], sizeof r[i]), "seed", "generators %d and %d seeded in one process are the same", k, i); vz_stat("seeded generators", (uint64_t)n); vz_stat("clock readings while seeding with jumps", (uint64_t)nclock); vz_distinct(vz_r()); }
VZ_MAIN({"copy", t_copy, 30}, {"range", t_range, 30}, {"every value", t_every, 20}, {"unique", t_unique, 1}, {"seams", t_windows, 1}, {"uniform", t_uniform, 2}, {"seeding", t_init, 5})
