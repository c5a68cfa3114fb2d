/* sorting, searching, reversing, shuffling: permutation and order monitors; the comparison itself checks the pointers it is given */
#include "vz.h"
static unsigned char *B, *B0; static size_t N, ES; static int kind; static size_t koff; static uint64_t ncmp;
static int64_t keyof(const unsigned char *e) { int64_t k = 0; size_t n = ES - koff < 4 ? ES - koff : 4; switch (n) { case 1: return e[koff]; case 2: case 3: { uint16_t v; memcpy(&v, e + koff, 2); return v; } default: { int32_t v; memcpy(&v, e + koff, 4); k = v; } } return k; }
static const void *KEY; static char bad[200];
static int inarr(const void *p) { const unsigned char *q = p; return q >= B && q < B + N * ES && (size_t)(q - B) % ES == 0; }
static ZPL_COMPARE_PROC(cmp_key) { int64_t x, y; ncmp++; if ((a != KEY && !inarr(a)) || (b != KEY && !inarr(b))) { if (!bad[0]) snprintf(bad, sizeof bad, "comparison called with a pointer outside the %zu elements of %zu bytes (%lld, %lld)", N, ES, (long long)((const unsigned char *)a - B), (long long)((const unsigned char *)b - B)); return 0; } x = keyof(a); y = keyof(b); return x < y ? -1 : x > y; }
/* an adversary that makes quicksorts take their worst path (McIlroy) */
static int *aval, agas, asolid, acand, acount; static ZPL_COMPARE_PROC(cmp_adv) { int x = *(const int *)a, y = *(const int *)b; if ((size_t)((const unsigned char *)a - B) >= N * ES || (size_t)((const unsigned char *)b - B) >= N * ES) { snprintf(bad, sizeof bad, "comparison called with a pointer outside the array"); return 0; } ncmp++; (void)acount; if (aval[x] == agas && aval[y] == agas) { if (x == acand) aval[x] = asolid++; else aval[y] = asolid++; } if (aval[x] == agas) acand = x; else if (aval[y] == agas) acand = y; return aval[x] < aval[y] ? -1 : aval[x] > aval[y]; }
static size_t qs; static int q_mem(const void *a, const void *b) { return memcmp(a, b, qs); }
static void perm(const char *what) { unsigned char *x = malloc(N * ES + 1), *y = malloc(N * ES + 1); int r; memcpy(x, B, N * ES); memcpy(y, B0, N * ES); qs = ES; if (N) { qsort(x, N, ES, q_mem); qsort(y, N, ES, q_mem); } r = memcmp(x, y, N * ES); free(x); free(y); VZ_CHECK(!r, "permutation", "%s of %zu elements of %zu bytes is not a permutation of the input", what, N, ES); }
static size_t anyn(void) { return vz_pct(1) ? vz_near2(8, 16) : vz_pct(50) ? vz_u(20) : vz_pct(80) ? vz_u(300) : vz_u(3000); }
static void mk(void) { size_t i; B = vz_dup("", 0); free(B); B = malloc(N * ES ? N * ES : 1); B0 = malloc(N * ES + 1); for (i = 0; i < N * ES; i++) B[i] = (unsigned char)vz_r(); }
static void done(void) { free(B); free(B0); }
static int32_t pat(int d, size_t i, size_t n, int32_t m) { switch (d) { case 0: return (int32_t)vz_r(); case 1: return (int32_t)vz_u(3); case 2: return 7; case 3: return (int32_t)i; case 4: return (int32_t)(n - i); case 5: return (int32_t)(i < n / 2 ? i : n - i); case 6: return (int32_t)(i % (size_t)m); case 7: return (int32_t)(i ^ 1); case 8: return i + 3 < n ? (int32_t)i : (int32_t)vz_u(n + 1); case 9: return (int32_t)(i < n / 2 ? n - i : i); default: return (int32_t)vz_range(-5, 5); } }
static void t_sort(void) {
    static const size_t sz[] = {1, 2, 3, 4, 5, 7, 8, 9, 12, 16, 24, 31, 32, 40, 64, 255, 256, 257, 300, 520, 777}; size_t i; int d = (int)vz_u(11); int32_t m = 1 + (int32_t)vz_u(20);
    ES = sz[vz_u(vz_pct(80) ? 15 : 21)]; N = anyn(); if (ES > 64 && N > 300) N %= 300; koff = ES > 4 && vz_pct(40) ? vz_u(ES - 3) : 0; mk(); KEY = 0; bad[0] = 0; ncmp = 0;
    for (i = 0; i < N; i++) { int32_t k = pat(d, i, N, m); size_t n = ES - koff < 4 ? ES - koff : 4; memcpy(B + i * ES + koff, &k, n == 3 ? 2 : n); }
    memcpy(B0, B, N * ES); zpl_sort(B, (zpl_isize)N, (zpl_isize)ES, cmp_key); VZ_CHECK(!bad[0], "bounds", "%s", bad); perm("sorting");
    for (i = 1; i < N; i++) VZ_CHECK(keyof(B + (i - 1) * ES) <= keyof(B + i * ES), "order", "elements %zu and %zu of %zu (%zu bytes each, pattern %d) are out of order", i - 1, i, N, ES, d);
    { int q; unsigned char *k = malloc(ES); for (q = 0; q < 20; q++) { zpl_isize r; int64_t want; int there = 0; for (i = 0; i < ES; i++) k[i] = (unsigned char)vz_r(); if (N && vz_pct(60)) memcpy(k, B + vz_u(N) * ES, ES); KEY = k; want = keyof(k); for (i = 0; i < N; i++) if (keyof(B + i * ES) == want) there = 1;
        r = zpl_binary_search(B, (zpl_isize)N, (zpl_isize)ES, k, cmp_key); VZ_CHECK(!bad[0], "search-bounds", "%s", bad); VZ_CHECK(there ? r >= 0 && r < (zpl_isize)N && keyof(B + (size_t)r * ES) == want : r == -1, "search", "key %lld in %zu elements (%s) gave %zd", (long long)want, N, there ? "present" : "absent", (ssize_t)r); } free(k); }
    vz_distinct(vz_hash(B0, N * ES, N)); vz_stat("comparisons", ncmp); vz_sample("%zu elements of %zu bytes, pattern %d, %llu comparisons", N, ES, d, (unsigned long long)ncmp); done();
}
static void t_adv(void) { size_t i; ES = 4; N = 10 + vz_u(vz_thorough ? 4000 : 1500); mk(); for (i = 0; i < N; i++) { int x = (int)i; memcpy(B + 4 * i, &x, 4); } memcpy(B0, B, N * 4); aval = malloc(N * sizeof(int)); agas = (int)N + 1; asolid = 0; acand = 0; for (i = 0; i < N; i++) aval[i] = agas; bad[0] = 0; ncmp = 0;
    zpl_sort(B, (zpl_isize)N, 4, cmp_adv); VZ_CHECK(!bad[0], "bounds", "%s", bad); perm("sorting"); for (i = 1; i < N; i++) VZ_CHECK(cmp_adv(B + 4 * (i - 1), B + 4 * i) <= 0, "order", "adversarial order at %zu of %zu", i, N); vz_stat("adversarial comparisons", ncmp); vz_distinct(vz_hash(aval, N * sizeof(int), N)); free(aval); done(); }
#define PROVIDED(T, F, GEN) static void t_##F(void) { typedef struct { char pre[8]; T v; uint64_t id; } rec; rec *a; size_t i, n = anyn(); T *p; int off = vz_pct(50); T *q; if (off) { a = malloc(n * sizeof *a + 1); for (i = 0; i < n; i++) { memset(&a[i], 0, sizeof *a); a[i].v = (T)(GEN); a[i].id = i; } zpl_sort(a, (zpl_isize)n, sizeof(rec), F(zpl_offset_of(rec, v))); { unsigned char *u = calloc(n + 1, 1); for (i = 0; i < n; i++) { VZ_CHECK(a[i].id < n && !u[a[i].id], "permutation", #F); u[a[i].id] = 1; } free(u); } for (i = 1; i < n; i++) VZ_CHECK(a[i - 1].v <= a[i].v, "order", #F " at %zu of %zu", i, n); \
      if (n) { rec k = a[vz_u(n)]; zpl_isize r = zpl_binary_search(a, (zpl_isize)n, sizeof(rec), &k, F(zpl_offset_of(rec, v))); VZ_CHECK(r >= 0 && a[r].v == k.v, "search", #F); } free(a); } \
    else { p = malloc(n * sizeof *p + 1); q = malloc(n * sizeof *p + 1); for (i = 0; i < n; i++) q[i] = p[i] = (T)(GEN); zpl_sort_array(p, (zpl_isize)n, F(0)); for (i = 1; i < n; i++) VZ_CHECK(p[i - 1] <= p[i], "order", #F " at %zu of %zu", i, n); { double s = 0; for (i = 0; i < n; i++) s += (double)p[i] - 0; (void)s; } B = (void *)p; B0 = (void *)q; N = n; ES = sizeof(T); perm(#F); free(p); free(q); } vz_stat("provided comparison", 1); }
PROVIDED(zpl_i16, zpl_i16_cmp, vz_edge64()) PROVIDED(zpl_u8, zpl_u8_cmp, vz_r()) PROVIDED(zpl_i32, zpl_i32_cmp, vz_edge64()) PROVIDED(zpl_i64, zpl_i64_cmp, vz_edge64()) PROVIDED(zpl_isize, zpl_isize_cmp, vz_edge64())
static double anyf(void) { switch (vz_u(6)) { case 0: return 0.5; case 1: return -INFINITY; case 2: return INFINITY; case 3: return (double)vz_range(-3, 3) + 0.25; case 4: return ldexp(vz_unit() - 0.5, (int)vz_range(-100, 100)); default: return vz_unit(); } }
PROVIDED(zpl_f32, zpl_f32_cmp, anyf()) PROVIDED(zpl_f64, zpl_f64_cmp, anyf())
static void t_prov(void) { switch (vz_u(7)) { case 0: t_zpl_i16_cmp(); break; case 1: t_zpl_u8_cmp(); break; case 2: t_zpl_i32_cmp(); break; case 3: t_zpl_i64_cmp(); break; case 4: t_zpl_isize_cmp(); break; case 5: t_zpl_f32_cmp(); break; default: t_zpl_f64_cmp(); } }
static void t_str(void) { typedef struct { int x; char *s; } rec; size_t n = vz_u(100), i; rec *a = malloc(n * sizeof *a + 1); char **o = malloc(n * sizeof *o + 1); for (i = 0; i < n; i++) { char b[20]; size_t L = vz_u(6), k; for (k = 0; k < L; k++) b[k] = vz_pct(90) ? "ab"[vz_u(2)] : (char)vz_range(1, 255); b[L] = 0; a[i].s = o[i] = strdup(b); a[i].x = 0; } zpl_sort(a, (zpl_isize)n, sizeof *a, zpl_str_cmp(zpl_offset_of(rec, s))); for (i = 1; i < n; i++) VZ_CHECK(strcmp(a[i - 1].s, a[i].s) <= 0, "order", "strings '%s' and '%s'", vz_show(a[i - 1].s, strlen(a[i - 1].s)), vz_show(a[i].s, strlen(a[i].s)));
    for (i = 0; i < n; i++) { size_t k, c = 0; for (k = 0; k < n; k++) c += a[k].s == o[i]; VZ_CHECK(c == 1, "permutation", "a string appears %zu times", c); } for (i = 0; i < n; i++) free(o[i]); free(a); free(o); }
static uint64_t mask; static int q_u64(const void *a, const void *b) { uint64_t x = *(const uint64_t *)a, y = *(const uint64_t *)b; return x < y ? -1 : x > y; }
#define RADIX(T) { zpl_##T *p = malloc(n * sizeof *p + 1), *t = malloc(n * sizeof *p + 1); for (i = 0; i < n; i++) { p[i] = (zpl_##T)(w[i] & mask); w[i] = p[i]; } if (!n) vz_poison(p, 1); zpl_radix_sort(T)(p, t, (zpl_isize)n); if (!n) vz_unpoison(p, 1); qsort(w, n, 8, q_u64); for (i = 0; i < n; i++) VZ_CHECK(p[i] == w[i], "radix", #T " element %zu of %zu is %llu, expected %llu", i, n, (unsigned long long)p[i], (unsigned long long)w[i]); free(p); free(t); }
static void t_radix(void) { size_t n = anyn(), i; uint64_t *w = malloc(n * 8 + 1); mask = vz_pct(50) ? ~0ull : ~0ull >> vz_u(64); for (i = 0; i < n; i++) w[i] = vz_pct(60) ? vz_r() : vz_edge64(); vz_distinct(vz_hash(w, n * 8, 3)); switch (vz_u(4)) { case 0: RADIX(u8) break; case 1: RADIX(u16) break; case 2: RADIX(u32) break; default: RADIX(u64) } free(w); }
static void t_move(void) { size_t i; ES = 1 + vz_u(vz_pct(80) ? 40 : 600); N = vz_pct(60) ? vz_u(12) : vz_u(400); mk(); memcpy(B0, B, N * ES);
    if (vz_pct(50)) { zpl_reverse(B, (zpl_isize)N, (zpl_isize)ES); for (i = 0; i < N; i++) VZ_CHECK(!memcmp(B + i * ES, B0 + (N - 1 - i) * ES, ES), "reverse", "element %zu of %zu (%zu bytes)", i, N, ES); zpl_reverse(B, (zpl_isize)N, (zpl_isize)ES); VZ_CHECK(!memcmp(B, B0, N * ES), "reverse", "twice is not the identity"); }
    else { zpl_shuffle(B, (zpl_isize)N, (zpl_isize)ES); perm("shuffling"); vz_stat("shuffles", 1); }
    vz_distinct(vz_hash(B0, N * ES, 5)); done(); }
/* every arrangement of a few elements, and every place for each of more of them, comes up about equally often: bounds more than ten standard deviations wide */
static void t_fair(void) {
    static const size_t sz[] = {1, 2, 3, 4, 8, 12, 16, 33}; size_t es = sz[vz_u(8)], n = vz_pct(60) ? 2 + vz_u(3) : 5 + vz_u(8), i, k, t, T = n < 5 ? 24000 : 2000 * n; unsigned *seen = calloc(256, sizeof *seen), *at = calloc(n * n, sizeof *at); unsigned char *e = malloc(n * es); double want, lo, hi; size_t f = 1, c = 0;
    for (t = 0; t < T; t++) { for (i = 0; i < n * es; i++) e[i] = (unsigned char)(i / es); zpl_shuffle(e, (zpl_isize)n, (zpl_isize)es); for (k = i = 0; i < n; i++) { VZ_CHECK(e[i * es] < n, "permutation", "element %zu holds %u after shuffling %zu", i, e[i * es], n); at[e[i * es] * n + i]++; if (n < 5) k = k * 4 + e[i * es]; } if (n < 5) seen[k]++; }
    want = (double)T / (double)n; lo = want * 0.7; hi = want * 1.3; for (i = 0; i < n * n; i++) VZ_CHECK(at[i] > lo && at[i] < hi, "unfair", "shuffling %zu elements %zu times put element %zu at place %zu %u times, about %.0f expected", n, T, i / n, i % n, at[i], want);
    if (n < 5) { for (i = 2; i <= n; i++) f *= i; want = (double)T / (double)f; for (i = 0; i < 256; i++) if (seen[i]) { c++; VZ_CHECK(seen[i] > want * 0.6 && seen[i] < want * 1.4, "unfair", "of %zu shuffles of %zu elements one arrangement came up %u times, about %.0f expected", T, n, seen[i], want); } VZ_CHECK(c == f, "unfair", "%zu shuffles of %zu elements gave only %zu of %zu arrangements", T, n, c, f); }
    vz_stat("shuffles counted", T); vz_distinct(n * 1000 + es); free(seen); free(at); free(e);
}
VZ_MAIN({"sort", t_sort, 40}, {"adversary", t_adv, 1}, {"provided", t_prov, 20}, {"strings", t_str, 4}, {"radix", t_radix, 15}, {"reverse/shuffle", t_move, 20}, {"fair", t_fair, 1})
