/* checksums and hashes against bit-by-bit references */
#include "vz.h"
static uint32_t r_adler(const uint8_t *p, size_t n) { uint64_t a = 1, b = 0; while (n--) { a = (a + *p++) % 65521; b = (b + a) % 65521; } return (uint32_t)(b << 16 | a); }
static uint32_t r_crc32(const uint8_t *p, size_t n) { uint32_t c = ~0u; int k; while (n--) { c ^= *p++; for (k = 0; k < 8; k++) c = c & 1 ? c >> 1 ^ 0xEDB88320u : c >> 1; } return ~c; }
static uint64_t r_crc64(const uint8_t *p, size_t n) { uint64_t c = 0; int k; while (n--) { c ^= *p++; for (k = 0; k < 8; k++) c = c & 1 ? c >> 1 ^ 0x95AC9329AC4BC9B5ull : c >> 1; } return c; }
static uint32_t r_f32(const uint8_t *p, size_t n, int a) { uint32_t h = 2166136261u; while (n--) { if (a) { h ^= *p++; h *= 16777619u; } else { h *= 16777619u; h ^= *p++; } } return h; }
static uint64_t r_f64(const uint8_t *p, size_t n, int a) { uint64_t h = 14695981039346656037ull; while (n--) { if (a) { h ^= *p++; h *= 1099511628211ull; } else { h *= 1099511628211ull; h ^= *p++; } } return h; }
static uint32_t rol(uint32_t x, int k) { return x << k | x >> (32 - k); }
static uint32_t r_m32(const uint8_t *p, size_t n, uint32_t h) { size_t L = n; uint32_t k; while (n >= 4) { k = (uint32_t)p[0] | (uint32_t)p[1] << 8 | (uint32_t)p[2] << 16 | (uint32_t)p[3] << 24; k *= 0xcc9e2d51u; k = rol(k, 15); k *= 0x1b873593u; h ^= k; h = rol(h, 13); h = h * 5 + 0xe6546b64u; p += 4; n -= 4; }
    k = 0; if (n == 3) k ^= (uint32_t)p[2] << 16; if (n >= 2) k ^= (uint32_t)p[1] << 8; if (n >= 1) { k ^= p[0]; k *= 0xcc9e2d51u; k = rol(k, 15); k *= 0x1b873593u; h ^= k; } h ^= (uint32_t)L; h ^= h >> 16; h *= 0x85ebca6bu; h ^= h >> 13; h *= 0xc2b2ae35u; h ^= h >> 16; return h; }
/* MurmurHash64A; head: where the last partial word is read from (the recorded defect reads it from the start) */
static uint64_t r_m64(const uint8_t *p, size_t n, uint64_t seed, int wrongtail) { const uint64_t m = 0xc6a4a7935bd1e995ull; const uint8_t *s = p; uint64_t h = seed ^ n * m; size_t i; while (n >= 8) { uint64_t k = 0; for (i = 0; i < 8; i++) k |= (uint64_t)p[i] << (8 * i); k *= m; k ^= k >> 47; k *= m; h ^= k; h *= m; p += 8; n -= 8; } if (wrongtail) p = s; if (n) { for (i = 0; i < n; i++) h ^= (uint64_t)p[i] << (8 * i); h *= m; } h ^= h >> 47; h *= m; h ^= h >> 47; return h; }
static void t_one(void) {
    size_t n = vz_pct(4) ? vz_near2(8, 16) : vz_pct(60) ? vz_u(80) : vz_pct(90) ? vz_u(700) : vz_pct(60) ? 5552 * vz_u(5) + vz_u(20) : vz_u(40000), al = vz_u(16), i; unsigned char *blk = malloc(n + al + 1), *p = blk + al, *keep; uint64_t sd = vz_edge64(); uint32_t sd32 = (uint32_t)sd; char w[80]; uint64_t g64, x64;
    if (vz_pct(15)) memset(p, vz_pct(50) ? 0xff : 0, n); else for (i = 0; i < n; i++) p[i] = (unsigned char)vz_r(); { unsigned char *q = malloc(n + al ? n + al : 1); memcpy(q + al, p, n); free(blk); blk = q; p = q + al; } keep = malloc(n + 1); memcpy(keep, p, n); if (n + al == 0) vz_poison(blk, 1); else if (al) vz_poison(blk, al & ~7u);
    snprintf(w, sizeof w, "%zu bytes at offset %zu", n, al);
#define EQ(f, r) do { uint64_t g_ = (f), x_ = (r); VZ_CHECK(g_ == x_, #f, "%s: %llx, expected %llx", w, (unsigned long long)g_, (unsigned long long)x_); } while (0)
    { zpl_u32 v; v = zpl_adler32(p, (zpl_isize)n); VZ_CHECK(v == r_adler(keep, n), "adler32", "%s: %x, expected %x", w, v, r_adler(keep, n)); v = zpl_crc32(p, (zpl_isize)n); VZ_CHECK(v == r_crc32(keep, n), "crc32", "%s", w); v = zpl_fnv32(p, (zpl_isize)n); VZ_CHECK(v == r_f32(keep, n, 0), "fnv32", "%s", w); v = zpl_fnv32a(p, (zpl_isize)n); VZ_CHECK(v == r_f32(keep, n, 1), "fnv32a", "%s", w);
      v = zpl_murmur32_seed(p, (zpl_isize)n, sd32); VZ_CHECK(v == r_m32(keep, n, sd32), "murmur32", "%s seed %x: %x, expected %x", w, sd32, v, r_m32(keep, n, sd32)); v = zpl_murmur32(p, (zpl_isize)n); VZ_CHECK(v == r_m32(keep, n, 0x9747b28c), "murmur32", "%s default seed", w); }
    x64 = zpl_crc64(p, (zpl_isize)n); VZ_CHECK(x64 == r_crc64(keep, n), "crc64", "%s", w); x64 = zpl_fnv64(p, (zpl_isize)n); VZ_CHECK(x64 == r_f64(keep, n, 0), "fnv64", "%s", w); x64 = zpl_fnv64a(p, (zpl_isize)n); VZ_CHECK(x64 == r_f64(keep, n, 1), "fnv64a", "%s", w);
    g64 = zpl_murmur64_seed(p, (zpl_isize)n, sd); if (g64 != r_m64(keep, n, sd, 0)) { if (g64 == r_m64(keep, n, sd, 1)) vz_report("murmur64-tail", "%s: the last %zu bytes are taken from the start of the data", w, n % 8); else VZ_FAIL("murmur64", "%s seed %llx: %llx, expected %llx", w, (unsigned long long)sd, (unsigned long long)g64, (unsigned long long)r_m64(keep, n, sd, 0)); }
    g64 = zpl_murmur64(p, (zpl_isize)n); if (g64 != r_m64(keep, n, 0x9747b28c, 0) && g64 != r_m64(keep, n, 0x9747b28c, 1)) VZ_FAIL("murmur64", "%s default seed", w);
    VZ_CHECK(!memcmp(p, keep, n), "changed", "the data was changed"); vz_distinct(vz_hash(keep, n, al)); vz_sample("%s", w); vz_unpoison(blk, al ? al : 1); free(blk); free(keep);
}
static void t_vec(void) { VZ_CHECK(zpl_crc32("123456789", 9) == 0xCBF43926u, "crc32", "check value"); VZ_CHECK(zpl_crc64("123456789", 9) == 0xe9c6d914c4b8d9caull, "crc64", "check value"); VZ_CHECK(zpl_adler32("Wikipedia", 9) == 0x11E60398u, "adler32", "published"); VZ_CHECK(zpl_fnv32a("a", 1) == 0xe40c292cu && zpl_fnv32("a", 1) == 0x050c5d7eu, "fnv32", "published"); VZ_CHECK(zpl_fnv64a("a", 1) == 0xaf63dc4c8601ec8cull && zpl_fnv64("a", 1) == 0xaf63bd4c8601b7beull, "fnv64", "published"); VZ_CHECK(zpl_murmur32_seed("test", 4, 0) == 0xba6bd213u && zpl_murmur32_seed("", 0, 1) == 0x514E28B7u, "murmur32", "published"); }
VZ_MAIN({"inputs", t_one, 2000}, {"published values", t_vec, 1})
