/* objects of more than two and four gigabytes: their middle is one stretch of memory mapped again and again, so they cost no memory; both ends are their own */
#define VZ_CPU_LIMIT 100
#include "vz.h"
#include <dirent.h>
#define CH ((size_t)8 << 20)
typedef struct gi { unsigned char *p; size_t n, map; struct gi *next; } gi;
static gi *G; static size_t glive;
static unsigned char *gmk(size_t n) {
    size_t k = (n + CH - 1) / CH, i; gi *g = calloc(1, sizeof *g); int fd = memfd_create("vz", 0);
    if (k < 5) k = 5; g->map = k * CH; g->n = n; if (fd < 0 || ftruncate(fd, (off_t)CH)) VZ_BROKEN("memfd");
    g->p = mmap(0, g->map, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0); if (g->p == MAP_FAILED) VZ_BROKEN("map");
    for (i = 1; i < k - 2; i++) if (mmap(g->p + i * CH, CH, PROT_READ | PROT_WRITE, MAP_SHARED | MAP_FIXED, fd, 0) == MAP_FAILED) VZ_BROKEN("map");
    close(fd); g->next = G; G = g; glive++; return g->p;
}
static gi *gof(void *p) { gi *g; for (g = G; g; g = g->next) if (g->p == (unsigned char *)p) return g; return 0; }
static void gfree(void *p) { gi **q, *g; for (q = &G; *q; q = &(*q)->next) if ((*q)->p == (unsigned char *)p) { g = *q; *q = g->next; munmap(g->p, g->map); free(g); glive--; return; } VZ_BROKEN("gfree"); }
static void gclear(void) { while (G) gfree(G->p); }
static void gfill(unsigned char *p, int v) { gi *g = gof(p); memset(p, v, 2 * CH); memset(p + g->map - 2 * CH, v, 2 * CH); }
static int flat(const unsigned char *p, size_t n, int v) { size_t i; for (i = 0; i < n; i++) if (p[i] != (unsigned char)v) return 0; return 1; }
/* every byte of [a,b) that has memory of its own, and the shared middle, is v */
static int gflat(unsigned char *p, size_t a, size_t b, int v) { gi *g = gof(p); size_t t = g->map - 2 * CH; if (a < CH && !flat(p + a, CH - a, v)) return 0; if (!flat(p + CH, CH, v)) return 0; return b <= t || flat(p + t, b - t, v); }
static int want; /* the variant this case visits */
static size_t big(void) { uint64_t k = vz_u(10); return k < 4 ? ((size_t)1 << 31) - 40 + vz_u(k < 2 ? 200 : 500000) : ((size_t)1 << 32) - 40 + vz_u(k < 7 ? 200 : 500000); }
static void note(const char *what, size_t n) { vz_stat("gigabytes handled", n >> 30); vz_distinct(vz_hash(what, strlen(what), n)); vz_sample("%s: %zu bytes", what, n); }
/* an allocator whose large blocks are such objects */
static size_t gsmall; static ZPL_ALLOCATOR_PROC(gproc) {
    unsigned char *q; (void)allocator_data; (void)alignment; (void)flags; (void)old_size;
    switch (type) {
    case ZPL_ALLOCATION_ALLOC: if (size < (zpl_isize)CH) { gsmall++; return calloc(1, (size_t)size + 1); } return gmk((size_t)size);
    case ZPL_ALLOCATION_FREE: if (!old_memory) return 0; if (gof(old_memory)) gfree(old_memory); else { gsmall--; free(old_memory); } return 0;
    case ZPL_ALLOCATION_RESIZE: q = size < (zpl_isize)CH ? (gsmall++, calloc(1, (size_t)size + 1)) : gmk((size_t)size); if (old_memory) { size_t o = gof(old_memory) ? gof(old_memory)->n : (size_t)old_size; memmove(q, old_memory, o < (size_t)size ? o : (size_t)size); if (gof(old_memory)) gfree(old_memory); else { gsmall--; free(old_memory); } } return q;
    default: return 0; }
}
static zpl_allocator galloc(void) { zpl_allocator a; a.proc = gproc; a.data = 0; gclear(); gsmall = 0; return a; }
static void gnone(const char *what) { VZ_CHECK(!glive && !gsmall, "leak", "%s left %zu large and %zu small blocks", what, glive, gsmall); }

static void t_set(void) {
    size_t n = big(), off = vz_u(70); unsigned char *p = gmk(off + n + 64), *q; gfill(p, 0x11);
    if (want == 0) { int v = (int)vz_u(256) | 1; v = v == 0x11 ? 0x13 : v; VZ_CHECK(zpl_memset(p + off, (zpl_u8)v, (zpl_isize)n) == p + off, "memset", "result"); VZ_CHECK(flat(p, off, 0x11) && flat(p + off + n, 64, 0x11), "memset", "%zu bytes: wrote outside", n); VZ_CHECK(gflat(p, off, off + n, v), "memset", "not all of %zu bytes were set", n); note("set", n); }
    else { zpl_zero_size(p + off, (zpl_isize)n); VZ_CHECK(flat(p, off, 0x11) && flat(p + off + n, 64, 0x11), "zero", "%zu bytes: wrote outside", n); VZ_CHECK(gflat(p, off, off + n, 0), "zero", "not all of %zu bytes were cleared", n); note("zero", n); }
    (void)q; gclear();
}
static void ends(unsigned char *p, size_t n, unsigned char keep[2][4096]) { int i; for (i = 0; i < 4096; i++) { keep[0][i] = p[i] = (unsigned char)vz_r(); keep[1][i] = p[n - 4096 + (size_t)i] = (unsigned char)vz_r(); } }
static void t_copy(void) {
    static unsigned char k[2][4096], l[2][4096]; size_t n = big(), so = vz_u(20), dof = vz_u(20); int how = want; unsigned char *s = gmk(n + 200), *d = how < 3 ? gmk(n + 200) : 0; void *r;
    gfill(s, 0x22); ends(s + so, n, k);
    if (how < 2) { gfill(d, 0x33); r = how ? zpl_memmove(d + dof, s + so, (zpl_isize)n) : zpl_memcopy(d + dof, s + so, (zpl_isize)n); VZ_CHECK(r == d + dof, "copy", "result");
        VZ_CHECK(flat(d, dof, 0x33) && flat(d + dof + n, 100, 0x33), "copy", "%zu bytes: wrote outside", n); VZ_CHECK(!memcmp(d + dof, k[0], 4096) && !memcmp(d + dof + n - 4096, k[1], 4096) && gflat(d, dof + 4096, dof + n - 4096, 0x22), "copy", "%s of %zu bytes is not a copy", how ? "memmove" : "memcopy", n); note(how ? "move" : "copy", n); }
    else if (how == 2) { gfill(d, 0x44); ends(d + dof, n, l); zpl_memswap(s + so, d + dof, (zpl_isize)n); VZ_CHECK(!memcmp(d + dof, k[0], 4096) && !memcmp(d + dof + n - 4096, k[1], 4096) && !memcmp(s + so, l[0], 4096) && !memcmp(s + so + n - 4096, l[1], 4096), "swap", "%zu bytes were not exchanged", n); VZ_CHECK(flat(d, dof, 0x44) && flat(d + dof + n, 100, 0x44) && flat(s, so, 0x22) && flat(s + so + n, 100, 0x22), "swap", "wrote outside"); note("swap", n); }
    else { size_t by = 1 + vz_u(100); int up = vz_pct(50); unsigned char *a = s + so + (up ? 0 : by), *b = s + so + (up ? by : 0); gfill(s, 0x22); ends(a, n, k); zpl_memmove(b, a, (zpl_isize)n);
        VZ_CHECK(!memcmp(b, k[0], 4096) && !memcmp(b + n - 4096, k[1], 4096) && gflat(s, (size_t)(b - s) + 8192, (size_t)(b - s) + n - 8192, 0x22), "move", "%zu bytes moved by %zu %s", n, by, up ? "up" : "down"); note("overlapping move", n); }
    gclear();
}
static void t_find(void) {
    size_t n = big(), o = vz_u(20), o2 = vz_u(20); unsigned char *p = gmk(n + 100), *q; int how = want; gfill(p, 'a');
    switch (how) {
    case 0: p[o + n - 1] = 'z'; VZ_CHECK(zpl_memchr(p + o, 'z', (zpl_isize)n) == p + o + n - 1 && !zpl_memchr(p + o, 'z', (zpl_isize)n - 1), "memchr", "the last of %zu bytes", n); break;
    case 1: p[o] = 'z'; VZ_CHECK(zpl_memrchr(p + o, 'z', (zpl_isize)n) == p + o && !zpl_memrchr(p + o + 1, 'z', (zpl_isize)n - 1), "memrchr", "the first of %zu bytes", n); break;
    case 2: q = gmk(n + 100); gfill(q, 'a'); VZ_CHECK(zpl_memcompare(p + o, q + o2, (zpl_isize)n) == 0, "memcompare", "%zu equal bytes", n); q[o2 + n - 1] = 'b'; VZ_CHECK(zpl_memcompare(p + o, q + o2, (zpl_isize)n) < 0 && zpl_memcompare(q + o2, p + o, (zpl_isize)n) > 0, "memcompare", "the last of %zu bytes differs", n); break;
    case 3: p[o + n] = 0; VZ_CHECK(zpl_strlen((char *)p + o) == (zpl_isize)n, "strlen", "%lld for %zu", (long long)zpl_strlen((char *)p + o), n); VZ_CHECK(zpl_strnlen((char *)p + o, (zpl_isize)(n - 7)) == (zpl_isize)(n - 7) && zpl_strnlen((char *)p + o, (zpl_isize)(n + 7)) == (zpl_isize)n, "strnlen", "%zu", n); break;
    case 4: q = gmk(n + 100); gfill(q, 'a'); p[o + n] = 0; q[o2 + n] = 0; VZ_CHECK(zpl_strncmp((char *)p + o, (char *)q + o2, (zpl_isize)n + 9) == 0, "strncmp", "%zu equal characters", n); q[o2 + n - 1] = 'b'; VZ_CHECK(zpl_strncmp((char *)p + o, (char *)q + o2, (zpl_isize)n - 1) == 0 && zpl_strncmp((char *)p + o, (char *)q + o2, (zpl_isize)n) < 0 && zpl_strcmp((char *)q + o2, (char *)p + o) > 0, "strncmp", "the last of %zu differs", n); break;
    case 5: p[o + n] = 0; p[o + n - 1] = 'z'; p[o] = 'y'; VZ_CHECK(zpl_char_first_occurence((char *)p + o, 'z') == (char *)p + o + n - 1 && zpl_char_last_occurence((char *)p + o, 'y') == (char *)p + o, "occurrence", "in %zu characters", n); break;
    default: p[o + n] = 0; VZ_CHECK(zpl_utf8_strlen(p + o) == (zpl_isize)n, "utf8_strlen", "%zu", n); break; }
    { static const char *nm[] = {"memchr", "memrchr", "memcompare", "strlen", "strncmp", "occurrence", "utf8_strlen"}; note(nm[how], n); } gclear();
}
/* checksums: the middle is zero, over which every reference can leap */
static uint64_t mulp(uint64_t h, uint64_t p, size_t k, int bits) { uint64_t r = 1; while (k) { if (k & 1) r *= p; p *= p; k >>= 1; } h *= r; return bits == 32 ? (uint32_t)h : h; }
static uint64_t gf_leap(uint64_t crc, uint64_t poly, int bits, size_t zeros) { /* the register after that many zero bytes: a linear map, squared again and again */
    static uint64_t m[64], t[64]; int i, j; uint64_t z = (uint64_t)zeros * 8; for (i = 0; i < bits; i++) { uint64_t v = 1ull << i; m[i] = v & 1 ? (v >> 1) ^ poly : v >> 1; }
    while (z) { if (z & 1) { uint64_t r = 0; for (i = 0; i < bits; i++) if (crc >> i & 1) r ^= m[i]; crc = r; } for (i = 0; i < bits; i++) { uint64_t r = 0; for (j = 0; j < bits; j++) if (m[i] >> j & 1) r ^= m[j]; t[i] = r; } memcpy(m, t, sizeof m); z >>= 1; } return crc; }
static uint64_t crcs(const unsigned char *b, size_t n, uint64_t c, uint64_t poly) { size_t i; int k; for (i = 0; i < n; i++) { c ^= b[i]; for (k = 0; k < 8; k++) c = c & 1 ? (c >> 1) ^ poly : c >> 1; } return c; }
static void t_hash(void) {
    static unsigned char k[2][4096]; size_t n = big(), mid = n - 8192, i; unsigned char *p = gmk(n + 8); int how = want; ends(p, n, k);
    switch (how) {
    case 0: { uint64_t a = 1, b = 0; uint32_t g; for (i = 0; i < 4096; i++) { a = (a + k[0][i]) % 65521; b = (b + a) % 65521; } b = (b + mid % 65521 * a) % 65521; for (i = 0; i < 4096; i++) { a = (a + k[1][i]) % 65521; b = (b + a) % 65521; } g = zpl_adler32(p, (zpl_isize)n); VZ_CHECK(g == (uint32_t)(b << 16 | a), "adler32", "%zu bytes gave %08x instead of %08x", n, g, (uint32_t)(b << 16 | a)); } break;
    case 1: { uint64_t c = crcs(k[0], 4096, 0xffffffffu, 0xedb88320u); uint32_t g; c = gf_leap(c, 0xedb88320u, 32, mid); c = crcs(k[1], 4096, c, 0xedb88320u) ^ 0xffffffffu; g = zpl_crc32(p, (zpl_isize)n); VZ_CHECK(g == (uint32_t)c, "crc32", "%zu bytes gave %08x instead of %08x", n, g, (uint32_t)c); } break;
    case 2: { uint64_t poly = 0x95AC9329AC4BC9B5ull, c = crcs(k[0], 4096, 0, poly), g; c = gf_leap(c, poly, 64, mid); c = crcs(k[1], 4096, c, poly); g = zpl_crc64(p, (zpl_isize)n); VZ_CHECK(g == c, "crc64", "%zu bytes gave %016llx instead of %016llx", n, (unsigned long long)g, (unsigned long long)c); } break;
    case 3: case 4: { uint32_t h = 0x811c9dc5u, pr = 0x01000193u, g; for (i = 0; i < 4096; i++) h = how == 3 ? (h * pr) ^ k[0][i] : (h ^ k[0][i]) * pr; h = (uint32_t)mulp(h, pr, mid, 32); for (i = 0; i < 4096; i++) h = how == 3 ? (h * pr) ^ k[1][i] : (h ^ k[1][i]) * pr; g = how == 3 ? zpl_fnv32(p, (zpl_isize)n) : zpl_fnv32a(p, (zpl_isize)n); VZ_CHECK(g == h, "fnv32", "%zu bytes, %d", n, how); } break;
    case 5: case 6: { uint64_t h = 0xcbf29ce484222325ull, pr = 0x100000001b3ull, g; for (i = 0; i < 4096; i++) h = how == 5 ? (h * pr) ^ k[0][i] : (h ^ k[0][i]) * pr; h = mulp(h, pr, mid, 64); for (i = 0; i < 4096; i++) h = how == 5 ? (h * pr) ^ k[1][i] : (h ^ k[1][i]) * pr; g = how == 5 ? zpl_fnv64(p, (zpl_isize)n) : zpl_fnv64a(p, (zpl_isize)n); VZ_CHECK(g == h, "fnv64", "%zu bytes, %d", n, how); } break;
    case 7: { uint32_t sd = (uint32_t)vz_r(), h = sd, w, g; const unsigned char *t = p + n / 4 * 4; for (i = 0; i < n / 4; i++) { memcpy(&w, p + i * 4, 4); w *= 0xcc9e2d51u; w = w << 15 | w >> 17; w *= 0x1b873593u; h ^= w; h = h << 13 | h >> 19; h = h * 5 + 0xe6546b64u; }
        w = 0; switch (n & 3) { case 3: w ^= (uint32_t)t[2] << 16; /* fall through */ case 2: w ^= (uint32_t)t[1] << 8; /* fall through */ case 1: w ^= t[0]; w *= 0xcc9e2d51u; w = w << 15 | w >> 17; w *= 0x1b873593u; h ^= w; } h ^= (uint32_t)n; h ^= h >> 16; h *= 0x85ebca6bu; h ^= h >> 13; h *= 0xc2b2ae35u; h ^= h >> 16; g = zpl_murmur32_seed(p, (zpl_isize)n, sd); VZ_CHECK(g == h, "murmur32", "%zu bytes gave %08x instead of %08x", n, g, h); } break;
    default: { uint64_t sd = vz_r(), m = 0xc6a4a7935bd1e995ull, h, w, g; n &= ~(size_t)7; h = sd ^ (n * m); for (i = 0; i < n / 8; i++) { memcpy(&w, p + i * 8, 8); w *= m; w ^= w >> 47; w *= m; h ^= w; h *= m; } h ^= h >> 47; h *= m; h ^= h >> 47; g = zpl_murmur64_seed(p, (zpl_isize)n, sd); VZ_CHECK(g == h, "murmur64", "%zu bytes gave %016llx instead of %016llx", n, (unsigned long long)g, (unsigned long long)h); } }
    { static const char *nm[] = {"adler32", "crc32", "crc64", "fnv32", "fnv32a", "fnv64", "fnv64a", "murmur32", "murmur64"}; note(nm[how], n); } gclear();
}
/* managed allocators over one large region, of which only the ends of the blocks are touched */
typedef struct { unsigned char *p; size_t n; uint64_t t; } blk;
static void t_arena(void) {
    size_t n = big() * (1 + vz_u(3)), used = 0, k; int kind = (int)vz_u(3), i, nb = 0; static blk b[64]; zpl_arena A; zpl_stack_memory S; zpl_scratch_memory C; zpl_allocator a; zpl_arena_snapshot tm; size_t tmu = 0; int tmn = -1;
    unsigned char *m = mmap(0, n, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0); if (m == MAP_FAILED) { vz_stat("regions refused", 1); return; }
    memset(&tm, 0, sizeof tm);
    switch (kind) { case 0: zpl_arena_init_from_memory(&A, m, (zpl_isize)n); a = zpl_arena_allocator(&A); break; case 1: zpl_stack_memory_init_from_memory(&S, m, (zpl_isize)n); a = zpl_stack_allocator(&S); break; default: zpl_scratch_memory_init(&C, m, (zpl_isize)n); a = zpl_scratch_allocator(&C); }
    for (i = 0; i < 40 && nb < 60; i++) { size_t sz = vz_pct(40) ? 1 + vz_u(1000) : vz_pct(50) ? n / 8 + vz_u(n / 4) : big() / (1 + vz_u(3)), al = (size_t)16 << vz_u(8); unsigned char *p; int j; uint64_t g;
        if (kind == 1 && nb && vz_pct(30)) { nb--; memcpy(&g, b[nb].p, 8); (void)g; a.proc(a.data, ZPL_ALLOCATION_FREE, 0, 0, b[nb].p, (zpl_isize)b[nb].n, 0); used -= b[nb].n; continue; }
        if (kind == 2 && nb && vz_pct(40)) { for (j = 1; j < nb; j++) ; a.proc(a.data, ZPL_ALLOCATION_FREE, 0, 0, b[0].p, (zpl_isize)b[0].n, 0); used -= b[0].n; memmove(b, b + 1, sizeof *b * (size_t)(--nb)); continue; }
        if (kind == 0 && vz_pct(15)) { if (tmn < 0) { tm = zpl_arena_snapshot_begin(&A); tmn = nb; tmu = used; } else { zpl_arena_snapshot_end(tm); nb = tmn; used = tmu; tmn = -1; } continue; }
        if (sz < 16) sz = 16;
        if (kind == 1 && used + sz + (size_t)(nb + 1) * (al + 5000) >= n) continue; /* growing is for stacks with a parent */
        if (kind == 0) { zpl_isize r = zpl_arena_size_remaining(&A, (zpl_isize)al); VZ_CHECK(r >= 0 ? (size_t)r <= n - used && (size_t)r + 64 * al + used >= n - 4096 * 64 : n - used < al, "remaining", "%lld of %zu with %zu in use", (long long)r, n, used); }
        p = a.proc(a.data, ZPL_ALLOCATION_ALLOC, (zpl_isize)sz, (zpl_isize)al, 0, 0, 0);
        if (!p) { if (kind < 2) VZ_CHECK(used + sz + (size_t)(nb + 1) * (al + 5000) >= n, "refused", "%zu bytes refused with %zu of %zu in use", sz, used, n); vz_stat("refusals", 1); continue; }
        VZ_CHECK(p >= m && p + sz <= m + n, "bounds", "a block of %zu bytes at %lld of a region of %zu", sz, (long long)(p - m), n); VZ_CHECK((uintptr_t)p % al == 0, "alignment", "%p for %zu", (void *)p, al);
        for (j = 0; j < nb; j++) VZ_CHECK(p >= b[j].p + b[j].n || b[j].p >= p + sz, "overlap", "a block of %zu bytes at %lld overlaps one of %zu at %lld (region of %zu)", sz, (long long)(p - m), b[j].n, (long long)(b[j].p - m), n);
        b[nb].p = p; b[nb].n = sz; b[nb].t = vz_r(); memcpy(p, &b[nb].t, 8); memcpy(p + sz - 8, &b[nb].t, 8); nb++; used += sz; vz_stat("large blocks", sz > (1u << 30));
        for (j = 0; j < nb; j++) { memcpy(&g, b[j].p, 8); VZ_CHECK(g == b[j].t || b[j].n < 16, "contents", "a block of %zu bytes changed", b[j].n); memcpy(&g, b[j].p + b[j].n - 8, 8); VZ_CHECK(g == b[j].t, "contents", "the end of a block of %zu bytes changed", b[j].n); }
    }
    k = used; munmap(m, n); note(kind == 0 ? "arena" : kind == 1 ? "stack" : "scratch", n + k % 7);
}
static size_t pl_n; static void *pl_p; static ZPL_ALLOCATOR_PROC(pproc) { (void)allocator_data; (void)alignment; (void)old_memory; (void)old_size; (void)flags; if (type == ZPL_ALLOCATION_ALLOC) { pl_n = (size_t)size; pl_p = mmap(0, pl_n, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0); return pl_p == MAP_FAILED ? 0 : pl_p; } if (type == ZPL_ALLOCATION_FREE) { munmap(pl_p, pl_n); pl_n = 0; } return 0; }
static void t_pool(void) {
    zpl_pool P; zpl_allocator back, a; size_t nb = 2 + vz_u(6), bs = vz_pct(50) ? big() / nb + vz_u(1000) : vz_pct(50) ? big() / 4 + vz_u(99999) : big(), i, j; unsigned char *b[8]; uint64_t t[8], g; back.proc = pproc; back.data = 0; bs &= ~(size_t)15;
    zpl_pool_init(&P, back, (zpl_isize)nb, (zpl_isize)bs); if (pl_p == MAP_FAILED) { vz_stat("regions refused", 1); return; } a = zpl_pool_allocator(&P);
    VZ_CHECK(pl_n >= nb * bs, "pool-size", "%zu blocks of %zu bytes in %zu", nb, bs, pl_n);
    for (i = 0; i < nb; i++) { b[i] = a.proc(a.data, ZPL_ALLOCATION_ALLOC, (zpl_isize)bs, 16, 0, 0, 0); VZ_CHECK(b[i], "pool", "block %zu of %zu refused", i, nb); VZ_CHECK(b[i] >= (unsigned char *)pl_p && b[i] + bs <= (unsigned char *)pl_p + pl_n, "bounds", "block %zu of %zu (%zu bytes each) at %lld of %zu", i, nb, bs, (long long)(b[i] - (unsigned char *)pl_p), pl_n);
        for (j = 0; j < i; j++) VZ_CHECK(b[j] + bs <= b[i] || b[i] + bs <= b[j], "overlap", "blocks %zu and %zu of %zu bytes", i, j, bs); t[i] = vz_r(); memcpy(b[i], &t[i], 8); memcpy(b[i] + bs - 8, &t[i], 8); }
    for (i = 0; i < nb; i++) { memcpy(&g, b[i], 8); VZ_CHECK(g == t[i], "contents", "block %zu", i); memcpy(&g, b[i] + bs - 8, 8); VZ_CHECK(g == t[i], "contents", "the end of block %zu", i); }
    for (i = 0; i < nb; i++) a.proc(a.data, ZPL_ALLOCATION_FREE, 0, 0, b[i], (zpl_isize)bs, 0); zpl_pool_free(&P); VZ_CHECK(!pl_n, "leak", "the pool kept its region"); note("pool", nb * bs);
}
static void t_array(void) {
    zpl_allocator a = galloc(); size_t n = big(), k = vz_u(50), i; zpl_u8 *x = 0, *y = 0; unsigned char *src = gmk(n + 64); static unsigned char e[2][4096]; gfill(src, 'q'); ends(src, n, e);
    switch (want) {
    case 0: VZ_CHECK(zpl_array_init_reserve(x, a, (zpl_isize)(k + 4)), "init", "refused"); for (i = 0; i < k; i++) zpl_array_append(x, (zpl_u8)i); VZ_CHECK(zpl_array_appendv(x, src, (zpl_isize)n), "appendv", "refused"); VZ_CHECK(zpl_array_count(x) == (zpl_isize)(n + k) && zpl_array_capacity(x) >= zpl_array_count(x), "count", "%lld for %zu", (long long)zpl_array_count(x), n + k); for (i = 0; i < k; i++) VZ_CHECK(x[i] == i, "contents", "element %zu", i);
        VZ_CHECK(!memcmp(x + k, e[0], 4096) && !memcmp(x + k + n - 4096, e[1], 4096), "contents", "appending %zu elements", n); zpl_array_append(x, 7); VZ_CHECK(zpl_array_back(x) == 7 && *zpl_array_end(x) == 7 && x[n + k] == 7, "back", "after %zu elements", n + k); zpl_array_pop(x); VZ_CHECK(zpl_array_count(x) == (zpl_isize)(n + k) && zpl_array_back(x) == e[1][4095], "pop", "%zu", n + k); break;
    case 1: VZ_CHECK(zpl_array_init_reserve(x, a, (zpl_isize)n + 10), "init", "refused"); VZ_CHECK(zpl_array_capacity(x) >= (zpl_isize)n + 10, "capacity", "%lld for %zu", (long long)zpl_array_capacity(x), n + 10); VZ_CHECK(zpl_array_resize(x, (zpl_isize)n) && zpl_array_count(x) == (zpl_isize)n, "resize", "%lld for %zu", (long long)zpl_array_count(x), n); zpl_array_fill(x, (zpl_isize)n - 100, (zpl_isize)n, (zpl_u8)'f'); VZ_CHECK(flat(x + n - 100, 100, 'f') && x[n - 101] == 0, "fill", "the end of %zu", n);
        x[n - 1] = 'l'; zpl_array_append_at(x, 'i', (zpl_isize)n - 50); VZ_CHECK(x[n - 50] == 'i' && x[n] == 'l' && x[n - 51] == 'f' && zpl_array_count(x) == (zpl_isize)n + 1, "append_at", "near the end of %zu", n); zpl_array_remove_at(x, (zpl_isize)n - 50); VZ_CHECK(x[n - 50] == 'f' && x[n - 1] == 'l' && zpl_array_count(x) == (zpl_isize)n, "remove_at", "near the end of %zu", n); zpl_array_appendv_at(x, "wxyz", 4, (zpl_isize)n - 20); VZ_CHECK(!memcmp(x + n - 21, "fwxyzf", 6) && x[n + 3] == 'l', "appendv_at", "near the end of %zu", n); break;
    case 2: VZ_CHECK(zpl_array_init_reserve(x, a, (zpl_isize)n), "init", "refused"); memcpy(x, e[0], 4096); zpl_array_resize(x, (zpl_isize)n); x[n - 1] = 'l'; VZ_CHECK(zpl_array_copy_init(y, x), "copy_init", "refused"); VZ_CHECK(zpl_array_count(y) == (zpl_isize)n && !memcmp(y, e[0], 4096) && y[n - 1] == 'l', "copy_init", "%zu elements", n); zpl_array_free(y); VZ_CHECK(zpl_array_set_capacity(x, (zpl_isize)n + 5000) && zpl_array_count(x) == (zpl_isize)n && x[n - 1] == 'l' && !memcmp(x, e[0], 4096), "set_capacity", "%zu elements", n); break;
    default: { zpl_u64 *w = 0; size_t c = n / 8 + 1; VZ_CHECK(zpl_array_init_reserve(w, a, (zpl_isize)c), "init", "refused"); VZ_CHECK(zpl_array_resize(w, (zpl_isize)c) && zpl_array_count(w) == (zpl_isize)c, "resize", "%zu words", c); w[c - 1] = 77; w[0] = 5; VZ_CHECK(zpl_array_append(w, 99) && w[c] == 99 && w[c - 1] == 77 && w[0] == 5, "append", "after %zu words", c); zpl_array_free(w); } }
    if (x) zpl_array_free(x); gfree(src); gnone("an array"); note("array", n + k);
}
static void t_buffer(void) {
    zpl_allocator a = galloc(); size_t n = big(); zpl_u8 *x = 0; unsigned char *src = gmk(n + 64); static unsigned char e[2][4096]; gfill(src, 'q'); ends(src, n, e); zpl_buffer_init(x, a, (zpl_isize)n + 20); VZ_CHECK(x && zpl_buffer_capacity(x) == (zpl_isize)n + 20 && zpl_buffer_count(x) == 0, "buffer", "capacity %lld for %zu", (long long)zpl_buffer_capacity(x), n + 20);
    zpl_buffer_append(x, 'b'); zpl_buffer_appendv(x, src, (zpl_isize)n); zpl_buffer_append(x, 'c'); VZ_CHECK(zpl_buffer_count(x) == (zpl_isize)n + 2 && x[0] == 'b' && !memcmp(x + 1, e[0], 4096) && !memcmp(x + 1 + n - 4096, e[1], 4096) && *zpl_buffer_end(x) == 'c', "buffer", "%zu elements appended", n); zpl_buffer_pop(x); VZ_CHECK(zpl_buffer_count(x) == (zpl_isize)n + 1, "buffer", "pop"); zpl_buffer_free(x); gfree(src); gnone("a buffer"); note("buffer", n);
}
static void t_string(void) {
    zpl_allocator a = galloc(); size_t n = big(); zpl_string s, t; unsigned char *src = gmk(n + 64); static unsigned char e[2][4096]; int i; gfill(src, 'q'); ends(src, n, e); for (i = 0; i < 4096; i++) { src[i] = e[0][i] |= 1; src[n - 4096 + (size_t)i] = e[1][i] |= 1; } src[n] = 0;
    switch (want) {
    case 0: s = zpl_string_make_length(a, src, (zpl_isize)n); break;
    case 1: s = zpl_string_make(a, "0123"); s = zpl_string_append_length(s, src, (zpl_isize)n); VZ_CHECK(s && !memcmp(s, "0123", 4) && zpl_string_length(s) == (zpl_isize)n + 4 && !memcmp(s + 4, e[0], 4096) && !memcmp(s + 4 + n - 4096, e[1], 4097), "append_length", "%zu characters", n); s = zpl_string_set(s, (char *)src); break;
    default: s = zpl_string_make_reserve(a, (zpl_isize)n); VZ_CHECK(s && zpl_string_capacity(s) == (zpl_isize)n && zpl_string_length(s) == 0 && !s[0] && !s[n], "reserve", "%zu", n); s = zpl_string_appendc(s, (char *)src); }
    VZ_CHECK(s && zpl_string_length(s) == (zpl_isize)n && zpl_string_capacity(s) >= (zpl_isize)n && !memcmp(s, e[0], 4096) && !memcmp(s + n - 4096, e[1], 4096) && !s[n], "string", "%zu characters: length %lld", n, s ? (long long)zpl_string_length(s) : -1);
    if (vz_pct(50)) { s = zpl_string_appendc(s, "tail"); VZ_CHECK(s && zpl_string_length(s) == (zpl_isize)n + 4 && !strcmp(s + n, "tail") && !memcmp(s + n - 4096, e[1], 4096), "appendc", "to %zu characters", n); VZ_CHECK(zpl_string_allocation_size(s) >= (zpl_isize)n + 4, "allocation_size", "%lld", (long long)zpl_string_allocation_size(s)); }
    else { t = zpl_string_duplicate(a, s); VZ_CHECK(t && zpl_string_length(t) == (zpl_isize)n && zpl_string_are_equal(s, t), "duplicate", "%zu characters", n); t[n - 1] ^= 4; VZ_CHECK(!zpl_string_are_equal(s, t), "are_equal", "the last of %zu differs", n); zpl_string_free(t); }
    zpl_string_free(s); gfree(src); gnone("a string"); note("string", n);
}
static void t_text(void) {
    size_t n = big(), o = vz_u(20), j; unsigned char *p = gmk(n + 100), *q; static unsigned char e[2][4096]; zpl_allocator a; gfill(p, 'q'); ends(p + o, n, e); for (j = 0; j < 4096; j++) { p[o + j] = e[0][j] |= 1; p[o + n - 4096 + j] = e[1][j] |= 1; } p[o + n] = 0;
    switch (want) {
    case 0: VZ_CHECK(zpl_str_has_suffix((char *)p + o, (char *)p + o + 1) && zpl_str_has_prefix((char *)p + o, (char *)p + o), "suffix", "%zu characters do not begin and end with themselves", n); zpl_strrev((char *)p + o); for (j = 0; j < 4096; j++) VZ_CHECK(p[o + j] == e[1][4095 - j] && p[o + n - 1 - j] == e[0][j], "strrev", "%zu characters", n); VZ_CHECK(!p[o + n] && flat(p, o, 'q') && flat(p + o + n + 1, 40, 'q') && gflat(p, o + 4096, o + n - 4096, 'q'), "strrev", "%zu characters: wrote elsewhere", n); break;
    case 1: { zpl_string s; size_t l = 1 + vz_u(50), r = 1 + vz_u(50); for (j = 0; j < l; j++) p[o + j] = ' '; for (j = 0; j < r; j++) p[o + n - 1 - j] = '\t'; p[o + l] = 'L'; p[o + n - 1 - r] = 'R'; a.proc = gproc; a.data = 0; gsmall = 0; s = zpl_string_make(a, (char *)p + o); VZ_CHECK(s && zpl_string_length(s) == (zpl_isize)n, "make", "%zu characters: %lld", n, s ? (long long)zpl_string_length(s) : -1); s = zpl_string_trim_space(s); VZ_CHECK(zpl_string_length(s) == (zpl_isize)(n - l - r) && s[0] == 'L' && s[n - l - r - 1] == 'R' && !s[n - l - r], "trim", "%zu characters trimmed to %lld", n, (long long)zpl_string_length(s));
        s = zpl_string_append_rune(s, 0x20ac); VZ_CHECK(zpl_string_length(s) == (zpl_isize)(n - l - r + 3) && !strcmp(s + n - l - r, "\xe2\x82\xac"), "append_rune", "to %zu characters", n); s = zpl_string_append_fmt(s, "%d", 42); VZ_CHECK(zpl_string_length(s) == (zpl_isize)(n - l - r + 5) && !strcmp(s + n - l - r + 3, "42"), "append_fmt", "to %zu characters", n); zpl_string_clear(s); VZ_CHECK(!zpl_string_length(s) && !s[0], "clear", "%zu", n); zpl_string_free(s); } break;
    case 2: { zpl_isize r; q = gmk(n + 300); gfill(q, 0x33); r = zpl_snprintf((char *)q + 7, (zpl_isize)n + 200, "%d:%s%c%5d", -8, (char *)p + o, '|', 125); VZ_CHECK(r == (zpl_isize)n + 10 || r == (zpl_isize)n + 9, "snprintf", "%lld for %zu characters", (long long)r, n + 9); VZ_CHECK(!memcmp(q + 7, "-8:", 3) && !memcmp(q + 10, e[0], 4096) && !memcmp(q + 10 + n - 4096, e[1], 4096) && !strcmp((char *)q + 10 + n, "|  125"), "snprintf", "%zu characters end in '%.20s'", n, (char *)q + 10 + n); VZ_CHECK(flat(q, 7, 0x33) && flat(q + 10 + n + 7, 40, 0x33), "snprintf", "wrote outside"); } break;
    default: { int fd = memfd_create("vzl", 0); char path[60]; zpl_array(char *) ls = 0; char *c; gclear(); a = galloc(); if (fd < 0 || ftruncate(fd, (off_t)n) || pwrite(fd, "ab\ncd\n", 6, 0) != 6) VZ_BROKEN("memfd"); snprintf(path, sizeof path, "/proc/self/fd/%d", fd); c = zpl_file_read_lines(a, &ls, path, 0); VZ_CHECK(c && ls && zpl_array_count(ls) >= 2 && !strcmp(ls[0], "ab") && !strcmp(ls[1], "cd"), "read_lines", "a file of %zu bytes", n); VZ_CHECK(gof(c) && gof(c)->n > n && !c[n], "read_lines", "%zu bytes kept of a file of %zu", gof(c) ? gof(c)->n : 0, n); zpl_array_free(ls); zpl_free(a, c); close(fd); gnone("reading lines"); } }
    { static const char *nm[] = {"reversal", "string edits", "formatting", "lines"}; note(nm[want], n); } gclear();
}
static ZPL_COMPARE_PROC(cmp_u8) { return (int)*(const unsigned char *)a - (int)*(const unsigned char *)b; }
static void t_search(void) {
    size_t n = big(), at; unsigned char *p = gmk(n + 64), k = 'r'; gfill(p, 'q'); at = n - 1 - vz_u(1000); memset(p + at, 's', n - at); p[at] = 'r';
    { zpl_isize r = zpl_binary_search(p, (zpl_isize)n, 1, &k, cmp_u8); VZ_CHECK(r == (zpl_isize)at, "search", "element %zu of %zu found at %lld", at, n, (long long)r); k = 't'; r = zpl_binary_search(p, (zpl_isize)n, 1, &k, cmp_u8); VZ_CHECK(r == -1, "search", "found what is not there at %lld", (long long)r); k = 's'; r = zpl_binary_search(p, (zpl_isize)n, 1, &k, cmp_u8); VZ_CHECK(at + 1 == n ? r == -1 : r > (zpl_isize)at && r < (zpl_isize)n, "search", "%lld", (long long)r); }
    { zpl_u64 kk = 5, *w = (zpl_u64 *)p; size_t c = n / 8; memset(p, 0, 2 * CH); memset(p + gof(p)->map - 2 * CH, 0, 2 * CH); w[c - 1] = 5; VZ_CHECK(zpl_binary_search(w, (zpl_isize)c, 8, &kk, zpl_i64_cmp(0)) == (zpl_isize)c - 1, "search", "the last of %zu words", c); }
    gclear(); note("search", n);
}
static void t_base64(void) {
    zpl_allocator a = galloc(); size_t n = ((size_t)1 << 31) / 4 * 3 + vz_u(9) + (vz_pct(60) ? ((size_t)1 << 29) + vz_u(9) : 0), want = (n + 2) / 3 * 4, j; unsigned char *p = gmk(n + 9), t[6]; zpl_u8 *e; static const char B[] = "ABCDEFGHIJKLMNOPQRSTUVWXYZabcdefghijklmnopqrstuvwxyz0123456789+/"; char w[5]; size_t r = (n - 1) % 3 + 1, v = 0;
    for (j = 0; j < r; j++) p[n - r + j] = t[j] = (unsigned char)vz_r(); for (j = 0; j < 3; j++) v = v << 8 | (j < r ? t[j] : 0); for (j = 0; j < 4; j++) w[j] = j <= r ? B[v >> (18 - 6 * j) & 63] : '='; w[4] = 0;
    e = zpl_base64_encode(a, p, (zpl_isize)n); VZ_CHECK(e, "base64", "refused"); VZ_CHECK(!strcmp((char *)e + want - 4, w) && e[0] == 'A' && gflat(e, 0, want - 4, 'A'), "base64", "%zu bytes end in '%.8s' instead of '%s'", n, (char *)e + want - 4, w);
    if (vz_pct(40)) { zpl_u8 *d = zpl_base64_decode(a, e, (zpl_isize)want); VZ_CHECK(d && !memcmp(d + n - r, t, r) && d[n] == 0 && gflat(d, 0, n - r, 0), "base64", "decoding %zu characters", want); zpl_free(a, d); }
    zpl_free(a, e); gclear(); note("base64", n);
}
/* files: far positions in files full of holes */
static void t_far(void) {
    char path[700]; zpl_file f; struct { int64_t at; uint64_t v; } w[40]; int nw = 0, i, k, fd; int64_t size = 0, cur = 0; snprintf(path, sizeof path, "%s/far", vz_dir); unlink(path); if (zpl_file_create(&f, path)) VZ_BROKEN("create");
    for (i = 0; i < 40; i++) { int64_t at = vz_pct(20) ? (int64_t)vz_u(5000) : vz_pct(40) ? (int64_t)big() : vz_pct(50) ? (int64_t)vz_u(1ull << 40) : ((int64_t)1 << (31 + vz_u(10))) - 8 + (int64_t)vz_u(17); uint64_t v = vz_r() | 1, g; int c = (int)vz_u(7);
        if (nw == 40) break;
        for (k = 0; k < nw; k++) if (at > w[k].at - 16 && at < w[k].at + 16) at = w[k].at + 16;
        for (k = 0; k < nw; k++) if (at > w[k].at - 8 && at < w[k].at + 8) break;
        if (k < nw && (c < 2)) continue;
        switch (c) {
        case 0: VZ_CHECK(zpl_file_write_at(&f, &v, 8, at), "write_at", "at %lld", (long long)at); w[nw].at = at; w[nw++].v = v; if (at + 8 > size) size = at + 8; zpl_file_seek(&f, cur); break;
        case 1: VZ_CHECK(zpl_file_seek(&f, at) == at, "seek", "to %lld", (long long)at); VZ_CHECK(zpl_file_write(&f, &v, 8), "write", "at %lld", (long long)at); w[nw].at = at; w[nw++].v = v; if (at + 8 > size) size = at + 8; cur = at + 8; break;
        case 2: VZ_CHECK(zpl_file_seek(&f, at) == at, "seek", "to %lld", (long long)at); cur = at; break;
        case 3: { int64_t d = at - cur, r; r = zpl_file_skip(&f, d); cur = at; VZ_CHECK(zpl_file_tell(&f) == cur, "skip", "by %lld", (long long)d); (void)r; } break;
        case 4: cur = zpl_file_seek_to_end(&f); VZ_CHECK(cur == size, "seek_to_end", "%lld of %lld", (long long)cur, (long long)size); break;
        case 5: if (vz_pct(30) && at > 8) { int64_t s = at; VZ_CHECK(zpl_file_truncate(&f, s) == ZPL_FILE_ERROR_NONE, "truncate", "to %lld", (long long)s); size = s; for (k = 0; k < nw;) if (w[k].at + 8 > size) w[k] = w[--nw]; else k++; } break;
        default: if (nw) { k = (int)vz_u((uint64_t)nw); zpl_file_seek(&f, w[k].at); VZ_CHECK(zpl_file_read(&f, &g, 8) && g == w[k].v, "read", "at %lld", (long long)w[k].at); cur = w[k].at + 8; } }
        VZ_CHECK(zpl_file_tell(&f) == cur, "tell", "%lld instead of %lld", (long long)zpl_file_tell(&f), (long long)cur); VZ_CHECK(zpl_file_size(&f) == size, "size", "%lld instead of %lld", (long long)zpl_file_size(&f), (long long)size); VZ_CHECK(zpl_file_tell(&f) == cur, "tell", "asking for the size moved the cursor");
        for (k = 0; k < nw; k++) { zpl_isize got = -1; VZ_CHECK(zpl_file_read_at_check(&f, &g, 8, w[k].at, &got) && got == 8 && g == w[k].v, "read_at", "at %lld of %lld", (long long)w[k].at, (long long)size); } zpl_file_seek(&f, cur); }
    fd = open(path, O_RDONLY); for (k = 0; k < nw; k++) { uint64_t g; VZ_CHECK(pread(fd, &g, 8, w[k].at) == 8 && g == w[k].v, "disk", "at %lld", (long long)w[k].at); } { struct stat st; fstat(fd, &st); VZ_CHECK(st.st_size == size, "disk", "%lld bytes instead of %lld", (long long)st.st_size, (long long)size); } close(fd);
    zpl_file_close(&f); unlink(path); note("far", (size_t)size + (size_t)nw); vz_stat("far accesses", (uint64_t)nw);
}
/* files that are long: a file in memory is read whole, a large object is written whole */
static void t_long(void) {
    zpl_allocator a = galloc(); size_t n = big(), o = 0; int fd = memfd_create("vzl", 0), z = vz_pct(50), how = want; char path[60]; uint64_t v[2] = {vz_r() | 1, vz_r() | 1}, g; unsigned char *p; zpl_file f; zpl_isize got = -1;
    if (fd < 0 || ftruncate(fd, (off_t)n)) VZ_BROKEN("memfd"); snprintf(path, sizeof path, "/proc/self/fd/%d", fd);
    if (how == 3) { /* nothing keeps what is written here, the count is what matters */
        p = gmk(n); if (zpl_file_open_mode(&f, ZPL_FILE_MODE_WRITE, "/dev/null")) VZ_BROKEN("/dev/null"); VZ_CHECK(zpl_file_write_at_check(&f, p, (zpl_isize)n, 0, &got) && got == (zpl_isize)n, "write", "%lld of %zu bytes written", (long long)got, n); VZ_CHECK(zpl_file_write(&f, p, (zpl_isize)n), "write", "%zu bytes", n); zpl_file_close(&f); }
    else {
        if (pwrite(fd, &v[0], 8, 0) != 8 || pwrite(fd, &v[1], 8, (off_t)n - 8) != 8) VZ_BROKEN("pwrite");
        if (how == 0) { zpl_file_contents c = zpl_file_read_contents(a, (zpl_b32)z, path); VZ_CHECK(c.data && c.size == (zpl_isize)n, "read_contents", "%lld of %zu bytes", (long long)c.size, n); p = c.data; memcpy(&g, p, 8); VZ_CHECK(g == v[0], "read_contents", "the beginning of %zu bytes", n); memcpy(&g, p + n - 8, 8); VZ_CHECK(g == v[1], "read_contents", "the end of a file of %zu bytes is missing", n); VZ_CHECK(!z || !p[n], "read_contents", "not terminated"); zpl_file_free_contents(&c); }
        else { p = gmk(n + 16); gfill(p, 0x55); o = vz_u(9); if (zpl_file_open(&f, path)) VZ_BROKEN("open"); if (how == 1) { VZ_CHECK(zpl_file_read_at_check(&f, p, (zpl_isize)n, (zpl_i64)o, &got) && got == (zpl_isize)(n - o), "read_at", "%lld of %zu bytes", (long long)got, n - o); } else { zpl_file_seek(&f, (zpl_i64)o); VZ_CHECK(zpl_file_read(&f, p, (zpl_isize)n), "read", "%zu bytes", n); VZ_CHECK(zpl_file_tell(&f) == (zpl_i64)n, "read", "the cursor is at %lld after reading %zu bytes", (long long)zpl_file_tell(&f), n); }
            memcpy(&g, p + n - o - 8, 8); VZ_CHECK(g == v[1], "read", "the end of %zu bytes is missing", n); VZ_CHECK(flat(p + n - o, o + 16, 0x55), "read", "wrote past the end"); zpl_file_close(&f); } }
    close(fd); gclear(); note(how == 3 ? "long write" : "long read", n + o);
}
static void t_stream(void) {
    zpl_allocator a = galloc(); size_t n = big(), k; unsigned char *p = gmk(n + 64), *q; zpl_file f; uint64_t v = vz_r() | 1, g; zpl_isize got = -1, sz = -1; int kind = want; gfill(p, 'q'); memcpy(p + n - 8, &v, 8);
    if (!zpl_file_stream_open(&f, a, p, (zpl_isize)n, kind == 0 ? 0 : kind == 1 ? ZPL_FILE_STREAM_WRITABLE : ZPL_FILE_STREAM_CLONE_WRITABLE)) VZ_FAIL("stream", "refused");
    VZ_CHECK(zpl_file_size(&f) == (zpl_i64)n, "size", "%lld for %zu", (long long)zpl_file_size(&f), n); q = zpl_file_stream_buf(&f, &sz); VZ_CHECK(q && sz == (zpl_isize)n, "buf", "%lld for %zu", (long long)sz, n);
    VZ_CHECK(zpl_file_read_at_check(&f, &g, 8, (zpl_i64)n - 8, &got) && got == 8 && g == v, "read_at", "the end of %zu bytes", n); VZ_CHECK(zpl_file_read_at_check(&f, &g, 8, (zpl_i64)n - 3, &got) && got == 3, "read_at", "%lld of 3 bytes", (long long)got);
    VZ_CHECK(zpl_file_seek(&f, (zpl_i64)n - 8) == (zpl_i64)n - 8 && zpl_file_tell(&f) == (zpl_i64)n - 8, "seek", "%lld", (long long)zpl_file_tell(&f)); VZ_CHECK(zpl_file_read(&f, &g, 8) && g == v && zpl_file_tell(&f) == (zpl_i64)n, "read", "the end of %zu bytes", n); zpl_file_seek(&f, 0); zpl_file_skip(&f, (zpl_i64)n - 16); VZ_CHECK(zpl_file_tell(&f) == (zpl_i64)n - 16, "skip", "%lld", (long long)zpl_file_tell(&f));
    if (kind) { uint64_t u = vz_r(); VZ_CHECK(zpl_file_write_at(&f, &u, 8, (zpl_i64)n - 12), "write_at", "near the end of %zu", n); q = zpl_file_stream_buf(&f, &sz); VZ_CHECK(sz == (zpl_isize)n && !memcmp(q + n - 12, &u, 8) && !memcmp(q + n - 4, (char *)&v + 4, 4), "write_at", "near the end of %zu bytes", n);
        zpl_file_seek(&f, (zpl_i64)n); if (kind == 2) { for (k = 0; k < 3; k++) { VZ_CHECK(zpl_file_write(&f, &u, 8), "write", "after %zu bytes", n); q = zpl_file_stream_buf(&f, &sz); VZ_CHECK(sz == (zpl_isize)(n + 8 * (k + 1)) && !memcmp(q + n + 8 * k, &u, 8), "write", "%lld bytes after appending to %zu", (long long)sz, n); } } else { zpl_file_write(&f, &u, 8); VZ_CHECK(flat(p + n, 64, 'q'), "write", "a fixed stream of %zu bytes was overrun", n); } }
    zpl_file_close(&f); gfree(p); gnone("a stream"); note("stream", n + (size_t)kind);
}
static void t_set0(void) { want = 0; t_set(); }
static void t_set1(void) { want = 1; t_set(); }
static void t_copy0(void) { want = 0; t_copy(); }
static void t_copy1(void) { want = 1; t_copy(); }
static void t_copy2(void) { want = 2; t_copy(); }
static void t_copy3(void) { want = 3; t_copy(); }
static void t_find0(void) { want = 0; t_find(); }
static void t_find1(void) { want = 1; t_find(); }
static void t_find2(void) { want = 2; t_find(); }
static void t_find3(void) { want = 3; t_find(); }
static void t_find4(void) { want = 4; t_find(); }
static void t_find5(void) { want = 5; t_find(); }
static void t_find6(void) { want = 6; t_find(); }
static void t_hash0(void) { want = 0; t_hash(); }
static void t_hash1(void) { want = 1; t_hash(); }
static void t_hash2(void) { want = 2; t_hash(); }
static void t_hash3(void) { want = 3; t_hash(); }
static void t_hash4(void) { want = 4; t_hash(); }
static void t_hash5(void) { want = 5; t_hash(); }
static void t_hash6(void) { want = 6; t_hash(); }
static void t_hash7(void) { want = 7; t_hash(); }
static void t_hash8(void) { want = 8; t_hash(); }
static void t_array0(void) { want = 0; t_array(); }
static void t_array1(void) { want = 1; t_array(); }
static void t_array2(void) { want = 2; t_array(); }
static void t_array3(void) { want = 3; t_array(); }
static void t_string0(void) { want = 0; t_string(); }
static void t_string1(void) { want = 1; t_string(); }
static void t_string2(void) { want = 2; t_string(); }
static void t_long0(void) { want = 0; t_long(); }
static void t_long1(void) { want = 1; t_long(); }
static void t_long2(void) { want = 2; t_long(); }
static void t_long3(void) { want = 3; t_long(); }
static void t_stream0(void) { want = 0; t_stream(); }
static void t_stream1(void) { want = 1; t_stream(); }
static void t_stream2(void) { want = 2; t_stream(); }
static void t_text0(void) { want = 0; t_text(); }
static void t_text1(void) { want = 1; t_text(); }
static void t_text2(void) { want = 2; t_text(); }
static void t_text3(void) { want = 3; t_text(); }
VZ_MAIN({"memory", t_set0, 2}, {"memory", t_set1, 2}, {"copies", t_copy0, 2}, {"copies", t_copy1, 2}, {"copies", t_copy2, 2}, {"copies", t_copy3, 2}, {"searching", t_find0, 2}, {"searching", t_find1, 2}, {"searching", t_find2, 2}, {"searching", t_find3, 2}, {"searching", t_find4, 2}, {"searching", t_find5, 2}, {"searching", t_find6, 2}, {"checksums", t_hash0, 2}, {"checksums", t_hash1, 2}, {"checksums", t_hash2, 2}, {"checksums", t_hash3, 2}, {"checksums", t_hash4, 2}, {"checksums", t_hash5, 2}, {"checksums", t_hash6, 2}, {"checksums", t_hash7, 2}, {"checksums", t_hash8, 2}, {"arrays", t_array0, 2}, {"arrays", t_array1, 2}, {"arrays", t_array2, 2}, {"arrays", t_array3, 2}, {"long text", t_text0, 2}, {"long text", t_text1, 2}, {"long text", t_text2, 2}, {"long text", t_text3, 2}, {"strings", t_string0, 2}, {"strings", t_string1, 2}, {"strings", t_string2, 2}, {"long files", t_long0, 2}, {"long files", t_long1, 2}, {"long files", t_long2, 2}, {"long files", t_long3, 2}, {"streams", t_stream0, 2}, {"streams", t_stream1, 2}, {"streams", t_stream2, 2}, {"allocators", t_arena, 60}, {"pools", t_pool, 20}, {"buffers", t_buffer, 2}, {"sorted", t_search, 4}, {"base64", t_base64, 2}, {"far positions", t_far, 80})
