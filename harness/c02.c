/* C02/C03 allocators: model of live blocks, patterns checked byte for byte.
 * Compiled twice: -DVZ_ACCT for the accounting/exhaustion property (C03). */
#include "vz.h"
#ifndef VZ_ACCT
#define VZ_ACCT 0
#endif
#define MAXB 96
typedef struct { uint8_t *p; size_t n; uint32_t id; size_t al; } blk;
static blk B[MAXB]; static int nb; static uint32_t next_id; static uint64_t hist; static int nops, nalloc;
static uint8_t pat(uint32_t id, size_t i) { return (uint8_t)(id * 131 + i * 7 + (i >> 8) * 13 + 1); }
static void paint(blk *b, size_t from) { size_t i; for (i = from; i < b->n; i++) b->p[i] = pat(b->id, i); }
static void intact(blk *b, const char *when) {
    size_t i; for (i = 0; i < b->n; i++) if (b->p[i] != pat(b->id, i)) VZ_FAIL("contents-lost", "%s: byte %zu of a live %zu-byte block changed (%d live, op %d)", when, i, b->n, nb, nops);
}
static void all_intact(const char *when) { int i; for (i = 0; i < nb; i++) intact(&B[i], when); }
static void start(void) { nb = 0; next_id = 1; hist = 0; nops = 0; nalloc = 0; }
static void fresh(const char *who, uint8_t *p, size_t n, size_t al, uint8_t *lo, uint8_t *hi, int zero) {
    int i; size_t k;
    VZ_CHECK(((uintptr_t)p & (al - 1)) == 0, "misaligned", "%s: %p for alignment %zu (size %zu)", who, p, al, n);
    if (lo) VZ_CHECK(p >= lo && p + n <= hi, "out-of-bounds", "%s: block [%ld,+%zu) of a %ld-byte backing", who, (long)(p - lo), n, (long)(hi - lo));
    for (i = 0; i < nb; i++) VZ_CHECK(p + n <= B[i].p || B[i].p + B[i].n <= p || n == 0 || B[i].n == 0, "overlap", "%s: new block of %zu overlaps a live block of %zu", who, n, B[i].n);
    if (zero) for (k = 0; k < n; k++) VZ_CHECK(p[k] == 0, "not-zeroed", "%s: byte %zu of %zu is %02x", who, k, n, p[k]);
    nalloc++;
}
static blk *add(uint8_t *p, size_t n, size_t al) { blk *b = &B[nb++]; b->p = p; b->n = n; b->al = al; b->id = next_id++; paint(b, 0); hist = hist * 31 + n * 8 + al; return b; }
static void drop(int i) { B[i] = B[--nb]; hist = hist * 31 + 7 + (uint64_t)i; }
static void drop_lifo(void) { nb--; hist = hist * 31 + 3; }
static size_t asize(size_t max) { switch (vz_u(5)) { case 0: return 1 + vz_u(8); case 1: return 1 + vz_u(32); case 2: return 8 * (1 + vz_u(16)); default: return 1 + vz_u(max); } }
static size_t apow(int lo, int hi) { return (size_t)1 << vz_range(lo, hi); }
static void resized(const char *who, blk *b, uint8_t *q, size_t n2) {
    size_t i, m = b->n < n2 ? b->n : n2;
    for (i = 0; i < m; i++) VZ_CHECK(q[i] == pat(b->id, i), "resize-lost", "%s: resize %zu -> %zu lost byte %zu", who, b->n, n2, i);
    b->p = q; if (n2 > b->n) { size_t o = b->n; b->n = n2; paint(b, o); } else b->n = n2;
}
/* zero or raw request through the allocator procedure itself */
static uint8_t *get(zpl_allocator a, size_t n, size_t al, int zero) {
    return (uint8_t *)a.proc(a.data, ZPL_ALLOCATION_ALLOC, (zpl_isize)n, (zpl_isize)al, NULL, 0, zero ? ZPL_ALLOCATOR_FLAG_CLEAR_TO_ZERO : 0);
}

/* ------------------------------------------------------------------ heap */
static void t_heap(void) {
    zpl_allocator a = zpl_heap_allocator(); int ops = 10 + (int)vz_u(60); size_t base = vz_heap_bytes(); 
#ifdef ZPL_HEAP_ANALYSIS
    zpl_isize used0, cnt0; if (vz_pct(50)) zpl_heap_stats_init(); else { static int once; if (!once) { zpl_heap_stats_init(); once = 1; } }
    used0 = zpl_heap_stats_used_memory(); cnt0 = zpl_heap_stats_alloc_count(); size_t sum = 0;
#define STATS(w) VZ_CHECK(zpl_heap_stats_used_memory() - used0 == (zpl_isize)sum && zpl_heap_stats_alloc_count() - cnt0 == nb, "heap-stats", "%s: used %ld want %zu, count %ld want %d", w, (long)(zpl_heap_stats_used_memory() - used0), sum, (long)(zpl_heap_stats_alloc_count() - cnt0), nb)
#else
    size_t sum = 0;
#define STATS(w) ((void)sum)
#endif
    start();
    for (; nops < ops; nops++) {
        int k = (int)vz_u(10);
        if (k < 5 && nb < MAXB) {
            size_t n = asize(900), al = apow(0, 12); int z = (int)vz_u(2); uint8_t *p = get(a, n, al, z);
            VZ_CHECK(p, "null", "heap returned null for %zu", n); fresh("heap", p, n, al, 0, 0, z); add(p, n, al); sum += n;
        } else if (k < 7 && nb) { int i = (int)vz_u(nb); intact(&B[i], "heap free"); sum -= B[i].n; zpl_free(a, B[i].p); drop(i); }
        else if (k < 9 && nb) {
            int i = (int)vz_u(nb); size_t n2 = asize(900), on = B[i].n; uint8_t *q = (uint8_t *)zpl_resize_align(a, B[i].p, (zpl_isize)on, (zpl_isize)n2, (zpl_isize)B[i].al);
            VZ_CHECK(q, "null", "heap resize returned null"); VZ_CHECK(((uintptr_t)q & (B[i].al - 1)) == 0, "misaligned", "heap resize"); resized("heap", &B[i], q, n2 > on ? n2 : on); sum += B[i].n - on;
            hist = hist * 31 + n2;
        } else if (k == 9) {
            size_t n = asize(200); uint8_t src[1000]; size_t i; for (i = 0; i < n; i++) src[i] = (uint8_t)(vz_r() | 1);
            src[n] = 0; uint8_t *q = vz_u(2) ? (uint8_t *)zpl_alloc_copy(a, src, (zpl_isize)n) : vz_u(2) ? (uint8_t *)zpl_alloc_str(a, (char *)src) : (uint8_t *)zpl_alloc_str_len(a, (char *)src, (zpl_isize)n);
            VZ_CHECK(q && !memcmp(q, src, n), "copy", "allocated copy differs"); zpl_free(a, q);
            { size_t al = apow(0, 8), z0 = n, z1 = vz_u(3) ? vz_u(3 * n + 40) : n, lo; q = (uint8_t *)zpl_default_resize_align(a, 0, 0, (zpl_isize)z0, (zpl_isize)al); VZ_CHECK(q && !((uintptr_t)q & (al - 1)), "misaligned", "default resize of nothing gave %p for alignment %zu", (void *)q, al); memcpy(q, src, z0); q = (uint8_t *)zpl_default_resize_align(a, q, (zpl_isize)z0, (zpl_isize)z1, (zpl_isize)al); lo = z0 < z1 ? z0 : z1;
              VZ_CHECK(z1 ? q && !((uintptr_t)q & (al - 1)) && !memcmp(q, src, lo) : !q, "default-resize", "default resize from %zu to %zu gave %p", z0, z1, (void *)q); if (q) { memset(q, 0x5a, z1); zpl_free(a, q); } }
            { size_t al = apow(0, 12); q = (uint8_t *)zpl_alloc_copy_align(a, src, (zpl_isize)n, (zpl_isize)al); VZ_CHECK(q && !memcmp(q, src, n), "copy", "aligned copy differs"); VZ_CHECK(!((uintptr_t)q & (al - 1)), "misaligned", "copy of %zu bytes aligned to %zu at %p", n, al, (void *)q); zpl_free(a, q); }
        }
        all_intact("heap"); STATS("during");
    }
#if VZ_ACCT
    { /* impossible request: null, nothing changes */
        uint8_t *p = (uint8_t *)zpl_alloc(a, (zpl_isize)1 << 40); VZ_CHECK(!p, "huge", "impossible request gave %p", p); STATS("after a refused request"); }
#endif
    while (nb) { zpl_free(a, B[0].p); sum -= B[0].n; drop(0); }
    STATS("at end");
    VZ_CHECK(vz_heap_bytes() == base || !VZ_ACCT, "leak", "heap bytes %zu -> %zu", base, vz_heap_bytes());
    if (nalloc > 1) vz_distinct(hist);
}
/* backing block with poisoned surroundings */
static uint8_t *raw, *bk; static size_t rawn;
static void backing(size_t n, size_t off) { rawn = n + off + 64; raw = (uint8_t *)malloc(rawn); memset(raw, 0xEE, rawn); bk = raw + 16 + off; vz_poison(bk + n, raw + rawn - (bk + n)); vz_poison(raw, (size_t)(bk - raw) & ~(size_t)7); }
static void unback(size_t n) { size_t i; vz_unpoison(raw, rawn); for (i = 0; i < rawn; i++) if ((raw + i < bk || raw + i >= bk + n) && raw[i] != 0xEE) VZ_FAIL("wrote-outside", "byte %ld relative to the backing", (long)(raw + i - bk)); free(raw); }

/* ------------------------------------------------------------------ arena */
static void t_arena(void) {
    size_t n = vz_pct(20) ? vz_u(64) : 64 + vz_u(4000), off = vz_pct(50) ? 0 : vz_u(16); int ops = 10 + (int)vz_u(80); zpl_arena ar; zpl_allocator a;
    struct { zpl_arena_snapshot s; int nb; zpl_isize used; } snap[8]; int ns = 0; 
    start(); backing(n, off); zpl_arena_init_from_memory(&ar, bk, (zpl_isize)n); a = zpl_arena_allocator(&ar); hist = n * 16 + off;
    for (; nops < ops; nops++) {
        int k = (int)vz_u(20);
        if (k < 13 && nb < MAXB) {
            size_t sz = vz_pct(10) ? vz_u(3) : asize(n / 4 + 8), al = vz_pct(50) ? 16 : apow(0, 8); int z = (int)vz_u(2); zpl_isize rem, before = ar.total_allocated; uint8_t *p;
            if (vz_pct(10)) { rem = zpl_arena_size_remaining(&ar, (zpl_isize)al); if (rem >= 0) sz = (size_t)rem + vz_u(3) - (rem > 0); }
            rem = zpl_arena_size_remaining(&ar, (zpl_isize)al);
            p = get(a, sz, al, z);
            if (VZ_ACCT) VZ_CHECK(!!p == ((zpl_isize)sz <= rem), "exactness", "arena: size %zu align %zu with %ld remaining gave %p", sz, al, (long)rem, p);
            if (VZ_ACCT && !p) { VZ_CHECK(ar.total_allocated == before, "refusal-changed", "a refused request changed usage %ld -> %ld", (long)before, (long)ar.total_allocated); vz_stat("arena refusals", 1); }
            if (p) { fresh("arena", p, sz, al, bk, bk + n, z); add(p, sz, al); if (VZ_ACCT) VZ_CHECK(ar.total_allocated >= (zpl_isize)(p + sz - bk), "usage", "usage %ld below the block's end %ld", (long)ar.total_allocated, (long)(p + sz - bk)); }
        } else if (k < 15 && ns < 8) { snap[ns].used = ar.total_allocated; snap[ns].s = zpl_arena_snapshot_begin(&ar); snap[ns++].nb = nb; hist = hist * 31 + 1; }
        else if (k < 17 && ns) { ns--; zpl_arena_snapshot_end(snap[ns].s); nb = snap[ns].nb; VZ_CHECK(ar.total_allocated == snap[ns].used, "rollback", "usage %ld after rollback to %ld", (long)ar.total_allocated, (long)snap[ns].used); hist = hist * 31 + 2; }
        else if (k == 17 && nb && !ns) { int i = (int)vz_u(nb); zpl_free(a, B[i].p); drop(i); }
        else if (k == 18 && nb && !ns) { int i = (int)vz_u(nb); size_t n2 = B[i].n + vz_u(100); uint8_t *q = (uint8_t *)zpl_resize_align(a, B[i].p, (zpl_isize)B[i].n, (zpl_isize)n2, 16); if (q) { VZ_CHECK(n2 == B[i].n || ((uintptr_t)q & 15) == 0, "misaligned", "arena resize"); VZ_CHECK(q >= bk && q + n2 <= bk + n, "out-of-bounds", "arena resize"); resized("arena", &B[i], q, n2); } }
        else if (k == 19 && !ns && vz_pct(30)) { zpl_free_all(a); nb = 0; VZ_CHECK(ar.total_allocated == 0, "free-all", "usage %ld", (long)ar.total_allocated); }
        all_intact("arena");
    }
    while (ns) { ns--; zpl_arena_snapshot_end(snap[ns].s); }
    zpl_arena_check(&ar); zpl_arena_free(&ar);
    if (nalloc > 1) vz_distinct(hist); vz_sample("arena of %zu bytes at misalignment %zu, %d ops, %d allocations", n, off, ops, nalloc);
    unback(n);
}
/* ------------------------------------------------------------------ pool */
static void t_pool(void) {
    int blocks = 1 + (int)vz_u(40), ops = 20 + (int)vz_u(120); size_t bs = vz_pct(40) ? 1 + vz_u(9) : 1 + vz_u(100), al = apow(0, 7); vz_track t; zpl_pool p; zpl_allocator a, b; int round;
    vz_track_init(&t); b = vz_track_allocator(&t); start(); hist = bs * 4096 + al * 64 + (uint64_t)blocks;
    if (vz_pct(20)) { al = ZPL_DEFAULT_MEMORY_ALIGNMENT; zpl_pool_init(&p, b, blocks, (zpl_isize)bs); } else zpl_pool_init_align(&p, b, blocks, (zpl_isize)bs, (zpl_isize)al);
    a = zpl_pool_allocator(&p);
    { uint8_t *lo = (uint8_t *)t.live->p, *hi = lo + t.live->n;
    for (; nops < ops; nops++) {
        int k = (int)vz_u(20);
        if (k < 11 && nb < blocks) { int z = (int)vz_u(2); uint8_t *q = get(a, bs, al, z); VZ_CHECK(q, "null", "pool returned null with %d of %d used", nb, blocks); fresh("pool", q, bs, al, lo, hi, z); add(q, bs, al); }
        else if (k < 19 && nb) { int i = (int)vz_u(nb); intact(&B[i], "pool free"); zpl_free(a, B[i].p); drop(i); }
        else if (k == 19 && vz_pct(20)) { zpl_free_all(a); nb = 0; hist = hist * 31 + 5; }
        VZ_CHECK(p.total_size == (zpl_isize)(bs * (size_t)nb), "pool-usage", "usage %ld with %d blocks of %zu", (long)p.total_size, nb, bs);
        all_intact("pool");
    }
    if (VZ_ACCT) for (round = 0; round < 3; round++) { /* every block can be taken in every round */
        if (vz_u(2)) { zpl_free_all(a); nb = 0; } else while (nb) { int i = (int)vz_u(nb); zpl_free(a, B[i].p); drop(i); }
        VZ_CHECK(p.total_size == 0, "pool-usage", "usage %ld when empty", (long)p.total_size);
        while (nb < blocks) { uint8_t *q = get(a, bs, al, 0); VZ_CHECK(q, "null", "block %d of %d refused in round %d", nb, blocks, round); fresh("pool", q, bs, al, lo, hi, 0); add(q, bs, al); }
        all_intact("pool full");
    } }
    zpl_pool_free(&p);
    if (nalloc > 1) vz_distinct(hist);
    VZ_TRACK_DONE(&t);
}
/* ------------------------------------------------------------------ scratch */
static void t_scratch(void) {
    size_t n = 64 + vz_u(vz_u(2) ? 300 : 3000), off = vz_pct(60) ? 0 : vz_u(16); int ops = 20 + (int)vz_u(150), fifo = (int)vz_u(100); zpl_scratch_memory s; zpl_allocator a;
    start(); backing(n, off); zpl_scratch_memory_init(&s, bk, (zpl_isize)n); a = zpl_scratch_allocator(&s); hist = n * 16 + off;
    for (; nops < ops; nops++) {
        int k = (int)vz_u(20);
        if (k < 10 && nb < MAXB) {
            size_t sz = vz_pct(10) ? 1 + vz_u(n) : asize(n / 6 + 4), al = vz_pct(60) ? 16 : apow(2, 7); int z = (int)vz_u(2); uint8_t *p = get(a, sz, al, z);
            if (p) { fresh("scratch", p, sz, al, bk, bk + n, z); if (VZ_ACCT) VZ_CHECK(zpl_scratch_memory_is_in_use(&s, p), "in-use", "a live block is reported unused"); blk *b = add(p, sz, al); int j; blk x = *b; for (j = nb - 1; j > 0; j--) B[j] = B[j - 1]; B[0] = x; /* newest first */ vz_stat("scratch allocations", 1); }
            else { vz_stat("scratch refusals", 1);
                /* an empty ring never refuses what fits with its header and padding */
                if (VZ_ACCT) VZ_CHECK(nb > 0 || sz + al + 48 > n, "refused-empty", "empty scratch of %zu refused %zu aligned %zu", n, sz, al); }
        } else if (k < 18 && nb) { int i = ((int)vz_u(100) < fifo) ? nb - 1 : (int)vz_u(nb), j; intact(&B[i], "scratch free"); zpl_free(a, B[i].p); for (j = i; j < nb - 1; j++) B[j] = B[j + 1]; nb--; hist = hist * 31 + 9 + (uint64_t)i; }
        else if (k == 18 && vz_pct(10)) { zpl_free_all(a); nb = 0; }
        else if (k == 19 && nb) { int i = (int)vz_u(nb); size_t n2 = B[i].n + vz_u(30); blk o = B[i]; uint8_t *q = (uint8_t *)zpl_resize_align(a, o.p, (zpl_isize)o.n, (zpl_isize)n2, 16); if (q) { int j; VZ_CHECK(q >= bk && q + n2 <= bk + n, "out-of-bounds", "scratch resize"); resized("scratch", &o, q, n2); for (j = i; j > 0; j--) B[j] = B[j - 1]; B[0] = o; } }
        all_intact("scratch");
        if (VZ_ACCT) { int i; for (i = 0; i < nb; i++) { size_t q = vz_pct(50) ? B[i].n - 1 : vz_u(B[i].n); VZ_CHECK(zpl_scratch_memory_is_in_use(&s, B[i].p) && zpl_scratch_memory_is_in_use(&s, B[i].p + q), "in-use", "byte %zu of a live block of %zu is reported unused", q, B[i].n); }
            VZ_CHECK(!zpl_scratch_memory_is_in_use(&s, bk - 1 - vz_u(40)) && !zpl_scratch_memory_is_in_use(&s, bk + n + vz_u(40)) && !zpl_scratch_memory_is_in_use(&s, &i), "in-use", "an address outside the region is reported in use"); if (!nb) VZ_CHECK(!zpl_scratch_memory_is_in_use(&s, bk + vz_u(n)), "in-use", "an empty ring reports memory in use"); vz_stat("in-use questions", 1); }
    }
    if (VZ_ACCT) { int round; for (round = 0; round < 3; round++) { size_t sz = n > 160 ? n - 160 : 1; while (nb) { int i = (int)vz_u(nb); zpl_free(a, B[i].p); drop(i); }
        uint8_t *p = get(a, sz, 16, 0); VZ_CHECK(p, "space-lost", "round %d: with everything freed, %zu of %zu bytes refused", round, sz, n); fresh("scratch", p, sz, 16, bk, bk + n, 0); add(p, sz, 16); } }
    if (nalloc > 1) vz_distinct(hist);
    unback(n);
}
/* ------------------------------------------------------------------ stack */
static void t_stack(void) {
    size_t n = 256 + vz_u(4000), off = vz_pct(50) ? 0 : vz_u(16); int ops = 20 + (int)vz_u(100), grow = (int)vz_u(2), fromheap = 0; zpl_stack_memory s; zpl_allocator a; vz_track t; size_t need = 0; zpl_usize marks[MAXB];
    memset(&s, 0xAB, sizeof s); vz_track_init(&t); start(); hist = n * 32 + off * 2 + (uint64_t)grow;
    if (grow) { if (vz_u(2)) n = 16 + vz_u(64); off = 0; zpl_stack_memory_init(&s, vz_track_allocator(&t), (zpl_isize)n); bk = (uint8_t *)s.physical_start; (void)fromheap; }
    else { backing(n, off); zpl_stack_memory_init_from_memory(&s, bk, (zpl_isize)n); }
    a = zpl_stack_allocator(&s);
    VZ_CHECK(!zpl_stack_memory_is_in_use(&s, bk), "in-use", "an empty stack reports memory in use");
    for (; nops < ops; nops++) {
        int k = (int)vz_u(20);
        if (k < 12 && nb < MAXB) {
            size_t sz = asize(200), al = grow || vz_pct(60) ? 16 : apow(3, 6); int z = (int)vz_u(2); uint8_t *p; zpl_usize before = s.allocated;
            if (!grow && s.allocated + sz + al * 2 + 16 > n) { vz_stat("stack full", 1); continue; } /* documented to panic when a fixed stack is full */
            p = get(a, sz, al, z); VZ_CHECK(p, "null", "stack returned null");
            if (grow) { /* growth may move the whole stack: blocks keep their offset */
                uint8_t *nbk = (uint8_t *)s.physical_start; int i; if (nbk != bk) { for (i = 0; i < nb; i++) B[i].p = nbk + (B[i].p - bk); bk = nbk; vz_stat("stack growths", 1); }
                { vz_blk **x = vz_track_find(&t, bk); VZ_CHECK(x, "out-of-bounds", "stack base is not live memory"); n = (*x)->n; VZ_CHECK((zpl_usize)n >= (zpl_usize)s.total_size, "capacity", "stack believes in %zu of %zu bytes", (size_t)s.total_size, n); } }
            fresh("stack", p, sz, al, bk, bk + n, z); marks[nb] = before; add(p, sz, al);
            if (VZ_ACCT) VZ_CHECK(s.allocated >= (zpl_usize)(p + sz - bk) && s.allocated <= (zpl_usize)s.total_size, "usage", "allocated %zu total %zu block end %ld", (size_t)s.allocated, (size_t)s.total_size, (long)(p + sz - bk));
            VZ_CHECK(zpl_stack_memory_is_in_use(&s, p), "in-use", "a live block is reported unused");
        } else if (k < 19 && nb) { intact(&B[nb - 1], "stack free"); zpl_free(a, B[nb - 1].p); drop_lifo(); VZ_CHECK(s.allocated == marks[nb], "usage", "after freeing the top block usage is %zu, before it was %zu", (size_t)s.allocated, (size_t)marks[nb]); }
        else if (k == 19 && vz_pct(20)) { zpl_free_all(a); nb = 0; VZ_CHECK(s.allocated == 0, "usage", "usage %zu after free-all", (size_t)s.allocated); }
        all_intact("stack");
        if (VZ_ACCT) { int i; for (i = 0; i < nb; i++) { size_t q = vz_pct(50) ? B[i].n - 1 : vz_u(B[i].n); VZ_CHECK(zpl_stack_memory_is_in_use(&s, B[i].p + q), "in-use", "byte %zu of a live block of %zu is reported unused", q, B[i].n); } VZ_CHECK(!zpl_stack_memory_is_in_use(&s, bk - 1 - vz_u(40)) && !zpl_stack_memory_is_in_use(&s, bk + n + vz_u(40)) && !zpl_stack_memory_is_in_use(&s, &i), "in-use", "an address outside the stack is reported in use"); if (!nb) VZ_CHECK(!zpl_stack_memory_is_in_use(&s, bk + vz_u(n)), "in-use", "an empty stack reports memory in use"); }
    }
    (void)need;
    if (nalloc > 1) vz_distinct(hist);
    zpl_stack_memory_free(&s);
    if (grow) VZ_TRACK_DONE(&t); else unback(n);
}
/* arenas, pools and stacks on top of each other, and a parent that refuses */
static void t_nested(void) {
    vz_track t; zpl_allocator h; zpl_arena ar, sub; zpl_pool p; zpl_stack_memory st; size_t n = 200 + vz_u(3000); int fails = 0;
    vz_track_init(&t); h = vz_track_allocator(&t); if (vz_pct(50)) { t.fail_at = vz_u(4); fails = 1; } start(); hist = n * 8 + (fails ? t.fail_at + 1 : 0);
    memset(&st, 0xAB, sizeof st);
    zpl_arena_init_from_allocator(&ar, h, (zpl_isize)n);
    { uint8_t *q = get(zpl_arena_allocator(&ar), 32, 16, 1); if (!ar.physical_start) VZ_CHECK(!q, "null-arena", "an arena whose parent refused hands out %p", q); else { VZ_CHECK(q, "null", "arena"); fresh("arena", q, 32, 16, (uint8_t *)ar.physical_start, (uint8_t *)ar.physical_start + n, 1); add(q, 32, 16); } }
    { size_t m = vz_u(2) ? n / 4 : n * 2; zpl_arena_init_sub(&sub, &ar, (zpl_isize)m); uint8_t *q = get(zpl_arena_allocator(&sub), m / 2 + 1, 8, 1);
      if (m > n || !ar.physical_start) VZ_CHECK(!q, "null-subarena", "a sub-arena larger than its parent hands out %p", q); else { VZ_CHECK(q, "null", "sub-arena of %zu refused %zu", m, m / 2 + 1); fresh("sub-arena", q, m / 2 + 1, 8, (uint8_t *)ar.physical_start, (uint8_t *)ar.physical_start + n, 1); add(q, m / 2 + 1, 8); } }
    zpl_pool_init(&p, h, 4, 24); if (p.physical_start) { uint8_t *q = get(zpl_pool_allocator(&p), 24, 16, 1); VZ_CHECK(q, "null", "pool"); fresh("pool", q, 24, 16, 0, 0, 1); add(q, 24, 16); }
    zpl_stack_memory_init(&st, h, 64); { int i; for (i = 0; i < 4; i++) { zpl_usize bef = st.allocated; uint8_t *q = get(zpl_stack_allocator(&st), 40, 16, 0); if (!q) { VZ_CHECK(fails, "null", "stack refused without reason"); VZ_CHECK(st.allocated == bef, "refusal-changed", "stack usage changed by a refusal"); } else memset(q, 0x55, 40); } }
    all_intact("nested");
    zpl_stack_memory_free(&st); zpl_pool_free(&p); zpl_arena_free(&sub); zpl_arena_free(&ar);
    vz_distinct(hist); vz_stat("parent refusals", t.failed);
    VZ_TRACK_DONE(&t);
}
VZ_MAIN({"heap", t_heap, 3}, {"arena", t_arena, 5}, {"pool", t_pool, 4}, {"scratch", t_scratch, 6}, {"stack", t_stack, 4}, {"nested", t_nested, 2})
