/* C30: atomic operations are indivisible and return the previous value */
#include "vzt.h"
enum { W32, W64, WP, W_N };
static const char *wname[] = { "32-bit", "64-bit", "pointer" };
typedef struct { zpl_atomic32 g0, a32, g1; zpl_atomic64 a64; zpl_atomic_ptr ap; zpl_atomic64 g2; } word;
#define P(x) ((void *)(intptr_t)(x))
static uint64_t msk(int w) { return w == W32 ? 0xffffffffu : ~0ull; }
static uint64_t ld(word *x, int w) { return w == W32 ? (uint32_t)zpl_atomic32_load(&x->a32) : w == W64 ? (uint64_t)zpl_atomic64_load(&x->a64) : (uint64_t)(uintptr_t)zpl_atomic_ptr_load(&x->ap); }
static void st(word *x, int w, uint64_t v) { if (w == W32) zpl_atomic32_store(&x->a32, (zpl_i32)v); else if (w == W64) zpl_atomic64_store(&x->a64, (zpl_i64)v); else zpl_atomic_ptr_store(&x->ap, P(v)); }
static uint64_t cas(word *x, int w, uint64_t e, uint64_t d) { return w == W32 ? (uint32_t)zpl_atomic32_compare_exchange(&x->a32, (zpl_i32)e, (zpl_i32)d) : w == W64 ? (uint64_t)zpl_atomic64_compare_exchange(&x->a64, (zpl_i64)e, (zpl_i64)d) : (uint64_t)(uintptr_t)zpl_atomic_ptr_compare_exchange(&x->ap, P(e), P(d)); }
static uint64_t xch(word *x, int w, uint64_t d) { return w == W32 ? (uint32_t)zpl_atomic32_exchange(&x->a32, (zpl_i32)d) : w == W64 ? (uint64_t)zpl_atomic64_exchange(&x->a64, (zpl_i64)d) : (uint64_t)(uintptr_t)zpl_atomic_ptr_exchange(&x->ap, P(d)); }
static uint64_t add(word *x, int w, uint64_t d) { return w == W32 ? (uint32_t)zpl_atomic32_fetch_add(&x->a32, (zpl_i32)d) : w == W64 ? (uint64_t)zpl_atomic64_fetch_add(&x->a64, (zpl_i64)d) : (uint64_t)(uintptr_t)zpl_atomic_ptr_fetch_add(&x->ap, P(d)); }
static uint64_t fand(word *x, int w, uint64_t d) { return w == W32 ? (uint32_t)zpl_atomic32_fetch_and(&x->a32, (zpl_i32)d) : w == W64 ? (uint64_t)zpl_atomic64_fetch_and(&x->a64, (zpl_i64)d) : (uint64_t)(uintptr_t)zpl_atomic_ptr_fetch_and(&x->ap, P(d)); }
static uint64_t forr(word *x, int w, uint64_t d) { return w == W32 ? (uint32_t)zpl_atomic32_fetch_or(&x->a32, (zpl_i32)d) : w == W64 ? (uint64_t)zpl_atomic64_fetch_or(&x->a64, (zpl_i64)d) : (uint64_t)(uintptr_t)zpl_atomic_ptr_fetch_or(&x->ap, P(d)); }
static word X; static int NT, OPS, W;
static const uint64_t G0 = 0x5a5a1234, G1 = 0x89abcdef, G2 = 0x0123456789abcdefull;
static void guard_set(void) { memset(&X, 0, sizeof X); zpl_atomic32_store(&X.g0, (zpl_i32)G0); zpl_atomic32_store(&X.g1, (zpl_i32)G1); zpl_atomic64_store(&X.g2, (zpl_i64)G2);
    if (W != W32) st(&X, W32, 0x77777777); if (W != W64) st(&X, W64, 0x7777777777777777ull); if (W != WP) st(&X, WP, 0x6666666666666666ull); }
static void guard_see(void) {
    VZ_CHECK((uint32_t)zpl_atomic32_load(&X.g0) == G0 && (uint32_t)zpl_atomic32_load(&X.g1) == G1 && (uint64_t)zpl_atomic64_load(&X.g2) == G2
        && (W == W32 || ld(&X, W32) == 0x77777777) && (W == W64 || ld(&X, W64) == 0x7777777777777777ull) && (W == WP || ld(&X, WP) == 0x6666666666666666ull), "neighbour", "%s operations changed a neighbouring word", wname[W]);
}
/* ---- one thread: every operation against its definition, all operand values */
static void t_single(void) {
    int k, n = 1 + (int)vz_u(30); uint64_t v, m, h;
    W = (int)vz_u(W_N); m = msk(W); guard_set(); v = vz_edge64() & m; st(&X, W, v); h = v * 3 + (uint64_t)W;
    for (k = 0; k < n; k++) {
        uint64_t d = vz_edge64() & m, e, r, was = v; int op = (int)vz_u(8); const char *nm = "";
        switch (op) {
            case 0: st(&X, W, d); v = d; r = was; nm = "store"; break;
            case 1: r = ld(&X, W); nm = "load"; break;
            case 2: r = xch(&X, W, d); v = d; nm = "exchange"; break;
            case 3: r = add(&X, W, d); v = (v + d) & m; nm = "fetch_add"; break;
            case 4: r = fand(&X, W, d); v &= d; nm = "fetch_and"; break;
            case 5: r = forr(&X, W, d); v |= d; nm = "fetch_or"; break;
            default:
                e = op == 6 ? v : vz_pct(50) ? (v ^ (1ull << vz_u(W == W32 ? 32 : 64))) : vz_edge64() & m;
                r = cas(&X, W, e, d); if (e == v) v = d; nm = e == was ? "compare_exchange (equal)" : "compare_exchange (different)"; break;
        }
        VZ_CHECK(r == was, "previous", "%s %s with operand %#llx on %#llx returned %#llx", wname[W], nm, (unsigned long long)d, (unsigned long long)was, (unsigned long long)r);
        VZ_CHECK(ld(&X, W) == v, "result", "%s %s with operand %#llx on %#llx left %#llx, not %#llx", wname[W], nm, (unsigned long long)d, (unsigned long long)was, (unsigned long long)ld(&X, W), (unsigned long long)v);
        h = h * 31 + d * 8 + (uint64_t)op;
    }
    guard_see(); vz_distinct(h);
}
/* ---- adds form one chain from the first value to the last */
typedef struct { uint64_t prev, op; int who; } rec;
static rec *R; static uint64_t S0;
static void b_chain(int no, void *u) {
    int k, how = (int)(intptr_t)u;
    for (k = 0; k < OPS; k++) {
        rec *r = &R[no * OPS + k]; r->who = no; r->op = 1 + vz_u(how == 2 ? 1 : 5);
        if (how == 0 || (how == 1 && vz_pct(50))) r->prev = add(&X, W, r->op);
        else { uint64_t c = ld(&X, W), g; for (;;) { g = cas(&X, W, c, c + r->op); if (g == (c & msk(W))) break; VT_CHECK(g != c, "cas-false", "impossible"); c = g; if (vz_pct(3)) vt_delay(0); } r->prev = g; }
        vt_step(); if (vz_pct(10)) vt_delay(0);
    }
}
static int by_prev(const void *a, const void *b) { uint64_t x = (((const rec *)a)->prev - S0) & msk(W), y = (((const rec *)b)->prev - S0) & msk(W); return x < y ? -1 : x > y; }
static void t_chain(void) {
    int i, n, how = (int)vz_u(3); uint64_t v, h = (uint64_t)how, sw = 0;
    W = (int)vz_u(W_N); NT = 2 + (int)vz_u(6); OPS = 50 + (int)vz_u(vz_pct(20) ? 4000 : 400); n = NT * OPS;
    guard_set(); S0 = (vz_pct(60) ? (uint64_t)0 - vz_u((uint64_t)n * 3) : vz_pct(50) ? 0x7fffffff - vz_u((uint64_t)n) : vz_edge64()) & msk(W); st(&X, W, S0);
    R = (rec *)malloc(sizeof *R * (size_t)n);
    vt_begin("concurrent adds"); vt_threads(NT, b_chain, P(how)); vt_end();
    qsort(R, (size_t)n, sizeof *R, by_prev);
    for (v = S0, i = 0; i < n; i++) {
        if (R[i].prev != v) { rec r = R[i]; free(R); VZ_FAIL("chain", "%s: after %d of %d %s, %#llx was expected to be the next previous value, %#llx is", wname[W], i, n, how == 0 ? "adds" : how == 1 ? "adds and compare-exchanges" : "compare-exchanges", (unsigned long long)v, (unsigned long long)r.prev); }
        v = (v + R[i].op) & msk(W); h = h * 31 + (uint64_t)R[i].who; if (i) sw += R[i].who != R[i - 1].who;
    }
    free(R);
    VZ_CHECK(ld(&X, W) == v, "lost-update", "%s: the word ends at %#llx, the operations add up to %#llx", wname[W], (unsigned long long)ld(&X, W), (unsigned long long)v);
    guard_see(); vz_distinct(h); vz_stat("chained updates", (uint64_t)n); vz_stat("switches between threads", sw);
}
/* ---- exchanges hand every value over exactly once */
static void b_xchg(int no, void *u) {
    int k; (void)u;
    for (k = 0; k < OPS; k++) { rec *r = &R[no * OPS + k]; r->op = (uint64_t)(no * OPS + k + 1) << (W == W32 ? 8 : 36); r->who = no; r->prev = xch(&X, W, r->op); vt_step(); if (vz_pct(10)) vt_delay(0); }
}
static void t_xchg(void) {
    int i, n, sh; unsigned char *seen; uint64_t h = 7, v;
    W = (int)vz_u(W_N); NT = 2 + (int)vz_u(6); OPS = 50 + (int)vz_u(vz_pct(20) ? 4000 : 400); n = NT * OPS; sh = W == W32 ? 8 : 36;
    guard_set(); st(&X, W, 0); R = (rec *)malloc(sizeof *R * (size_t)n);
    vt_begin("concurrent exchanges"); vt_threads(NT, b_xchg, 0); vt_end();
    seen = (unsigned char *)calloc((size_t)n + 2, 1);
    for (i = 0; i <= n; i++) {
        uint64_t p = i < n ? R[i].prev : ld(&X, W);
        if ((p & ((1ull << sh) - 1)) || (p >> sh) > (uint64_t)n) { free(R); free(seen); VZ_FAIL("torn", "%s exchange returned %#llx, which nobody stored", wname[W], (unsigned long long)p); }
        if (seen[p >> sh]++) { free(R); free(seen); VZ_FAIL("duplicate", "%s exchange handed %#llx over twice", wname[W], (unsigned long long)p); }
    }
    /* order of the hand-overs, from the first on */
    { int *next = (int *)calloc((size_t)n + 1, sizeof(int)); for (i = 0; i < n; i++) next[R[i].prev >> sh] = i + 1; for (v = 0, i = 0; i < n && next[v]; i++) { h = h * 31 + (uint64_t)R[next[v] - 1].who; v = (uint64_t)next[v]; } free(next); }
    free(R); free(seen); VZ_CHECK(i == n, "chain", "%s exchanges do not form one order", wname[W]);
    guard_see(); vz_distinct(h); vz_stat("exchanges", (uint64_t)n);
}
/* ---- bits owned by single threads, plus adds above them, in one word */
static uint64_t bits_end[16], add_sum[16];
static void b_bits(int no, void *u) {
    int k, nb = W == W32 ? 2 : 3; uint64_t own = ((1ull << nb) - 1) << (no * nb), mine = 0, r; (void)u;
    add_sum[no] = 0;
    for (k = 0; k < OPS; k++) {
        uint64_t b = vz_r() & own;
        switch (vz_u(4)) {
            case 0: r = forr(&X, W, b); VT_CHECK((r & own) == mine, "bits", "%s or returned %#llx: this thread's bits were %#llx", wname[W], (unsigned long long)r, (unsigned long long)mine); mine |= b; break;
            case 1: r = fand(&X, W, ~b); VT_CHECK((r & own) == mine, "bits", "%s and returned %#llx: this thread's bits were %#llx", wname[W], (unsigned long long)r, (unsigned long long)mine); mine &= ~b; break;
            case 2: { uint64_t d = vz_u(1000) << 24; r = add(&X, W, d); VT_CHECK((r & own) == mine, "bits", "%s add returned %#llx: this thread's bits were %#llx", wname[W], (unsigned long long)r, (unsigned long long)mine); add_sum[no] += d; } break;
            default: { uint64_t c = ld(&X, W), d; int t = 0; do { VT_CHECK((c & own) == mine, "bits", "%s load or compare-exchange gave %#llx: this thread's bits were %#llx", wname[W], (unsigned long long)c, (unsigned long long)mine); d = (c & ~own) | b; r = cas(&X, W, c, d); if (r == c) { mine = b; break; } c = r; } while (++t < 50 && !vt_ld(&vt_bad_set)); }
        }
        vt_step(); if (vz_pct(10)) vt_delay(0);
    }
    bits_end[no] = mine;
}
static void t_bits(void) {
    int i; uint64_t want = 0, low = (1ull << 24) - 1, start, got;
    W = (int)vz_u(W_N); NT = 2 + (int)vz_u(6); OPS = 50 + (int)vz_u(vz_pct(20) ? 4000 : 500);
    guard_set(); start = (vz_edge64() & msk(W)) & ~low; st(&X, W, start);
    vt_begin("bits and adds"); vt_threads(NT, b_bits, 0); vt_end();
    for (want = start, i = 0; i < NT; i++) want += add_sum[i] + bits_end[i];
    want &= msk(W); got = ld(&X, W);
    VZ_CHECK(got == want, "lost-update", "%s word ends at %#llx, the operations give %#llx", wname[W], (unsigned long long)got, (unsigned long long)want);
    guard_see(); vz_distinct(want * 31 + (uint64_t)(NT * 3 + W)); vz_sample("%d threads, %d operations each, final value %llx", (int)NT, (int)OPS, (unsigned long long)want); vz_stat("bit and add operations", (uint64_t)(NT * OPS));
}
/* ---- loads and stores are whole; stored values appear in order */
static void b_whole(int no, void *u) {
    int k; uint64_t seen = 0, v; (void)u;
    for (k = 0; k < OPS; k++) {
        if (no == 0) { v = (uint64_t)(k + 1); if (W == W32) v = v | (v & 0xffff) << 16; else v = v | v << 32; st(&X, W, v); }
        else { v = ld(&X, W); if (W == W32) { VT_CHECK((v >> 16) == (v & 0xffff), "torn", "32-bit load gave %#llx", (unsigned long long)v); v &= 0xffff; } else { VT_CHECK((v >> 32) == (v & 0xffffffffu), "torn", "%s load gave %#llx", wname[W], (unsigned long long)v); v &= 0xffffffffu; }
               VT_CHECK(v >= seen, "backwards", "%s loads went from %llu back to %llu", wname[W], (unsigned long long)seen, (unsigned long long)v); seen = v; }
        vt_step(); if (vz_pct(4)) vt_delay(0);
    }
}
static void t_whole(void) {
    W = (int)vz_u(W_N); NT = 2 + (int)vz_u(4); OPS = 200 + (int)vz_u(6000); guard_set(); st(&X, W, 0);
    vt_begin("loads beside stores"); vt_threads(NT, b_whole, 0); vt_end(); guard_see(); vz_distinct(vz_r());
}
/* ---- publication: what was written before a store is seen after the load */
static struct { uint64_t pay[9]; uint64_t sum; } slot[64]; static uint64_t got_n[16];
static int PUB;
static void b_pub(int no, void *u) { /* one writer, slots written once, index published */
    uint64_t k, i, c, seen = 0; (void)u;
    if (no == 0) for (k = 0; k < 64; k++) {
        for (c = 0, i = 0; i < 9; i++) { slot[k].pay[i] = vz_r(); c += slot[k].pay[i] * (i + 1); } slot[k].sum = c + k;
        if (PUB == 0) st(&X, W, k + 1); else if (PUB == 1) add(&X, W, 1); else if (PUB == 2) xch(&X, W, k + 1); else cas(&X, W, k, k + 1);
        vt_step(); vt_delay(0);
    } else while (seen < 64) {
        uint64_t s = PUB == 3 && vz_pct(30) ? cas(&X, W, 99, 98) : PUB == 1 && vz_pct(30) ? add(&X, W, 0) : ld(&X, W);
        for (; seen < s; seen++) { for (c = 0, i = 0; i < 9; i++) c += slot[seen].pay[i] * (i + 1); VT_CHECK(slot[seen].sum == c + seen, "unpublished", "%s: slot %llu published but its contents are not there", wname[W], (unsigned long long)seen); got_n[no]++; vt_step(); }
        if (vz_pct(10)) sched_yield();
    }
}
static void b_turn(int no, void *u) { /* the payload is passed round: reused, so both directions matter */
    int k; uint64_t i; (void)u;
    for (k = 0; k < OPS; k++) {
        uint64_t turn = (uint64_t)(k * NT + no); int spins = 0;
        while (ld(&X, W) != turn) if (++spins > 30) sched_yield();
        for (i = 0; i < 9; i++) { VT_CHECK(slot[0].pay[i] == turn * (i + 1), "unpublished", "%s: turn %llu taken, contents still of an earlier turn", wname[W], (unsigned long long)turn); slot[0].pay[i] = (turn + 1) * (i + 1); }
        if (PUB == 0) st(&X, W, turn + 1); else if (PUB == 1) add(&X, W, 1); else if (PUB == 2) xch(&X, W, turn + 1); else cas(&X, W, turn, turn + 1);
        vt_step(); vt_delay(0);
        if (vt_ld(&vt_bad_set)) { }
    }
}
static void t_publish(void) {
    int ring = vz_pct(50);
    W = (int)vz_u(W_N); NT = 2 + (int)vz_u(3); OPS = 20 + (int)vz_u(400); PUB = (int)vz_u(4); guard_set(); st(&X, W, 0); memset(slot, 0, sizeof slot);
    vt_begin("publication"); vt_threads(NT, ring ? b_turn : b_pub, 0); vt_end(); guard_see(); vz_distinct(vz_r()); vz_stat(ring ? "turns handed over" : "slots published", ring ? (uint64_t)(NT * OPS) : 64);
}
/* ---- plain data beside the operations, in code a compiler is free to optimise: nothing but
 * the operations themselves keeps the counter out of a register or the accesses in place */
static zpl_atomic32 l32; static zpl_atomic64 l64; static zpl_atomic_ptr lp;
static uint64_t reg_a, reg_b, reg_done[16]; static int REGK;
#define BURST(LOCK, UNLOCK) for (i = 0; i < 64; i++) { int t = 0; while (LOCK) if (++t > 4000) goto out; bad += reg_a != reg_b; reg_a++; reg_b++; UNLOCK; n++; }
#define REGFN(name, LOCK, UNLOCK) static uint64_t name(uint64_t *bad_) { uint64_t n = 0, bad = 0; int i; BURST(LOCK, UNLOCK) out: *bad_ += bad; return n; }
REGFN(r32x, zpl_atomic32_exchange(&l32, 1) != 0, zpl_atomic32_exchange(&l32, 0))
REGFN(r32c, zpl_atomic32_compare_exchange(&l32, 0, 1) != 0, zpl_atomic32_compare_exchange(&l32, 1, 0))
REGFN(r32o, zpl_atomic32_fetch_or(&l32, 1) != 0, zpl_atomic32_fetch_and(&l32, 0))
REGFN(r32a, zpl_atomic32_compare_exchange(&l32, 0, 1) != 0, zpl_atomic32_fetch_add(&l32, -1))
REGFN(r32s, zpl_atomic32_exchange(&l32, 1) != 0, zpl_atomic32_store(&l32, 0))
REGFN(r64x, zpl_atomic64_exchange(&l64, 1) != 0, zpl_atomic64_exchange(&l64, 0))
REGFN(r64c, zpl_atomic64_compare_exchange(&l64, 0, 1) != 0, zpl_atomic64_compare_exchange(&l64, 1, 0))
REGFN(r64o, zpl_atomic64_fetch_or(&l64, 1) != 0, zpl_atomic64_fetch_and(&l64, 0))
REGFN(r64a, zpl_atomic64_compare_exchange(&l64, 0, 1) != 0, zpl_atomic64_fetch_add(&l64, -1))
REGFN(r64s, zpl_atomic64_exchange(&l64, 1) != 0, zpl_atomic64_store(&l64, 0))
REGFN(rpx, zpl_atomic_ptr_exchange(&lp, P(1)) != 0, zpl_atomic_ptr_exchange(&lp, P(0)))
REGFN(rpc, zpl_atomic_ptr_compare_exchange(&lp, P(0), P(1)) != 0, zpl_atomic_ptr_compare_exchange(&lp, P(1), P(0)))
REGFN(rpo, zpl_atomic_ptr_fetch_or(&lp, P(1)) != 0, zpl_atomic_ptr_fetch_and(&lp, P(0)))
REGFN(rpa, zpl_atomic_ptr_compare_exchange(&lp, P(0), P(1)) != 0, zpl_atomic_ptr_fetch_add(&lp, P(-1)))
REGFN(rps, zpl_atomic_ptr_exchange(&lp, P(1)) != 0, zpl_atomic_ptr_store(&lp, P(0)))
static uint64_t (*const regfn[])(uint64_t *) = { r32x, r32c, r32o, r32a, r32s, r64x, r64c, r64o, r64a, r64s, rpx, rpc, rpo, rpa, rps };
static void b_reg(int no, void *u) {
    uint64_t bad = 0; int k; (void)u; reg_done[no] = 0;
    for (k = 0; k < 40; k++) { reg_done[no] += regfn[REGK](&bad); vt_step(); if (vz_pct(20)) sched_yield(); }
    VT_CHECK(!bad, "reordered", "plain data beside %s operations was seen half written %llu times", wname[REGK / 5], (unsigned long long)bad);
}
static void t_reg(void) {
    uint64_t n = 0; int i;
    REGK = (int)vz_u(15); W = REGK / 5; NT = 2 + (int)vz_u(3); reg_a = reg_b = 0; memset(&l32, 0, sizeof l32); memset(&l64, 0, sizeof l64); memset(&lp, 0, sizeof lp);
    vt_begin("plain data between operations"); vt_threads(NT, b_reg, 0); vt_end();
    for (i = 0; i < NT; i++) n += reg_done[i];
    VZ_CHECK(n == reg_a && n == reg_b, "reordered", "%llu sections guarded by %s operations (way %d) left the plain counters at %llu and %llu", (unsigned long long)n, wname[W], REGK % 5, (unsigned long long)reg_a, (unsigned long long)reg_b);
    vz_distinct(n * 31 + (uint64_t)REGK); vz_stat("plain sections", n);
}
/* ---- straight-line publication: plain stores in a loop with nothing but the operation between
 * (a deliberate race on the plain words, so not in the ThreadSanitizer build) */
#if !defined(__has_feature)
#define __has_feature(x) 0
#endif
#if !__has_feature(thread_sanitizer)
static uint64_t line_a; static uint64_t line_pad[16]; static uint64_t line_b; static int LK;
#define LINE(name, T, ONE, OPW, OPR, SEEN) \
static void name##_w(void) { uint64_t k; for (k = 1; k < ONE; k++) { line_a = k; line_b = k * 3; OPW; } } \
static uint64_t name##_r(void) { uint64_t i, bad = 0; for (i = 0; i < 3000; i++) { uint64_t g = (uint64_t)(OPR), s = SEEN, a = line_a, b = line_b; bad += a < s || b < s * 3; } return bad; }
static uint64_t ones(uint64_t x) { uint64_t n = 0; while (x & 1) { n++; x >>= 1; } return n; }
LINE(n32x, zpl_i32, 20000, zpl_atomic32_exchange(&l32, (zpl_i32)k), zpl_atomic32_fetch_add(&l32, 0), g)
LINE(n32a, zpl_i32, 20000, zpl_atomic32_fetch_add(&l32, 1), zpl_atomic32_compare_exchange(&l32, -1, -1), g)
LINE(n32c, zpl_i32, 20000, zpl_atomic32_compare_exchange(&l32, (zpl_i32)(k - 1), (zpl_i32)k), zpl_atomic32_fetch_or(&l32, 0), g)
LINE(n32o, zpl_i32, 31, zpl_atomic32_fetch_or(&l32, (zpl_i32)(1u << (k - 1))), zpl_atomic32_fetch_and(&l32, -1), ones(g))
LINE(n32n, zpl_i32, 32, zpl_atomic32_fetch_and(&l32, (zpl_i32)~(1u << (k - 1))), zpl_atomic32_load(&l32), ones(~g & 0xffffffffu))
LINE(n32s, zpl_i32, 20000, zpl_atomic32_store(&l32, (zpl_i32)k), zpl_atomic32_load(&l32), g)
LINE(n64x, zpl_i64, 20000, zpl_atomic64_exchange(&l64, (zpl_i64)k), zpl_atomic64_fetch_add(&l64, 0), g)
LINE(n64a, zpl_i64, 20000, zpl_atomic64_fetch_add(&l64, 1), zpl_atomic64_compare_exchange(&l64, -1, -1), g)
LINE(n64c, zpl_i64, 20000, zpl_atomic64_compare_exchange(&l64, (zpl_i64)(k - 1), (zpl_i64)k), zpl_atomic64_fetch_or(&l64, 0), g)
LINE(n64o, zpl_i64, 63, zpl_atomic64_fetch_or(&l64, (zpl_i64)(1ull << (k - 1))), zpl_atomic64_fetch_and(&l64, -1), ones(g))
LINE(n64n, zpl_i64, 64, zpl_atomic64_fetch_and(&l64, (zpl_i64)~(1ull << (k - 1))), zpl_atomic64_load(&l64), ones(~g))
LINE(n64s, zpl_i64, 20000, zpl_atomic64_store(&l64, (zpl_i64)k), zpl_atomic64_load(&l64), g)
LINE(npx, void *, 20000, zpl_atomic_ptr_exchange(&lp, P(k)), (uintptr_t)zpl_atomic_ptr_fetch_add(&lp, P(0)), g)
LINE(npa, void *, 20000, zpl_atomic_ptr_fetch_add(&lp, P(1)), (uintptr_t)zpl_atomic_ptr_compare_exchange(&lp, P(-1), P(-1)), g)
LINE(npc, void *, 20000, zpl_atomic_ptr_compare_exchange(&lp, P(k - 1), P(k)), (uintptr_t)zpl_atomic_ptr_fetch_or(&lp, P(0)), g)
LINE(npo, void *, 63, zpl_atomic_ptr_fetch_or(&lp, P(1ull << (k - 1))), (uintptr_t)zpl_atomic_ptr_fetch_and(&lp, P(-1)), ones(g))
LINE(npn, void *, 64, zpl_atomic_ptr_fetch_and(&lp, P(~(1ull << (k - 1)))), (uintptr_t)zpl_atomic_ptr_load(&lp), ones(~g))
LINE(nps, void *, 20000, zpl_atomic_ptr_store(&lp, P(k)), (uintptr_t)zpl_atomic_ptr_load(&lp), g)
static void (*const line_w[])(void) = { n32x_w, n32a_w, n32c_w, n32o_w, n32n_w, n32s_w, n64x_w, n64a_w, n64c_w, n64o_w, n64n_w, n64s_w, npx_w, npa_w, npc_w, npo_w, npn_w, nps_w };
static uint64_t (*const line_r[])(void) = { n32x_r, n32a_r, n32c_r, n32o_r, n32n_r, n32s_r, n64x_r, n64a_r, n64c_r, n64o_r, n64n_r, n64s_r, npx_r, npa_r, npc_r, npo_r, npn_r, nps_r };
static int line_over;
static void b_line(int no, void *u) {
    (void)u;
    if (no == 0) { line_w[LK](); vt_st(&line_over, 1); vt_step(); return; }
    for (;;) { int o = vt_ld(&line_over); uint64_t bad = line_r[LK](); VT_CHECK(!bad, "unpublished", "what was written before a published value (way %d) was not there %llu times in 3000 looks", LK, (unsigned long long)bad); vt_step(); if (o || vt_ld(&vt_bad_set)) break; }
}
static void t_line(void) {
    LK = (int)vz_u(18); W = LK / 6; NT = 2 + (int)vz_u(2); line_a = line_b = 0; line_pad[0] = 0; vt_st(&line_over, 0);
    memset(&l32, 0, sizeof l32); memset(&l64, 0, sizeof l64); memset(&lp, 0, sizeof lp);
    if (LK % 6 == 4) { zpl_atomic32_store(&l32, -1); zpl_atomic64_store(&l64, -1); zpl_atomic_ptr_store(&lp, P(-1)); }
    vt_begin("straight-line publication"); vt_threads(NT, b_line, 0); vt_end(); vz_distinct((uint64_t)LK * 8 + (uint64_t)NT);
}
/* fences alone: plain words, a plain flag, store fences in the writer and load fences in the readers, or full ones in both */
static volatile uint64_t fence_seq; static int FK;
static void b_fence(int no, void *u) {
    uint64_t k, i; (void)u;
    if (no == 0) {
        for (k = 1; k < 20000; k++) { line_a = k; line_b = k * 3; if (FK & 1) zpl_mfence(); else zpl_sfence(); fence_seq = k; }
        vt_st(&line_over, 1); vt_step(); return;
    }
    for (;;) {
        int o = vt_ld(&line_over); uint64_t bad = 0;
        for (i = 0; i < 3000; i++) { uint64_t g = fence_seq, a, b; if (FK & 2) zpl_mfence(); else zpl_lfence(); a = line_a; b = line_b; bad += a < g || b < g * 3; }
        VT_CHECK(!bad, "fence-order", "what was written before a %s fence was not there after a %s fence %llu times", FK & 1 ? "full" : "store", FK & 2 ? "full" : "load", (unsigned long long)bad); vt_step(); if (o || vt_ld(&vt_bad_set)) break;
    }
}
static void t_fence(void) {
    FK = (int)vz_u(4); NT = 2 + (int)vz_u(2); line_a = line_b = 0; fence_seq = 0; vt_st(&line_over, 0);
    vt_begin("fences"); vt_threads(NT, b_fence, 0); vt_end(); vz_stat("fenced publications", 1); vz_distinct((uint64_t)FK * 8 + (uint64_t)NT + 1000);
}
/* two threads each write their own word and then look at the other's: at least one must see the other's write */
#define SBN 4000
static struct { volatile uint64_t v; zpl_atomic32 a; zpl_atomic64 b; char pad[256]; } sb_w[2]; static struct { volatile int at; char pad[252]; } sb_at[2]; static uint32_t sb_r[2][SBN]; static int SK;
#define SB_LOOP(ST, LD) for (i = 1; i < SBN; i++) { int z = 0; sb_at[no].at = i; while (sb_at[!no].at < i) { if (++z > 2000) { sched_yield(); z = 0; } if (vt_ld(&vt_bad_set)) return; } ST; sb_r[no][i] = (uint32_t)(LD); }
static void b_sb(int no, void *u) {
    int i; (void)u;
    switch (SK) {
        case 0: SB_LOOP(sb_w[no].v = (uint64_t)i; zpl_mfence(), sb_w[!no].v) break;
        case 1: SB_LOOP(zpl_atomic32_exchange(&sb_w[no].a, i), zpl_atomic32_load(&sb_w[!no].a)) break;
        case 2: SB_LOOP(zpl_atomic64_exchange(&sb_w[no].b, i), zpl_atomic64_load(&sb_w[!no].b)) break;
        case 3: SB_LOOP(zpl_atomic32_fetch_add(&sb_w[no].a, 1), zpl_atomic32_load(&sb_w[!no].a)) break;
        case 4: SB_LOOP(zpl_atomic64_compare_exchange(&sb_w[no].b, i - 1, i), zpl_atomic64_load(&sb_w[!no].b)) break;
        default: SB_LOOP(zpl_atomic32_store(&sb_w[no].a, i); zpl_mfence(), zpl_atomic32_load(&sb_w[!no].a)) break;
    }
    sb_at[no].at = SBN; vt_step();
}
static void t_sb(void) {
    int i, both = 0, one = 0; SK = (int)vz_u(6); memset((void *)sb_w, 0, sizeof sb_w); memset((void *)sb_at, 0, sizeof sb_at); memset(sb_r, 0, sizeof sb_r);
    vt_begin("writes before reads"); vt_threads(2, b_sb, 0); vt_end();
    for (i = 1; i < SBN; i++) { int m = (sb_r[0][i] < (uint32_t)i) + (sb_r[1][i] < (uint32_t)i); VZ_CHECK(m < 2, "store-load", "round %d, way %d: both threads missed the write the other had made before", i, SK); if (m) one++; else both++; }
    vz_stat("rounds both saw", (uint64_t)both); vz_stat("rounds one missed", (uint64_t)one); vz_distinct(vz_hash(sb_r, sizeof sb_r, 77));
}
#define T_LINE {"line", t_line, 3}, {"fences", t_fence, 2}, {"store-load", t_sb, 1},
#else
#define T_LINE
#endif
VZ_MAIN(T_LINE {"plain", t_reg, 3}, {"single", t_single, 30}, {"chain", t_chain, 2}, {"exchange", t_xchg, 2}, {"bits", t_bits, 2}, {"whole", t_whole, 1}, {"publish", t_publish, 2})
