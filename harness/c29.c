/* C29: locks give mutual exclusion under every schedule */
#include "vzt.h"
enum { K_MUTEX, K_S32, K_S64, K_PTR, K_N };
static const char *kname[] = { "mutex", "32-bit spin lock", "64-bit spin lock", "pointer spin lock" };
typedef struct {
    int kind;
    zpl_mutex m; zpl_atomic32 pad0, a32, pad1; zpl_atomic64 a64; zpl_atomic_ptr ap;
    /* guarded by the lock, plain on purpose */
    uint64_t count, words[6]; unsigned char order[4096]; uint64_t norder;
    /* monitor */
    int owner; uint64_t taken, refused;
} lk;
static lk *L; static int NL, NT, OPS, HEAVY;

static int acquire(lk *l, int how) { /* 1 = held */
    static const zpl_isize limit[] = { -1, 0, 1, 7, 60 };
    zpl_isize t = limit[how % 5];
    switch (l->kind) {
        case K_MUTEX: if (how < 5) { zpl_mutex_lock(&l->m); return 1; } return zpl_mutex_try_lock(&l->m) != 0;
        case K_S32: return (how < 5 ? zpl_atomic32_spin_lock(&l->a32, t) : zpl_atomic32_try_acquire_lock(&l->a32)) != 0;
        case K_S64: return (how < 5 ? zpl_atomic64_spin_lock(&l->a64, t) : zpl_atomic64_try_acquire_lock(&l->a64)) != 0;
        default: return (how < 5 ? zpl_atomic_ptr_spin_lock(&l->ap, t) : zpl_atomic_ptr_try_acquire_lock(&l->ap)) != 0;
    }
}
static void release(lk *l) {
    switch (l->kind) {
        case K_MUTEX: zpl_mutex_unlock(&l->m); break;
        case K_S32: zpl_atomic32_spin_unlock(&l->a32); break;
        case K_S64: zpl_atomic64_spin_unlock(&l->a64); break;
        default: zpl_atomic_ptr_spin_unlock(&l->ap);
    }
}
static void lk_init(lk *l, int kind) {
    memset(l, 0, sizeof *l); l->kind = kind;
    zpl_atomic32_store(&l->pad0, 0x1234567); zpl_atomic32_store(&l->pad1, -77);
    if (kind == K_MUTEX) VZ_CHECK(zpl_mutex_init(&l->m), "init", "initialising a mutex reported failure");
}
static void lk_done(lk *l) {
    VZ_CHECK(zpl_atomic32_load(&l->pad0) == 0x1234567 && zpl_atomic32_load(&l->pad1) == -77, "neighbour", "%s: a word beside the lock changed", kname[l->kind]);
    if (l->kind == K_MUTEX) VZ_CHECK(zpl_mutex_destroy(&l->m), "destroy", "destroying an unlocked mutex reported failure");
}
static void inside(lk *l, int me) { /* the critical section and its monitor */
    int o, i; uint64_t c;
    o = vt_ld(&l->owner); VT_CHECK(o == 0, "mutual-exclusion", "%s: thread %d entered while thread %d was inside", kname[l->kind], me, o);
    vt_st(&l->owner, me);
    c = l->count;
    for (i = 0; i < 6; i++) VT_CHECK(l->words[i] == c, "stale-view", "%s: word %d is %llu after %llu critical sections", kname[l->kind], i, (unsigned long long)l->words[i], (unsigned long long)c);
    l->count = c + 1;
    for (i = 0; i < 6; i++) { l->words[i] = c + 1; if (i == 2) vt_delay(HEAVY); }
    if (l->norder < sizeof l->order) l->order[l->norder++] = (unsigned char)me;
    o = vt_ld(&l->owner); VT_CHECK(o == me, "mutual-exclusion", "%s: thread %d found thread %d inside with it", kname[l->kind], me, o);
    vt_st(&l->owner, 0);
}
static void body(int no, void *u) {
    int k, me = no + 1; (void)u;
    for (k = 0; k < OPS; k++) {
        lk *l = &L[vz_u((uint64_t)NL)]; int how = vz_pct(45) ? 0 : (int)vz_u(10), must = how == 0 || (l->kind == K_MUTEX && how < 5);
        if (acquire(l, how)) {
            vt_add(&l->taken, 1); inside(l, me);
            if (l < L + NL - 1 && vz_pct(15)) { lk *m = l + 1; if (acquire(m, 0)) { vt_add(&m->taken, 1); inside(m, me); release(m); } else vt_bad("wait-refused", "%s: waiting without limit returned without the lock", kname[m->kind]); }
            release(l);
        } else { vt_add(&l->refused, 1); VT_CHECK(!must, "wait-refused", "%s: waiting without limit returned without the lock", kname[l->kind]); }
        vt_step(); if (vz_pct(40)) vt_delay(HEAVY);
    }
}
static void t_contend(void) {
    int i; uint64_t h = 0; static lk locks[4];
    L = locks; NL = 1 + (int)vz_u(3); NT = 2 + (int)vz_u(5); OPS = 30 + (int)vz_u(vz_pct(20) ? 1500 : 250); HEAVY = vz_pct(50);
    for (i = 0; i < NL; i++) lk_init(&L[i], (int)vz_u(K_N));
    vt_begin("threads on shared locks");
    vt_threads(NT, body, 0);
    vt_end();
    for (i = 0; i < NL; i++) {
        VZ_CHECK(L[i].count == L[i].taken, "lost-section", "%s: %llu critical sections ran but %llu acquisitions were reported", kname[L[i].kind], (unsigned long long)L[i].count, (unsigned long long)L[i].taken);
        /* nobody holds it now, whatever was refused meanwhile */
        VZ_CHECK(acquire(&L[i], 5), "not-free", "%s: try-lock refused after every holder released", kname[L[i].kind]);
        if (L[i].kind != K_MUTEX) VZ_CHECK(!acquire(&L[i], 5), "taken-twice", "%s: taken a second time while held", kname[L[i].kind]);
        release(&L[i]);
        h = vz_hash(L[i].order, L[i].norder, h + (uint64_t)L[i].kind); vz_stat("critical sections", L[i].count); vz_stat("refused attempts", L[i].refused); vz_stat(kname[L[i].kind], 1);
        { uint64_t sw = 0, j; for (j = 1; j < L[i].norder; j++) sw += L[i].order[j] != L[i].order[j - 1]; vz_stat("hand-overs between threads", sw); }
        lk_done(&L[i]);
    }
    vz_distinct(h); vz_sample("%d threads, %d locks, %d steps each, %llu sections", NT, NL, OPS, (unsigned long long)L[0].count);
}
/* what a single other thread sees of a lock whose state is known */
static int probe_how, probe_res;
static void probe(int no, void *u) { (void)no; probe_res = acquire((lk *)u, probe_how); if (probe_res) release((lk *)u); vt_step(); }
static void t_states(void) {
    static lk l; int kind = (int)vz_u(K_N), k, n = 2 + (int)vz_u(12), held = 0; uint64_t h = (uint64_t)kind;
    lk_init(&l, kind); vt_begin("lock states");
    for (k = 0; k < n; k++) {
        int how = (int)vz_u(10), r;
        h = h * 31 + (uint64_t)(how * 2 + held);
        switch (vz_u(3)) {
            case 0: if (held) { release(&l); held = 0; } else { r = acquire(&l, how); if (!r) vt_bad("refused-free", "%s: refused (way %d) although free", kname[kind], how); else held = 1; } break;
            case 1: /* another thread, bounded attempts only */
                probe_how = 5 + (int)vz_u(5); if (kind != K_MUTEX) probe_how = 1 + (int)vz_u(9);
                vt_threads(1, probe, &l);
                VT_CHECK(!probe_res == held, "try-truth", "%s is %s but another thread's attempt (way %d) reported %s", kname[kind], held ? "held" : "free", probe_how, probe_res ? "success" : "failure");
                break;
            default: if (held && kind != K_MUTEX) { how = 1 + (int)vz_u(9); r = acquire(&l, how); VT_CHECK(!r, "taken-twice", "%s: taken again (way %d) while held", kname[kind], how); } break;
        }
        vt_step();
        if (vt_bad_set) break;
    }
    if (held) release(&l);
    if (!vt_bad_set) { VT_CHECK(acquire(&l, 5), "not-free", "%s: cannot be taken after its release", kname[kind]); if (!vt_bad_set) release(&l); }
    vt_end(); lk_done(&l); vz_distinct(h * 0x100000001b3ull);
}
/* one thread keeps the lock for a long while; those that wait without limit stay outside */
static int hold_kind, hold_in, hold_ms;
static void hold(int no, void *u) {
    lk *l = u; int k;
    if (no == 0) {
        if (!acquire(l, 0)) { vt_bad("wait-refused", "%s: waiting without limit returned without the lock", kname[hold_kind]); return; }
        vt_st(&hold_in, 1);
        for (k = 0; k < hold_ms; k += 10) { usleep(10000); vt_step(); if (vt_bad_set) break; }
        l->count++; vt_st(&hold_in, 0); release(l);
    } else {
        usleep((unsigned)vz_u(30000));
        if (acquire(l, 0)) { VT_CHECK(!vt_ld(&hold_in), "mutual-exclusion", "%s: a waiting thread entered while another held it for %d ms", kname[hold_kind], hold_ms); l->count++; release(l); }
        else vt_bad("wait-refused", "%s: waiting without limit returned without the lock", kname[hold_kind]);
    }
    vt_step();
}
static void t_hold(void) {
    static lk l; int n = 2 + (int)vz_u(2); hold_kind = vz_pct(40) ? K_MUTEX : (int)vz_u(K_N); hold_ms = 300 + (int)vz_u(1800); hold_in = 0;
    lk_init(&l, hold_kind); vt_begin("a lock held for long"); vt_threads(n, hold, &l); vt_end();
    VZ_CHECK(l.count == (uint64_t)n, "lost-section", "%s: %llu of %d critical sections", kname[hold_kind], (unsigned long long)l.count, n);
    lk_done(&l); vz_stat("long holds", 1); vz_distinct(0x10ec + (uint64_t)(hold_kind * 4 + n));
}
VZ_MAIN({"contention", t_contend, 300}, {"states", t_states, 300}, {"long holds", t_hold, 4})
