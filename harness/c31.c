/* C31: semaphores and rendezvous release exactly the waiters they should */
#include "vzt.h"
static int NT, OPS, HEAVY;
/* ---------------------------------------------------------------- semaphore counts */
static zpl_semaphore S, S2;
static uint64_t posted, passed, tried, tryok; /* monitor counters, relaxed */
static pthread_t wt[32]; static int wt_on[32], SIG;
static void nop(int s) { (void)s; }
static void passed_one(const char *how) {
    uint64_t w = vt_add(&passed, 1) + 1, p = vt_ld(&posted);
    VT_CHECK(w <= p, "unearned", "%llu waits (last: %s) completed after only %llu posts were begun", (unsigned long long)w, how, (unsigned long long)p);
    vt_step();
}
static int NP, NW; static int64_t need[32], give[32]; static int only_try[32];
static void b_sem(int no, void *u) {
    int64_t k; (void)u;
    if (no < NP) { for (k = give[no]; k > 0;) {
        int64_t c = vz_pct(60) ? 1 : vz_range(0, k < 9 ? k : 9);
        vt_add(&posted, (uint64_t)c);
        if (c == 1 && vz_pct(50)) zpl_semaphore_release(&S); else zpl_semaphore_post(&S, (zpl_i32)c);
        k -= c; vt_step(); vt_delay(HEAVY); }
    } else {
        vt_st(&wt[no], pthread_self()); vt_st(&wt_on[no], 1);
        for (k = need[no]; k > 0;) {
            if (only_try[no] || vz_pct(25)) { vt_add(&tried, 1); if (zpl_semaphore_trywait(&S) == 0) { vt_add(&tryok, 1); passed_one("trywait"); k--; } else if (vz_pct(50)) sched_yield(); }
            else { zpl_semaphore_wait(&S); passed_one("wait"); k--; }
            vt_delay(HEAVY);
        }
        vt_st(&wt_on[no], 0);
        while (vt_ld(&SIG)) sched_yield(); /* stay alive for the signaller */
    }
}
static void b_sig(void) { /* interrupts the waiters */
    int i, n; for (n = 0; n < 60; n++) { for (i = 0; i < 32; i++) if (vt_ld(&wt_on[i]) == 1) pthread_kill(vt_ld(&wt[i]), SIGUSR1); usleep(50); }
}
static void b_sem_sig(int no, void *u) { if (no == NP + NW) { b_sig(); vt_st(&SIG, 0); } else b_sem(no, u); }
static void t_sem(void) {
    int i; int64_t total = 0, left, extra, got = 0, sig = vz_pct(25);
    struct sigaction sa; memset(&sa, 0, sizeof sa); sa.sa_handler = nop; sigaction(SIGUSR1, &sa, 0); /* no SA_RESTART: waits are interrupted */
    NP = 1 + (int)vz_u(4); NW = 1 + (int)vz_u(5); HEAVY = vz_pct(40); posted = passed = tried = tryok = 0; vt_st(&SIG, (int)sig); memset(wt_on, 0, sizeof wt_on);
    for (i = 0; i < NW; i++) { need[NP + i] = (int64_t)vz_u(vz_pct(20) ? 800 : 120); only_try[NP + i] = vz_pct(20); total += need[NP + i]; }
    extra = (int64_t)vz_u(20); left = total + extra;
    for (i = 0; i < NP; i++) { give[i] = i == NP - 1 ? left : vz_range(0, left); left -= give[i]; }
    zpl_semaphore_init(&S);
    if (vz_pct(30)) VZ_CHECK(zpl_semaphore_trywait(&S) != 0, "initial", "a new semaphore let a non-blocking wait through");
    vt_begin("posts and waits"); vt_threads(NP + NW + (sig ? 1 : 0), b_sem_sig, 0); vt_end();
    VZ_CHECK((int64_t)passed == total, "count", "internal count");
    while (zpl_semaphore_trywait(&S) == 0 && got < extra + 100) got++;
    VZ_CHECK(got == extra, "conservation", "%lld posts, %lld waits completed, but %lld further waits went through", (long long)(total + extra), (long long)total, (long long)got);
    zpl_semaphore_destroy(&S);
    vz_distinct((uint64_t)total * 1009 + (uint64_t)extra * 31 + tried * 7 + (uint64_t)(NP * 8 + NW)); vz_stat("posts", posted); vz_stat("waits", passed); vz_stat("trywaits through", tryok); vz_stat("trywaits refused", tried - tryok); if (sig) vz_stat("runs with signals", 1);
    vz_sample("%d posters, %d waiters, %lld waits, %lld extra posts%s", NP, NW, (long long)total, (long long)extra, sig ? ", interrupted by signals" : "");
}
/* single-threaded histories against a counter */
static void t_counter(void) {
    int64_t c = 0; int k, n = 1 + (int)vz_u(60); uint64_t h = 5;
    zpl_semaphore_init(&S); vt_begin("one thread");
    for (k = 0; k < n; k++) {
        int op = (int)vz_u(5), p = vz_pct(80) ? (int)vz_u(6) : (int)vz_u(500);
        h = h * 131 + (uint64_t)(op * 500 + p);
        if (op == 0) { zpl_semaphore_post(&S, p); c += p; }
        else if (op == 1) { zpl_semaphore_release(&S); c++; }
        else if (op == 2 && c) { zpl_semaphore_wait(&S); c--; }
        else if (op >= 3) { int r = zpl_semaphore_trywait(&S); if ((r == 0) != (c > 0)) { vt_bad("trywait-truth", "a non-blocking wait reported %s with the count at %lld", r == 0 ? "success" : "failure", (long long)c); break; } if (r == 0) c--; }
        vt_step();
    }
    vt_end(); zpl_semaphore_destroy(&S); vz_distinct(h);
}
/* bounded buffer: what was written before a post is seen after the wait it let through */
static struct { uint64_t v[5]; } ringb[8]; static int RS, NPROD, NCONS; static zpl_semaphore SP, SC; static uint64_t rp, rc, cons_sum[16], prod_sum[16];
static void b_ring(int no, void *u) {
    int k, i; (void)u; 
    if (no < NPROD) { prod_sum[no] = 0; for (k = 0; k < OPS; k++) {
        uint64_t x = vz_r() >> 20;
        zpl_semaphore_wait(&S); /* a free slot */
        zpl_semaphore_wait(&SP); { uint64_t p = rp++ % (uint64_t)RS; for (i = 0; i < 5; i++) ringb[p].v[i] = x + (uint64_t)i; } zpl_semaphore_release(&SP);
        zpl_semaphore_post(&S2, 1); prod_sum[no] += x; vt_step(); vt_delay(HEAVY); }
    } else { uint64_t x; int mine = OPS * NPROD / NCONS + (no - NPROD < OPS * NPROD % NCONS); cons_sum[no] = 0; for (k = 0; k < mine; k++) {
        zpl_semaphore_wait(&S2);
        zpl_semaphore_wait(&SC); { uint64_t p = rc++ % (uint64_t)RS; x = ringb[p].v[0]; for (i = 1; i < 5; i++) VT_CHECK(ringb[p].v[i] == x + (uint64_t)i, "unpublished", "a slot was handed over before it was written"); for (i = 0; i < 5; i++) ringb[p].v[i] = (uint64_t)i * 999; } zpl_semaphore_release(&SC);
        zpl_semaphore_release(&S); cons_sum[no] += x; vt_step(); vt_delay(HEAVY); } }
}
static void t_ring(void) {
    uint64_t a = 0, b = 0; int i;
    RS = 1 + (int)vz_u(8); NPROD = 1 + (int)vz_u(3); NCONS = 1 + (int)vz_u(3); OPS = 10 + (int)vz_u(200); HEAVY = vz_pct(40); rp = rc = 0;
    zpl_semaphore_init(&S); zpl_semaphore_init(&S2); zpl_semaphore_init(&SP); zpl_semaphore_init(&SC); zpl_semaphore_post(&S, RS); zpl_semaphore_release(&SP); zpl_semaphore_release(&SC);
    vt_begin("bounded buffer"); vt_threads(NPROD + NCONS, b_ring, 0); vt_end();
    for (i = 0; i < NPROD; i++) a += prod_sum[i];
    for (i = 0; i < NCONS; i++) b += cons_sum[NPROD + i];
    VZ_CHECK(a == b, "lost-item", "items put in and taken out of the buffer differ");
    zpl_semaphore_destroy(&S); zpl_semaphore_destroy(&S2); zpl_semaphore_destroy(&SP); zpl_semaphore_destroy(&SC);
    vz_distinct(a); vz_stat("items passed", (uint64_t)(OPS * NPROD));
}
/* ---------------------------------------------------------------- rendezvous */
static zpl_sync Y; static int ROUNDS, TARGET[64]; static uint64_t arrived[64], passedR[64]; static uint64_t ordinals[64]; static uint64_t data[64][40];
static sem_t go[40]; static int KIND[64][40]; /* 0 = absent this round, 1 = reach, 2 = reach_and_wait */
static void one(int no, int r) {
    uint64_t before; int i;
    vt_delay(HEAVY);
    data[r][no] = (uint64_t)r + 1;               /* plain: must be visible to everybody past the point */
    vt_add(&arrived[r], 1);
    if (KIND[r][no] == 1) {
        zpl_i32 n = zpl_sync_reach(&Y);
        VT_CHECK(n >= 1 && n <= TARGET[r], "ordinal", "reach returned %d in a round of %d", n, TARGET[r]);
        if (n >= 1 && n <= 63) { uint64_t o = __atomic_fetch_or(&ordinals[r], 1ull << n, __ATOMIC_RELAXED); VT_CHECK(!(o >> n & 1), "ordinal", "two threads of one round were both told they were number %d", n); }
    } else {
        zpl_sync_reach_and_wait(&Y);
        before = vt_ld(&arrived[r]);
        VT_CHECK(before == (uint64_t)TARGET[r], "early", "a thread passed round %d after %llu of %d arrivals", r, (unsigned long long)before, TARGET[r]);
        for (i = 0; i < NT; i++) if (KIND[r][i]) VT_CHECK(data[r][i] == (uint64_t)r + 1, "unpublished", "past the rendezvous, thread %d's earlier write is not there", i);
        vt_add(&passedR[r], 1);
    }
    vt_step();
}
static void b_sync(int no, void *u) {
    int r, i; (void)u;
    if (no == NT - 1) { /* leads: opens each round, then takes part or not */
        for (r = 0; r < ROUNDS; r++) {
            zpl_sync_set_target(&Y, TARGET[r]); vt_step();
            for (i = 0; i < NT - 1; i++) if (KIND[r][i]) sem_post(&go[i]);
            if (KIND[r][no]) one(no, r);
            vt_delay(HEAVY);
        }
    } else for (r = 0; r < ROUNDS; r++) if (KIND[r][no]) { while (sem_wait(&go[no])) ; one(no, r); }
}
static void t_sync(void) {
    int r, i; uint64_t h = 3;
    NT = 2 + (int)vz_u(7); ROUNDS = 1 + (int)vz_u(40); HEAVY = vz_pct(50);
    memset(arrived, 0, sizeof arrived); memset(passedR, 0, sizeof passedR); memset(ordinals, 0, sizeof ordinals); memset(KIND, 0, sizeof KIND); memset(data, 0, sizeof data);
    for (i = 0; i < NT; i++) { if (sem_init(&go[i], 0, 0)) VZ_BROKEN("sem_init"); }
    for (r = 0; r < ROUNDS; r++) {
        int style = (int)vz_u(4); TARGET[r] = 0;
        for (i = 0; i < NT; i++) {
            int k = style == 0 ? 2 : style == 1 ? (i == NT - 1 ? 2 : 1) : style == 2 ? (int)vz_u(3) : 1 + (int)vz_u(2);
            KIND[r][i] = k; TARGET[r] += k != 0; h = h * 5 + (uint64_t)k;
        }
        if (!TARGET[r]) { KIND[r][0] = 2; TARGET[r] = 1; }
    }
    zpl_sync_init(&Y);
    vt_begin("rendezvous rounds"); vt_threads(NT, b_sync, 0); vt_end();
    for (r = 0; r < ROUNDS; r++) {
        uint64_t w = 0, q = 0; for (i = 0; i < NT; i++) { w += KIND[r][i] == 2; q += KIND[r][i] == 1; }
        VZ_CHECK(passedR[r] == w, "lost", "round %d: %llu of %llu waiting threads passed", r, (unsigned long long)passedR[r], (unsigned long long)w);
        VZ_CHECK((uint64_t)__builtin_popcountll(ordinals[r]) == q, "ordinal", "round %d: ordinals missing", r);
        vz_stat("threads through", w + q);
    }
    zpl_sync_destroy(&Y); for (i = 0; i < NT; i++) sem_destroy(&go[i]);
    vz_distinct(h); vz_stat("rounds", (uint64_t)ROUNDS);
    vz_sample("%d threads, %d rounds", NT, ROUNDS);
}
VZ_MAIN({"counter", t_counter, 6}, {"posts", t_sem, 3}, {"buffer", t_ring, 3}, {"rendezvous", t_sync, 4})
