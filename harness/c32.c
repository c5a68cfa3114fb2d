/* C32: a thread runs its procedure exactly once and joining waits for it */
#include "vzt.h"
#include <dirent.h>
/* ---- what reaches the C library: every thread made must be joined or detached */
static uint64_t made, ended; static int refuse_next;
int __real_pthread_create(pthread_t *, const pthread_attr_t *, void *(*)(void *), void *);
int __real_pthread_join(pthread_t, void **);
int __real_pthread_detach(pthread_t);
int __wrap_pthread_create(pthread_t *t, const pthread_attr_t *a, void *(*f)(void *), void *u) {
    int r; if (vt_ld(&refuse_next)) { vt_add(&refuse_next, -1); *t = (pthread_t)0x5151515151ull; return EAGAIN; }
    r = __real_pthread_create(t, a, f, u); if (!r) vt_add(&made, 1); return r;
}
int __wrap_pthread_join(pthread_t t, void **v) { int r = __real_pthread_join(t, v); if (!r) vt_add(&ended, 1); return r; }
int __wrap_pthread_detach(pthread_t t) { int r = __real_pthread_detach(t); if (!r) vt_add(&ended, 1); return r; }

typedef struct {
    zpl_thread *th; int no, gate, deep; zpl_isize ret, stack; uint64_t in, out[4]; /* plain: visible after the join */
    zpl_u32 id; int runs; int started; int heavy; size_t gotstack; pthread_t self;
} job;
static int gate_open, gate_in; /* all of a batch alive together */
static zpl_isize child_proc(zpl_thread *t) { uint64_t *p = (uint64_t *)t->user_data; vt_enter(); p[1] = p[0] + 1; vt_step(); vt_leave(); return 77; }
static zpl_isize proc(zpl_thread *t) {
    job *j = (job *)t->user_data; int i; pthread_attr_t a; void *base;
    vt_enter(); vz_s = j->in;
    vt_add(&j->runs, 1);
    VT_CHECK(t == j->th, "wrong-object", "the procedure got another thread object than the one started");
    j->self = pthread_self(); j->id = zpl_thread_current_id();
    if (!pthread_getattr_np(pthread_self(), &a)) { pthread_attr_getstack(&a, &base, &j->gotstack); pthread_attr_destroy(&a); }
    if (j->gate) { vt_add(&gate_in, 1); while (!__atomic_load_n(&gate_open, __ATOMIC_ACQUIRE)) sched_yield(); }
    VT_CHECK(zpl_thread_current_id() == j->id, "id-changes", "a thread's identifier changed while it ran");
    if (j->deep) { uint64_t p[2] = { j->in, 0 }; zpl_thread c; zpl_thread_init(&c); if (!zpl_thread_start(&c, child_proc, p)) vt_bad("start", "a nested thread was not started"); else { zpl_thread_join(&c); VT_CHECK(p[1] == j->in + 1 && c.return_value == 77, "nested", "a nested thread's work is not there after the join"); } zpl_thread_destroy(&c); }
    vt_delay(j->heavy);
    for (i = 0; i < 4; i++) j->out[i] = j->in * (uint64_t)(i + 3);
    vt_step(); vt_leave();
    return j->ret;
}
static const zpl_isize sizes[] = { 0, 16384, 65536, 262144, 600000, 1 << 20, 4 << 20, 300 };
/* the library's own thread-local buffers (some 256 kB) live on the stack, so the system refuses smaller ones */
#define MAY_REFUSE(j) ((j)->stack >= 16384 && (j)->stack < 512 << 10)
#define NJ 24
static void job_new(job *j, zpl_thread *t, int no, int gate) { memset(j, 0, sizeof *j); j->th = t; j->no = no; j->gate = gate; j->deep = vz_pct(10); j->heavy = vz_pct(50); j->in = vz_r() | 1; j->ret = (zpl_isize)vz_edge64(); j->stack = vz_pct(50) ? 0 : sizes[vz_u(8)]; }
static int job_start(job *j) { return j->stack ? zpl_thread_start_with_stack(j->th, proc, j, j->stack) : zpl_thread_start(j->th, proc, j); }
static void job_see(job *j, const char *how) { /* after join or destroy */
    int i, r = vt_ld(&j->runs);
    VT_CHECK(r == 1, "runs", "after %s, the procedure had run %d times", how, r);
    for (i = 0; i < 4; i++) VT_CHECK(j->out[i] == j->in * (uint64_t)(i + 3), "not-finished", "after %s, the thread's writes are not there", how);
    VT_CHECK(j->th->return_value == j->ret, "return-value", "after %s, the return value is %lld, the procedure returned %lld", how, (long long)j->th->return_value, (long long)j->ret);
    VT_CHECK(!zpl_thread_is_running(j->th), "still-running", "after %s, the thread is still reported as running", how);
    VT_CHECK(!pthread_equal(j->self, pthread_self()), "own-thread", "the procedure ran in the calling thread");
    if (j->stack >= 16384) VT_CHECK(j->gotstack + 4096 >= (size_t)j->stack, "stack", "a thread started with a stack of %lld got %zu", (long long)j->stack, j->gotstack);
}
static int tasks(void) { int n = 0; DIR *d = opendir("/proc/self/task"); struct dirent *e; while (d && (e = readdir(d))) n += e->d_name[0] != '.'; if (d) closedir(d); return n; }
static void no_leak(int before) {
    int n = 0, i; VZ_CHECK(made == ended, "unjoined", "%llu threads were created, %llu joined or detached, after every object was destroyed", (unsigned long long)made, (unsigned long long)ended);
    for (i = 0; i < 4000; i++) { n = tasks(); if (n <= before) return; usleep(1000); }
    VZ_FAIL("thread-leak", "%d threads before, %d left", before, n);
}
/* many alive together */
static void t_batch(void) {
    static zpl_thread t[NJ]; static job j[NJ]; int n = 1 + (int)vz_u(vz_pct(30) ? NJ : 8), i, k, order[NJ], gate = vz_pct(70), ok[NJ], t0; uint64_t h = (uint64_t)n; zpl_u32 me = zpl_thread_current_id();
    vt_begin("a batch of threads"); made = ended = 0; t0 = tasks(); vt_st(&gate_open, 0); vt_st(&gate_in, 0);
    for (i = 0; i < n; i++) {
        int nowait = vz_pct(40);
        memset(&t[i], 0xCC, sizeof t[i]);
        if (nowait) zpl_thread_init_nowait(&t[i]); else zpl_thread_init(&t[i]);
        VT_CHECK(!zpl_thread_is_running(&t[i]), "running", "a thread never started is reported as running");
        job_new(&j[i], &t[i], i, gate); order[i] = i;
        ok[i] = job_start(&j[i]) != 0; VT_CHECK(ok[i] || MAY_REFUSE(&j[i]), "start", "a thread could not be started (stack %lld)", (long long)j[i].stack);
        if (gate && !nowait && ok[i]) VT_CHECK(zpl_thread_is_running(&t[i]), "running", "a started thread waiting in its procedure is not reported as running");
        if (vz_pct(20)) zpl_thread_set_name(&t[i], "worker");
        h = h * 31 + (uint64_t)nowait * 8 + (uint64_t)j[i].stack; vt_step();
    }
    if (gate) { { int live = 0; for (i = 0; i < n; i++) live += ok[i]; while (vt_ld(&gate_in) < live && !vt_ld(&vt_bad_set)) sched_yield(); } __atomic_store_n(&gate_open, 1, __ATOMIC_RELEASE); }
    for (i = n - 1; i > 0; i--) { k = (int)vz_u((uint64_t)i + 1); { int x = order[i]; order[i] = order[k]; order[k] = x; } }
    for (k = 0; k < n; k++) {
        i = order[k]; h = h * 31 + (uint64_t)i; if (!ok[i]) { VT_CHECK(!vt_ld(&j[i].runs) && !zpl_thread_is_running(&t[i]), "refused-start", "a thread whose start failed ran or counts as running"); zpl_thread_destroy(&t[i]); vz_stat("stacks too small", 1); continue; }
        if (vz_pct(50)) { zpl_thread_join(&t[i]); job_see(&j[i], "join"); zpl_thread_destroy(&t[i]); } else { zpl_thread_destroy(&t[i]); job_see(&j[i], "destroy"); }
        vt_step();
    }
    if (gate) for (i = 0; i < n; i++) if (ok[i]) { VT_CHECK(j[i].id != me, "same-id", "a thread has the main thread's identifier"); for (k = 0; k < i; k++) if (ok[k]) VT_CHECK(j[i].id != j[k].id, "same-id", "two live threads have identifier %u", j[i].id); }
    VT_CHECK(zpl_thread_current_id() == me, "id-changes", "the main thread's identifier changed");
    vt_end(); no_leak(t0); vz_distinct(h); vz_stat("threads run", (uint64_t)n); if (gate) vz_stat("batches alive together", 1);
    vz_sample("%d threads, %s", n, gate ? "all alive together" : "free-running");
}
/* one object, many lives; some starts refused */
static void t_reuse(void) {
    zpl_thread t; job j; int n = 1 + (int)vz_u(30), k, t0, nowait = vz_pct(50), live = 0; uint64_t h = 9;
    vt_begin("one thread object reused"); made = ended = 0; t0 = tasks(); vt_st(&refuse_next, 0);
    if (nowait) zpl_thread_init_nowait(&t); else zpl_thread_init(&t); live = 1;
    for (k = 0; k < n && !vt_ld(&vt_bad_set); k++) {
        int op = (int)vz_u(10); h = h * 11 + (uint64_t)op;
        if (!live) { nowait = vz_pct(50); if (nowait) zpl_thread_init_nowait(&t); else zpl_thread_init(&t); live = 1; }
        if (op < 6) { job_new(&j, &t, k, 0); if (!job_start(&j)) VT_CHECK(MAY_REFUSE(&j) && !vt_ld(&j.runs), "start", "start %d of a reused object failed", k); else { zpl_thread_join(&t); job_see(&j, "join"); } }
        else if (op < 8) { job_new(&j, &t, k, 0); if (!job_start(&j)) VT_CHECK(MAY_REFUSE(&j) && !vt_ld(&j.runs), "start", "start %d of a reused object failed", k); else { zpl_thread_destroy(&t); job_see(&j, "destroy"); live = 0; } }
        else if (op == 8) { int r; job_new(&j, &t, k, 0); vt_st(&refuse_next, 1); r = job_start(&j); VT_CHECK(!r, "refused-start", "the system refused a thread, start reported success"); VT_CHECK(!vt_ld(&j.runs), "refused-start", "a refused thread ran"); VT_CHECK(!zpl_thread_is_running(&t), "running", "a thread that could not be started is reported as running"); vt_st(&refuse_next, 0); vz_stat("refused starts", 1); if (vz_pct(50)) { zpl_thread_destroy(&t); live = 0; } }
        else { zpl_thread_destroy(&t); live = 0; }
        vt_step();
    }
    if (live) zpl_thread_destroy(&t);
    vt_end(); no_leak(t0); vz_distinct(h); vz_stat("lives of one object", (uint64_t)n);
}
/* several threads each managing their own */
static uint64_t mgr_h[8];
static void b_mgr(int no, void *u) {
    zpl_thread t[3]; job j[3]; int k, i; (void)u; mgr_h[no] = 0;
    for (k = 0; k < 6; k++) {
        for (i = 0; i < 3; i++) { if (vz_pct(50)) zpl_thread_init_nowait(&t[i]); else zpl_thread_init(&t[i]); job_new(&j[i], &t[i], i, 0); if (MAY_REFUSE(&j[i])) j[i].stack = 0; if (!job_start(&j[i])) { vt_bad("start", "start failed"); return; } }
        for (i = 2; i >= 0; i--) { if (vz_pct(50)) { zpl_thread_join(&t[i]); job_see(&j[i], "join"); zpl_thread_destroy(&t[i]); } else { zpl_thread_destroy(&t[i]); job_see(&j[i], "destroy"); } mgr_h[no] = mgr_h[no] * 31 + (uint64_t)j[i].stack; }
        vt_step();
    }
}
static void t_managers(void) {
    int n = 2 + (int)vz_u(4), i, t0; uint64_t h = 0;
    vt_begin("threads started by several threads"); made = ended = 0; t0 = tasks();
    vt_threads(n, b_mgr, 0); vt_end(); no_leak(t0);
    for (i = 0; i < n; i++) h = h * 131 + mgr_h[i];
    vz_distinct(h); vz_stat("threads run", (uint64_t)n * 18);
}
VZ_MAIN({"batch", t_batch, 4}, {"reuse", t_reuse, 4}, {"managers", t_managers, 1})
