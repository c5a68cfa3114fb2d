/* C55: the processor layout that is reported, and binding threads to processors.
 * The oracle is the kernel: what the calling thread (and every other thread) is
 * allowed to run on before and after each call; and whether the kernel would
 * have accepted the binding, found out by asking it directly first. */
#include "vzt.h"
#ifdef __clang__
#define RAW __attribute__((disable_sanitizer_instrumentation)) /* the sanitizer's own start-up comes through here */
#else
#define RAW
#endif
static __thread int refuse, asked; static long fake_online; static int consulted;
long __real_syscall(long, ...);
RAW long __wrap_syscall(long n, ...) {
    long a[6]; int i; va_list v; va_start(v, n); for (i = 0; i < 6; i++) a[i] = va_arg(v, long); va_end(v);
    if (n == SYS_sched_setaffinity) { asked++; if (refuse) { errno = refuse; return -1; } }
    return __real_syscall(n, a[0], a[1], a[2], a[3], a[4], a[5]);
}
int __real_sched_setaffinity(pid_t, size_t, const cpu_set_t *); RAW int __wrap_sched_setaffinity(pid_t p, size_t n, const cpu_set_t *s) { asked++; if (refuse) { errno = refuse; return -1; } return __real_sched_setaffinity(p, n, s); }
int __real_pthread_setaffinity_np(pthread_t, size_t, const cpu_set_t *); RAW int __wrap_pthread_setaffinity_np(pthread_t p, size_t n, const cpu_set_t *s) { asked++; if (refuse) return refuse; return __real_pthread_setaffinity_np(p, n, s); }
long __real_sysconf(int); RAW long __wrap_sysconf(int k) { if (fake_online && (k == _SC_NPROCESSORS_ONLN || k == _SC_NPROCESSORS_CONF)) { consulted = 1; return fake_online == -2 ? 0 : fake_online; } return __real_sysconf(k); }
int __real_get_nprocs(void); RAW int __wrap_get_nprocs(void) { if (fake_online) { consulted = 1; return fake_online < 0 ? 1 : (int)fake_online; } return __real_get_nprocs(); }
int __real_get_nprocs_conf(void); RAW int __wrap_get_nprocs_conf(void) { if (fake_online) { consulted = 1; return fake_online < 0 ? 1 : (int)fake_online; } return __real_get_nprocs_conf(); }

static int may[CPU_SETSIZE], n_may; static cpu_set_t whole; /* what this process may use; found out once */
static void learn(void) {
    int i; cpu_set_t s; static int done; if (done) return; done = 1;
    if (sched_getaffinity(0, sizeof whole, &whole)) VZ_BROKEN("sched_getaffinity");
    for (i = 0; i < CPU_SETSIZE; i++) { CPU_ZERO(&s); CPU_SET(i, &s); if (!__real_sched_setaffinity(0, sizeof s, &s)) { may[i] = 1; n_may++; } }
    if (__real_sched_setaffinity(0, sizeof whole, &whole)) VZ_BROKEN("cannot restore the affinity");
}
static void back(void) { if (__real_sched_setaffinity(0, sizeof whole, &whole)) VZ_BROKEN("cannot restore the affinity"); }
static zpl_affinity *sh; static cpu_set_t held[64]; static int held_ok[64], ROUNDS;
static uint64_t path;

/* one call, judged; 'now' is what the thread is allowed to run on, kept up to date */
static void one(zpl_affinity *a, cpu_set_t *now, int no) {
    zpl_isize core, th; int r, want, valid, i; cpu_set_t after; static const int er[] = {EPERM, EINVAL, ESRCH, EFAULT}; long idx;
    switch (vz_u(8)) { case 0: core = a->core_count + (zpl_isize)vz_u(3); break; case 1: core = -1 - (zpl_isize)vz_u(70); break; case 2: core = (zpl_isize)(vz_edge64() % 5000); break; default: core = (zpl_isize)vz_u((uint64_t)a->core_count); break; }
    switch (vz_u(10)) { case 0: th = a->threads_per_core; break; case 1: th = -1; break; default: th = (zpl_isize)vz_u((uint64_t)a->threads_per_core); break; }
    valid = core >= 0 && core < a->core_count && th >= 0 && th < a->threads_per_core; idx = valid ? (long)(core * a->threads_per_core + th) : -1;
    if (!valid && vz_pct(40)) return;
    refuse = vz_pct(15) ? er[vz_u(4)] : 0; asked = 0; errno = 0;
    want = valid && idx < CPU_SETSIZE && may[idx] && !refuse;
    r = zpl_affinity_set(a, core, th) != 0;
    i = refuse; refuse = 0;
    if (sched_getaffinity(0, sizeof after, &after)) { vt_bad("harness", "sched_getaffinity"); return; }
    if (r) {
        VT_CHECK(valid, "accepted", "binding to core %ld thread %ld of %ld cores of %ld was reported done", (long)core, (long)th, (long)a->core_count, (long)a->threads_per_core);
        VT_CHECK(!valid || (CPU_COUNT(&after) == 1 && CPU_ISSET(idx, &after)), "not-bound", "binding to core %ld thread %ld was reported done%s, but the thread may run on %d processors, %s that one", (long)core, (long)th, i ? " (the system had refused)" : "", CPU_COUNT(&after), CPU_ISSET(idx, &after) ? "among them" : "not");
        *now = after;
        if (valid && (!(vz_r() & 15))) { int at = sched_getcpu(); VT_CHECK(at == idx, "elsewhere", "bound to processor %ld, running on %d", idx, at); }
        vt_step();
    } else VT_CHECK(CPU_EQUAL(&after, now), "moved", "binding to core %ld thread %ld was refused, but what the thread may run on changed", (long)core, (long)th);
    VT_CHECK(r == want || (!want && !valid), r ? "claimed" : "refused", "binding to core %ld thread %ld (processor %ld): reported %s; the system %s", (long)core, (long)th, idx, r ? "done" : "not done", want ? "allows it" : i ? "refused" : "does not have it");
    held[no] = after; held_ok[no] = 1; vt_add(&path, vz_hash(&core, sizeof core, (uint64_t)th * 4 + (uint64_t)r * 2 + (uint64_t)(i != 0) + (uint64_t)no * 977));
}
static void b_set(int no, void *u) {
    int k; cpu_set_t now, chk; (void)u;
    if (sched_getaffinity(0, sizeof now, &now)) { vt_bad("harness", "sched_getaffinity"); return; }
    for (k = 0; k < ROUNDS && !vt_ld(&vt_bad_set); k++) {
        if (vz_pct(10)) { cpu_set_t s; int i; CPU_ZERO(&s); for (i = 0; i < CPU_SETSIZE; i++) if (may[i] && vz_pct(60)) CPU_SET(i, &s); if (CPU_COUNT(&s) && !__real_sched_setaffinity(0, sizeof s, &s)) now = s; } /* the program narrows it itself */
        one(sh, &now, no); vt_delay(0);
        /* nothing the others do may change this thread */
        if (sched_getaffinity(0, sizeof chk, &chk) || !CPU_EQUAL(&chk, &now)) { VT_CHECK(0, "disturbed", "what a thread may run on changed while only other threads were being bound"); return; }
        vt_step();
    }
}
static void layout(zpl_affinity *a, long online, int told) {
    zpl_isize i, sum = 0;
    VZ_CHECK(a->core_count >= 1 && a->threads_per_core >= 1 && a->thread_count >= a->core_count, "layout", "%ld cores, %ld threads, %ld threads per core", (long)a->core_count, (long)a->thread_count, (long)a->threads_per_core);
    VZ_CHECK(a->thread_count == a->core_count * a->threads_per_core, "layout-product", "%ld cores of %ld threads make %ld", (long)a->core_count, (long)a->threads_per_core, (long)a->thread_count);
    for (i = 0; i < a->core_count; i++) { zpl_isize n = zpl_affinity_thread_count_for_core(a, i); VZ_CHECK(n == a->threads_per_core, "per-core", "core %ld has %ld threads", (long)i, (long)n); sum += n; }
    VZ_CHECK(sum == a->thread_count, "sum", "the cores have %ld threads together, %ld are reported", (long)sum, (long)a->thread_count);
    if (told && online > 0) VZ_CHECK(a->thread_count == online && a->is_accurate, "online", "%ld processors are online, %ld reported%s", online, (long)a->thread_count, a->is_accurate ? "" : " as a guess");
    if (told && online <= 0) VZ_CHECK(!a->is_accurate && a->thread_count == 1, "guess", "the number of processors is not known: %ld reported%s", (long)a->thread_count, a->is_accurate ? " as accurate" : "");
}
static void mk(zpl_affinity *a) { memset(a, vz_pct(50) ? 0xA5 : 0, sizeof *a); zpl_affinity_init(a); }
static void t_layout(void) {
    static const long n[] = {-1, -2, 1, 2, 3, 7, 8, 63, 64, 65, 128, 1023, 1024, 1025, 4096}; zpl_affinity a; long o = vz_pct(70) ? n[vz_u(15)] : 1 + (long)vz_u(2000);
    learn(); consulted = 0;
    if (vz_pct(20)) { mk(&a); layout(&a, sysconf(_SC_NPROCESSORS_ONLN), 0); VZ_CHECK(a.is_accurate && (a.thread_count == sysconf(_SC_NPROCESSORS_ONLN) || a.thread_count == n_may), "online", "%ld processors online, %ld reported", sysconf(_SC_NPROCESSORS_ONLN), (long)a.thread_count); zpl_affinity_destroy(&a); return; }
    fake_online = o; mk(&a); fake_online = 0;
    if (consulted) vz_stat("stand-in layouts", 1);
    layout(&a, o == -2 ? 0 : o, consulted);
    { cpu_set_t b, c; int k; sched_getaffinity(0, sizeof b, &b); zpl_affinity_destroy(&a); mk(&a); sched_getaffinity(0, sizeof c, &c); VZ_CHECK(CPU_EQUAL(&b, &c), "asking-binds", "asking for the layout changed what the thread may run on"); k = (int)a.thread_count; vz_distinct((uint64_t)o * 1000 + (uint64_t)k); }
    zpl_affinity_destroy(&a);
}
static void t_bind(void) { /* one thread; layouts larger than the machine too */
    zpl_affinity a; cpu_set_t now; int k, n = 1 + (int)vz_u(12);
    learn(); back(); path = 0; if (vz_pct(40)) { static const long f[] = {1, 2, 64, 65, 200, 1024, 1030, 5000}; fake_online = f[vz_u(8)]; } mk(&a); fake_online = 0;
    now = whole; vt_begin("binding one thread"); for (k = 0; k < n && !vt_bad_set; k++) { one(&a, &now, 0); vt_step(); }
    back(); vt_end(); vz_stat("bindings judged", (uint64_t)n); vz_distinct(path); zpl_affinity_destroy(&a);
}
static void t_threads(void) {
    zpl_affinity a; int n = 2 + (int)vz_u(7); cpu_set_t b, c; learn(); back(); path = 0; mk(&a); sh = &a; ROUNDS = 1 + (int)vz_u(20);
    sched_getaffinity(0, sizeof b, &b);
    vt_begin("binding threads"); vt_threads(n, b_set, 0);
    sched_getaffinity(0, sizeof c, &c); VT_CHECK(CPU_EQUAL(&b, &c), "creator", "what the thread that started the others may run on changed");
    back(); vt_end(); vz_stat("thread histories", 1); vz_distinct(path + (uint64_t)n); zpl_affinity_destroy(&a);
}
/* a thread of the library's own that binds itself, and is joined */
static zpl_affinity own_a; static int own_r; static cpu_set_t own_s; static zpl_isize own_core;
static zpl_isize own(zpl_thread *t) { (void)t; own_r = zpl_affinity_set(&own_a, own_core, 0) != 0; sched_getaffinity(0, sizeof own_s, &own_s); return 0; }
static void t_own(void) {
    zpl_thread t; cpu_set_t b, c; learn(); back(); mk(&own_a); own_core = (zpl_isize)vz_u((uint64_t)own_a.core_count); sched_getaffinity(0, sizeof b, &b);
    zpl_thread_init(&t); zpl_thread_start(&t, own, 0); zpl_thread_join(&t); zpl_thread_destroy(&t); sched_getaffinity(0, sizeof c, &c);
    VZ_CHECK(own_r == (own_core < CPU_SETSIZE && may[own_core]), "own", "a thread binding itself to core %ld: %d", (long)own_core, own_r);
    VZ_CHECK(!own_r || (CPU_COUNT(&own_s) == 1 && CPU_ISSET(own_core * own_a.threads_per_core, &own_s)), "not-bound", "a thread bound to core %ld may run on %d processors", (long)own_core, CPU_COUNT(&own_s));
    VZ_CHECK(CPU_EQUAL(&b, &c), "creator", "binding the thread bound the one that started it"); vz_distinct((uint64_t)own_core);
}
VZ_MAIN({"layout", t_layout, 3}, {"bind", t_bind, 6}, {"threads", t_threads, 2}, {"own", t_own, 1})
