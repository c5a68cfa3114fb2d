/* Threads for the concurrency monitors: start gate, relaxed progress and violation
 * records (relaxed, so that the monitors add no ordering the code under test
 * does not provide itself), injected delays, and a watchdog that recognises
 * deadlock (every thread asleep and not scheduled for seconds) and live lock
 * (much CPU time, no progress) from the kernel's own accounts. */
#define VZ_CPU_LIMIT 300
#include "vz.h"
#include <pthread.h>
#include <sched.h>
#include <time.h>
#include <sys/resource.h>
#include <sys/syscall.h>

#define vt_ld(p) __atomic_load_n(p, __ATOMIC_RELAXED)
#define vt_st(p, v) __atomic_store_n(p, v, __ATOMIC_RELAXED)
#define vt_add(p, v) __atomic_fetch_add(p, v, __ATOMIC_RELAXED)

static int vt_bad_set; static char vt_bad_key[64], vt_bad_txt[700];
static void vt_bad(const char *key, const char *fmt, ...) { /* first one wins */
    int z = 0; va_list va;
    if (!__atomic_compare_exchange_n(&vt_bad_set, &z, 1, 0, __ATOMIC_RELAXED, __ATOMIC_RELAXED)) return;
    snprintf(vt_bad_key, sizeof vt_bad_key, "%s", key);
    va_start(va, fmt); vsnprintf(vt_bad_txt, sizeof vt_bad_txt, fmt, va); va_end(va);
    vt_st(&vt_bad_set, 2);
}
#define VT_CHECK(c, ...) do { if (!(c)) vt_bad(__VA_ARGS__); } while (0)

/* ------------------------------------------------------------- watchdog */
#define VT_MAXTID 160
static int vt_tid[VT_MAXTID];            /* threads taking part (kernel ids), 0 = free */
static uint64_t vt_progress;             /* any completed step of any thread */
static int vt_in_case;
static const char *vt_what = "";
static void vt_enter(void) { int i, me = (int)syscall(SYS_gettid), z; for (i = 0; i < VT_MAXTID; i++) { z = 0; if (__atomic_compare_exchange_n(&vt_tid[i], &z, me, 0, __ATOMIC_RELAXED, __ATOMIC_RELAXED)) return; } }
static void vt_leave(void) { int i, me = (int)syscall(SYS_gettid); for (i = 0; i < VT_MAXTID; i++) if (vt_ld(&vt_tid[i]) == me) { vt_st(&vt_tid[i], 0); return; } }
static void vt_step(void) { vt_add(&vt_progress, 1); }

static int vt_asleep(int tid, uint64_t *sw) { /* 1 = sleeping (or gone); *sw += context switches */
    char p[64], b[4096], *q; int fd; ssize_t n; unsigned long long a = 0, c = 0;
    snprintf(p, sizeof p, "/proc/self/task/%d/status", tid);
    fd = open(p, O_RDONLY); if (fd < 0) return 1;
    n = read(fd, b, sizeof b - 1); close(fd); if (n <= 0) return 1; b[n] = 0;
    if ((q = strstr(b, "\nvoluntary_ctxt_switches:"))) a = strtoull(q + 25, 0, 10);
    if ((q = strstr(b, "\nnonvoluntary_ctxt_switches:"))) c = strtoull(q + 28, 0, 10);
    *sw += (a + c) * 2654435761u + (unsigned)tid;
    q = strstr(b, "\nState:"); return q && strchr("SDZXt", q[8]) && q[8] != 'D';
}
static double vt_cpu(void) { struct rusage r; getrusage(RUSAGE_SELF, &r); return r.ru_utime.tv_sec + r.ru_stime.tv_sec + (r.ru_utime.tv_usec + r.ru_stime.tv_usec) * 1e-6; }
static void vt_die(const char *key, const char *what) {
    if (vt_ld(&vt_bad_set) == 2) vz_report(vt_bad_key, "%s (and then: %s)", vt_bad_txt, what);
    else vz_report(key, "%s", what);
    _exit(94);
}
#ifndef VT_CPU_STALL
#define VT_CPU_STALL 24.0
#endif
static void *vt_dog(void *u) {
    uint64_t last = 0, lastsw = 0; double cpu0 = 0; int idle = 0, was = 0; (void)u;
    for (;;) {
        struct timespec ts = {0, 250000000}; uint64_t p, sw = 0; int i, all = 1, n = 0; char w[300];
        nanosleep(&ts, 0);
        p = vt_ld(&vt_progress);
        if (!vt_ld(&vt_in_case) || !was || p != last) { was = vt_ld(&vt_in_case); last = p; cpu0 = vt_cpu(); idle = 0; continue; }
        for (i = 0; i < VT_MAXTID; i++) { int t = vt_ld(&vt_tid[i]); if (t) { n++; all &= vt_asleep(t, &sw); } }
        if (n && all && sw == lastsw) idle++; else idle = 0;
        lastsw = sw;
        if (idle >= 60) { snprintf(w, sizeof w, "%s: all %d threads asleep for 15 s with work outstanding", vt_ld(&vt_what), n); vt_die("deadlock", w); }
        if (vt_cpu() - cpu0 > VT_CPU_STALL) { snprintf(w, sizeof w, "%s: %.0f s of CPU time without any thread completing a step", vt_ld(&vt_what), vt_cpu() - cpu0); vt_die("livelock", w); }
    }
    return 0;
}
static void vt_begin(const char *what) {
    static int started; pthread_t t;
    if (!started) { started = 1; vt_enter(); pthread_create(&t, 0, vt_dog, 0); pthread_detach(t); }
    vt_st(&vt_bad_set, 0); vt_st(&vt_what, what); vt_step(); vt_st(&vt_in_case, 1);
}
static void vt_end(void) { vt_st(&vt_in_case, 0); vt_step(); if (vt_bad_set) { while (vt_ld(&vt_bad_set) != 2) sched_yield(); VZ_FAIL(vt_bad_key, "%s", vt_bad_txt); } }

/* ------------------------------------------------------------- workers */
typedef struct { pthread_t t; int no; uint64_t seed; void (*fn)(int no, void *u); void *u; } vt_worker;
static int vt_gate, vt_gate_n;
static void *vt_run(void *p) {
    vt_worker *w = (vt_worker *)p; vt_enter(); vz_s = w->seed;
    vt_add(&vt_gate, 1); while (vt_ld(&vt_gate) < vt_gate_n) sched_yield();
    w->fn(w->no, w->u); vt_step(); vt_leave(); return 0;
}
static void vt_threads(int n, void (*fn)(int, void *), void *u) { /* run and join */
    vt_worker w[64]; int i;
    vt_st(&vt_gate, 0); vt_st(&vt_gate_n, n);
    for (i = 0; i < n; i++) { w[i].no = i; w[i].fn = fn; w[i].u = u; w[i].seed = vz_r(); if (pthread_create(&w[i].t, 0, vt_run, &w[i])) VZ_BROKEN("pthread_create"); }
    for (i = 0; i < n; i++) pthread_join(w[i].t, 0);
}
static void vt_delay(int heavy) { /* injected delays: nothing, spin, yield, short sleep */
    unsigned k = (unsigned)vz_u(100); volatile int x = 0;
    if (k < 55) return;
    if (k < 80) { int n = (int)vz_u(heavy ? 3000 : 300); while (n--) x++; return; }
    if (k < 97 || !heavy) { sched_yield(); return; }
    { struct timespec ts = {0, (long)vz_u(60000)}; nanosleep(&ts, 0); }
}
