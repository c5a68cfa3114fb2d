/* C47: clocks and sleeping.  The C library's clocks are wrapped (ld --wrap): a
 * frozen clock the monitor sets gives exact expectations for any date, and a
 * sleeping stand-in accounts for every interruption.  What does not consult
 * the wrapped functions is judged against the real clocks only. */
#ifdef C47_RACE
#define VZ_CPU_LIMIT 60
#include "vz.h"
#include <pthread.h>
#include <sched.h>
#include <sys/wait.h>
#else
#include "vzt.h"
#endif
#include <time.h>
#define EPOCH 11644473600000ull
int __real_clock_gettime(clockid_t, struct timespec *); int __real_gettimeofday(struct timeval *, void *); time_t __real_time(time_t *);
int __real_nanosleep(const struct timespec *, struct timespec *); int __real_clock_nanosleep(clockid_t, int, const struct timespec *, struct timespec *); int __real_usleep(useconds_t);
static __thread int fake; static int64_t f_real, f_mono; static uint64_t asked; static int64_t jump; /* nanoseconds; jump: monotonic advance per reading */
static int is_real(clockid_t c) { return c == CLOCK_REALTIME || c == CLOCK_REALTIME_COARSE || c == CLOCK_TAI; }
static int is_mono(clockid_t c) { return c == CLOCK_MONOTONIC || c == CLOCK_MONOTONIC_RAW || c == CLOCK_MONOTONIC_COARSE || c == CLOCK_BOOTTIME; }
static void after_reading(void);
static int64_t f_read(clockid_t c) { __atomic_fetch_add(&asked, 1, __ATOMIC_RELAXED); return is_real(c) ? f_real : jump ? __atomic_fetch_add(&f_mono, jump, __ATOMIC_RELAXED) : f_mono; }
int __wrap_clock_gettime(clockid_t c, struct timespec *t) { int64_t v; if (!fake || !(is_real(c) || is_mono(c))) return __real_clock_gettime(c, t); v = f_read(c); t->tv_sec = v / 1000000000; t->tv_nsec = v % 1000000000; after_reading(); return 0; }
int __wrap_gettimeofday(struct timeval *t, void *z) { int64_t v; if (!fake) return __real_gettimeofday(t, z); v = f_read(CLOCK_REALTIME); t->tv_sec = v / 1000000000; t->tv_usec = v % 1000000000 / 1000; after_reading(); return 0; }
time_t __wrap_time(time_t *t) { int64_t v; if (!fake) return __real_time(t); v = f_read(CLOCK_REALTIME) / 1000000000; if (t) *t = v; after_reading(); return v; }
static int64_t rnow(clockid_t c) { struct timespec t; __real_clock_gettime(c, &t); return t.tv_sec * 1000000000ll + t.tv_nsec; }

#ifdef C47_RACE
/* ---- the first reading in a process, by several threads at once: every clock
 * reading is a distinct instant, so counting from two starts shows */
int __wrap_nanosleep(const struct timespec *a, struct timespec *b) { return __real_nanosleep(a, b); } int __wrap_clock_nanosleep(clockid_t c, int f, const struct timespec *a, struct timespec *b) { return __real_clock_nanosleep(c, f, a, b); } int __wrap_usleep(useconds_t u) { return __real_usleep(u); }
static int gate, gate_n, calls; static uint64_t top; static uint64_t seeds[16]; static int bad; static char txt[400]; static __thread int widen;
static void after_reading(void) { int k; if (!widen) return; k = (int)vz_u(10); if (k < 4) sched_yield(); else if (k < 7) { volatile int x = 0; int n = (int)vz_u(2000); while (n--) x++; } else if (k == 7) { struct timespec t = {0, (long)vz_u(100000)}; __real_nanosleep(&t, 0); } }
static void wrong(const char *f, long long a, long long b, long long c) { int z = 0; if (__atomic_compare_exchange_n(&bad, &z, 1, 0, __ATOMIC_RELAXED, __ATOMIC_RELAXED)) snprintf(txt, sizeof txt, f, a, b, c); }
static uint64_t o_steps; static uint8_t order[4096];
static void *reader(void *p) {
    int no = (int)(intptr_t)p, k; uint64_t last = 0; int64_t lb = 0, la = 0;
    vz_s = seeds[no]; widen = fake = 1; __atomic_fetch_add(&gate, 1, __ATOMIC_RELAXED); while (__atomic_load_n(&gate, __ATOMIC_RELAXED) < gate_n) sched_yield();
    for (k = 0; k < calls; k++) {
        uint64_t m = __atomic_load_n(&top, __ATOMIC_ACQUIRE), v, q; int64_t b = __atomic_load_n(&f_mono, __ATOMIC_RELAXED), a; double s = -1;
        if (vz_pct(70)) v = zpl_time_rel_ms(); else { s = vz_pct(50) ? zpl_time_rel() : zpl_time_now(); v = s < 0 || s > 1e15 ? ~0ull : (uint64_t)(s * 1000 + 0.5); }
        a = __atomic_load_n(&f_mono, __ATOMIC_RELAXED);
        if (v < m) wrong("relative time went backwards between threads: %lld ms after %lld ms had been read", (long long)v, (long long)m, 0);
        if (v > (uint64_t)(a / 1000000)) wrong("relative time %lld ms is more than the clock itself shows (%lld ms)", (long long)v, a / 1000000, 0);
        if (k) { int64_t d = (int64_t)(v - last); if (d < (b - la) / 1000000 - 1 || d > (a - lb) / 1000000 + 1) wrong("relative time moved by %lld ms while the clock moved by %lld to %lld ms", d, (b - la) / 1000000, (a - lb) / 1000000); }
        last = v; lb = b; la = a;
        q = m; while (v > q && !__atomic_compare_exchange_n(&top, &q, v, 0, __ATOMIC_RELEASE, __ATOMIC_RELAXED)) { }
        q = __atomic_fetch_add(&o_steps, 1, __ATOMIC_RELAXED); if (q < sizeof order) order[q] = (uint8_t)no;
    }
    return 0;
}
static void t_first(void) {
    int p[2], st, i; pid_t c; char msg[500]; ssize_t n; uint64_t h; struct { uint64_t steps, h; char txt[400]; } r;
    int nt = 2 + (int)vz_u(7); calls = 1 + (int)vz_u(30); jump = (int64_t)vz_range(1, 40) * (vz_pct(30) ? 100000 : 1000000); f_mono = (int64_t)vz_range(1, 100000) * 1000000 + (int64_t)vz_u(1000000); if (vz_pct(20)) f_mono += (int64_t)vz_u(1ull << 60); f_real = 1700000000000000000ll;
    for (i = 0; i < nt; i++) seeds[i] = vz_r();
    if (pipe(p)) VZ_BROKEN("pipe"); fflush(0);
    c = fork(); if (c < 0) VZ_BROKEN("fork");
    if (!c) { /* a process that has never read the relative clock */
        pthread_t t[16]; memset(&r, 0, sizeof r); signal(SIGPROF, SIG_DFL); alarm(60); gate_n = nt;
        for (i = 0; i < nt; i++) if (pthread_create(&t[i], 0, reader, (void *)(intptr_t)i)) _exit(98);
        for (i = 0; i < nt; i++) pthread_join(t[i], 0);
        if (bad) memcpy(r.txt, txt, sizeof txt); r.steps = o_steps; r.h = vz_hash(order, o_steps < sizeof order ? o_steps : sizeof order, 7); if (!asked) r.steps = 0;
        if (write(p[1], &r, sizeof r) != sizeof r) _exit(98); _exit(0);
    }
    close(p[1]); n = read(p[0], &r, sizeof r); close(p[0]); while (waitpid(c, &st, 0) < 0 && errno == EINTR) { }
    if (WIFEXITED(st) && WEXITSTATUS(st) == 98) VZ_BROKEN("child");
    VZ_CHECK(WIFEXITED(st) && WEXITSTATUS(st) == 0 && n == (ssize_t)sizeof r, "first-reading-crash", "%d threads taking the first %d readings each: the process ended with status %#x", nt, calls, st);
    (void)msg; VZ_CHECK(!r.txt[0], "first-reading", "%d threads taking the first %d readings each: %s", nt, calls, r.txt);
    h = r.h; vz_stat("readings", r.steps); if (r.steps) vz_stat("processes", 1); vz_distinct(h); vz_sample("%d threads taking the first %d readings each, %lld us apart", nt, calls, (long long)jump / 1000);
}
VZ_MAIN({"first-reading", t_first, 1})
#else
static void after_reading(void) { }
/* ---- the sleeping stand-in: time passes on the frozen clock, interruptions at will */
static __thread int sl_on; static int sl_calls, sl_intr; static int64_t sl_slept; static int sl_seen;
static int nap(const struct timespec *q, struct timespec *r, int abs) {
    int64_t want = q->tv_sec * 1000000000ll + q->tv_nsec, part;
    sl_seen = 1; if (q->tv_sec < 0 || q->tv_nsec < 0 || q->tv_nsec > 999999999) { errno = EINVAL; return EINVAL; }
    if (abs) want = want > f_mono ? want - f_mono : 0; sl_calls++;
    if (sl_intr > 0 && want > 0) { sl_intr--; part = (int64_t)(vz_unit() * (double)want); if (vz_pct(20)) part = 0; if (part >= want) part = want - 1; f_mono += part; f_real += part; sl_slept += part; want -= part; if (r && !abs) { r->tv_sec = want / 1000000000; r->tv_nsec = want % 1000000000; } errno = EINTR; return EINTR; }
    f_mono += want; f_real += want; sl_slept += want; return 0;
}
int __wrap_nanosleep(const struct timespec *q, struct timespec *r) { int e; if (!sl_on) return __real_nanosleep(q, r); e = nap(q, r, 0); return e ? -1 : 0; }
int __wrap_clock_nanosleep(clockid_t c, int f, const struct timespec *q, struct timespec *r) { if (!sl_on) return __real_clock_nanosleep(c, f, q, r); return nap(q, r, f & TIMER_ABSTIME); }
int __wrap_usleep(useconds_t u) { struct timespec q; int e; if (!sl_on) return __real_usleep(u); q.tv_sec = u / 1000000; q.tv_nsec = (long)(u % 1000000) * 1000; e = nap(&q, 0, 0); if (e) errno = e; return e ? -1 : 0; }

static const char *zones[] = { "UTC0", "CET-1CEST,M3.5.0,M10.5.0/3", "EST5EDT,M3.2.0,M11.1.0", "IST-5:30", "NPT-5:45", "LHST-10:30LHDT-11,M10.1.0,M4.1.0", "NST3:30NDT,M3.2.0,M11.1.0", "<+14>-14", "<-12>12", "AEST-10AEDT,M10.1.0,M4.1.0/3", "XXX-10:30YYY-11,J1/0,J365/23", "AAA4BBB2,M2.1.0,M11.1.0", "IST-1GMT0,M10.5.0,M3.5.0/1", "QQQ0:00:01", "CHADT-12:45CHADD-13:45,M9.5.0/2:45,M4.1.0/3:45" };
static void set_zone(const char *z) { setenv("TZ", z, 1); tzset(); }
static int64_t zone_off(int64_t secs) { struct tm t; time_t s = (time_t)secs; if (!localtime_r(&s, &t)) VZ_BROKEN("localtime_r"); return t.tm_gmtoff; }
static int64_t g_moment(void) { /* nanoseconds since 1970, up to year 2262 */
    int64_t s, ns; switch (vz_u(7)) {
        case 0: s = (int64_t)vz_u(100000); break; case 1: s = (int64_t)((1ull << (20 + vz_u(13))) + vz_u(5) - 2); break; case 2: s = (int64_t)vz_u(9000000000ull); break;
        case 3: { int y = (int)vz_range(1971, 2260); struct tm t; memset(&t, 0, sizeof t); t.tm_year = y - 1900; t.tm_mon = vz_pct(50) ? 0 : 2; t.tm_mday = 1; s = timegm(&t) + vz_range(-2, 2) - (vz_pct(50) ? 0 : vz_range(-14, 14) * 3600); if (s < 0) s = 0; break; }
        case 4: { struct tm t; memset(&t, 0, sizeof t); t.tm_year = (int)vz_range(75, 355); t.tm_mon = vz_pct(50) ? 2 : 9; t.tm_mday = 25 + (int)vz_u(8); t.tm_hour = (int)vz_u(24); t.tm_min = (int)vz_u(2) * 59; t.tm_sec = (int)vz_u(2) * 59; s = timegm(&t); break; }
        default: s = 1600000000 + (int64_t)vz_u(400000000); }
    switch (vz_u(5)) { case 0: ns = 0; break; case 1: ns = 999999999; break; case 2: ns = (int64_t)vz_u(1000) * 1000000 + (int64_t)vz_u(3) - 1; if (ns < 0) ns = 0; break; default: ns = (int64_t)vz_u(1000000000); }
    if (s > 9200000000ll) s = 9200000000ll; return s * 1000000000 + ns;
}
#define NEARMS(got, want, key, ...) do { uint64_t g_ = (uint64_t)(got); int64_t d_ = (int64_t)(g_ - (uint64_t)(want)); VZ_CHECK(d_ >= -1 && d_ <= 1, key, __VA_ARGS__); } while (0)
static void t_frozen(void) {
    const char *z = zones[vz_u(sizeof zones / sizeof *zones)]; int q; uint64_t a0;
    set_zone(z); fake = 1; jump = 0; a0 = asked;
    for (q = 0; q < 12; q++) {
        int64_t m = g_moment(), ms = m / 1000000, off; uint64_t u, t, u2, t2; double du, dt;
        f_real = m; if (f_mono < 1) f_mono = rnow(CLOCK_MONOTONIC);
        u = zpl_time_utc_ms(); du = q & 1 ? zpl_time_utc() : zpl_utc_time_now(); t = zpl_time_tz_ms(); dt = zpl_time_tz(); u2 = zpl_time_utc_ms(); t2 = zpl_time_tz_ms(); if (asked == a0) { fake = 0; vz_stat("clock read elsewhere", 1); return; }
        off = zone_off(m / 1000000000); fake = 1;
        NEARMS(u, ms + (int64_t)EPOCH, "utc", "at %lld.%09lld s since 1970 the UTC clock shows %llu ms since 1601", (long long)(m / 1000000000), (long long)(m % 1000000000), (unsigned long long)u);
        { int64_t off2 = zone_off((m + 1000000) / 1000000000); if (off2 != off && (int64_t)(t - EPOCH) - ms > off2 * 1000 - 2 && (int64_t)(t - EPOCH) - ms < off2 * 1000 + 2) off = off2; } /* rounded up into the next second */
        NEARMS(t, ms + (int64_t)EPOCH + off * 1000, "tz", "at %lld.%09lld s since 1970 in zone %s (offset %lld s) the local clock shows %llu ms since 1601, UTC %llu", (long long)(m / 1000000000), (long long)(m % 1000000000), z, (long long)off, (unsigned long long)t, (unsigned long long)u);
        VZ_CHECK(u == u2 && t == t2, "steady", "two readings of one instant differ: %llu and %llu, %llu and %llu", (unsigned long long)u, (unsigned long long)u2, (unsigned long long)t, (unsigned long long)t2);
        VZ_CHECK(fabs(du - (double)u / 1000) < 1e-3, "utc-seconds", "UTC clock shows %llu ms but %.6f s", (unsigned long long)u, du); VZ_CHECK(fabs(dt - (double)t / 1000) < 1e-3, "tz-seconds", "local clock shows %llu ms but %.6f s", (unsigned long long)t, dt);
        VZ_CHECK(zpl_time_win32_to_unix(u) == u - EPOCH, "epoch", "win32_to_unix(%llu)", (unsigned long long)u);
        vz_stat("moments", 1); if (off % 3600) vz_stat("fractional-hour zones", 1); { struct tm tt; time_t s = (time_t)(m / 1000000000); localtime_r(&s, &tt); if (tt.tm_isdst > 0) vz_stat("daylight saving", 1); } if (off < 0) vz_stat("negative offsets", 1);
        vz_distinct(vz_hash(&m, 8, vz_hash(z, strlen(z), 1))); vz_sample("%lld.%09lld s since 1970 in zone %s", (long long)(m / 1000000000), (long long)(m % 1000000000), z);
    }
    fake = 0; set_zone("UTC0");
}
/* ---- relative time on a frozen clock, wall clock stepping about */
static void t_rel_frozen(void) {
    int q, n = 5 + (int)vz_u(30); int64_t at, base; uint64_t v0, a0; double s0;
    fake = sl_on = 0; zpl_time_rel_ms(); /* the count has begun before the clock is frozen */
    fake = 1; jump = 0; f_real = g_moment(); if (f_mono < rnow(CLOCK_MONOTONIC)) f_mono = rnow(CLOCK_MONOTONIC); if (f_mono > (1ll << 61)) { fake = 0; return; }
    a0 = asked; v0 = zpl_time_rel_ms(); s0 = zpl_time_rel(); if (asked == a0) { fake = 0; vz_stat("clock read elsewhere", 1); return; } base = f_mono; at = base;
    for (q = 0; q < n; q++) {
        int64_t step = vz_pct(20) ? 0 : vz_pct(50) ? (int64_t)vz_u(3000000) : vz_pct(60) ? (int64_t)vz_u(5000000000ull) : (int64_t)vz_u(1ull << (30 + vz_u(16))); uint64_t v; double s;
        f_mono += step; f_real = vz_pct(40) ? g_moment() : f_real + step; at = f_mono; v = zpl_time_rel_ms(); s = zpl_time_rel();
        NEARMS(v - v0, (at - base) / 1000000, "rel", "relative time moved from %llu to %llu ms while %lld.%06lld ms passed", (unsigned long long)v0, (unsigned long long)v, (long long)((at - base) / 1000000), (long long)((at - base) % 1000000));
        VZ_CHECK(fabs(s - (double)v / 1000) <= 1e-3 && s >= s0, "rel-seconds", "relative time %llu ms but %.6f s after %.6f s", (unsigned long long)v, s, s0); s0 = s;
        vz_stat("relative readings", 1); vz_distinct(vz_hash(&at, 8, 2));
    }
    fake = 0; /* keep the frozen clock ahead: later cases go on from here */
}
/* ---- sleeping on the stand-in */
static void t_sleep_model(void) {
    int q; fake = 1; jump = 0; sl_on = 1; if (f_mono < rnow(CLOCK_MONOTONIC)) f_mono = rnow(CLOCK_MONOTONIC); f_real = 1700000000000000000ll;
    if (!sl_seen) { sl_intr = 0; zpl_sleep_ms(1); if (!sl_seen) { sl_on = fake = 0; vz_stat("sleeping done elsewhere", 1); return; } }
    for (q = 0; q < 40 && f_mono < (1ll << 61); q++) {
        int secs = vz_pct(45), in = sl_intr = vz_pct(50) ? 0 : 1 + (int)vz_u(5); double want; sl_slept = 0; sl_calls = 0;
        if (secs) { float s; switch (vz_u(6)) { case 0: s = (float)vz_u(20) * 0.001f; break; case 1: s = (float)(vz_unit() * 0.01); break; case 2: s = (float)(vz_unit() * 100); break; case 3: s = (float)vz_u(100); break; case 4: s = (float)vz_u(100000) * 0.01f; break; default: s = (float)(vz_unit() * 4000000); } want = (double)s * 1e9; zpl_sleep(s);
            VZ_CHECK((double)sl_slept >= want, "sleep", "sleep(%.9g), interrupted %d times, slept %lld ns", s, in, (long long)sl_slept); VZ_CHECK((double)sl_slept <= want + 1e6 + want * 1e-7 + 1000, "oversleep", "sleep(%.9g) slept %lld ns", s, (long long)sl_slept); vz_stat("fractions of seconds", 1); vz_distinct(vz_hash(&s, 4, in)); }
        else { uint32_t ms = vz_pct(30) ? (uint32_t)vz_u(20) : vz_pct(50) ? (uint32_t)vz_u(100) * 1000 + (uint32_t)vz_u(3) - (vz_pct(30) ? 0 : 0) : (uint32_t)vz_edge64(); want = (double)ms * 1e6; zpl_sleep_ms(ms);
            VZ_CHECK((double)sl_slept >= want, "sleep-ms", "sleep_ms(%u), interrupted %d times, slept %lld ns", ms, in, (long long)sl_slept); VZ_CHECK((double)sl_slept <= want + 1000000 * (1 + in), "oversleep-ms", "sleep_ms(%u) slept %lld ns", ms, (long long)sl_slept); vz_distinct(vz_hash(&ms, 4, in + 100)); }
        vz_stat("sleeps", 1); if (in && !sl_intr) vz_stat("interrupted sleeps", 1);
    }
    sl_on = fake = 0;
}
/* ---- the real clocks */
static void t_real(void) {
    int q; fake = sl_on = 0; set_zone(zones[vz_u(sizeof zones / sizeof *zones)]);
    for (q = 0; q < 30; q++) {
        int64_t a, b, off; uint64_t u, t; double s, w;
        do { a = rnow(CLOCK_REALTIME); u = zpl_time_utc_ms(); s = zpl_time_utc(); t = zpl_time_tz_ms(); w = zpl_time_tz(); b = rnow(CLOCK_REALTIME); } while (b < a); off = zone_off(a / 1000000000) * 1000; if (off != zone_off(b / 1000000000) * 1000) continue;
        a = a / 1000000 - 5; b = b / 1000000 + 2;
        VZ_CHECK((int64_t)(u - EPOCH) >= a && (int64_t)(u - EPOCH) <= b, "utc-now", "UTC clock shows %llu ms, the system %lld..%lld", (unsigned long long)u, (long long)a, (long long)b);
        VZ_CHECK((int64_t)(t - EPOCH) >= a + off && (int64_t)(t - EPOCH) <= b + off, "tz-now", "local clock shows %llu ms, the system %lld..%lld and offset %lld", (unsigned long long)t, (long long)a, (long long)b, (long long)off);
        VZ_CHECK(s * 1000 >= (double)u - 5 && s * 1000 <= (double)(b + (int64_t)EPOCH) + 1 && w * 1000 >= (double)t - 5 && w * 1000 <= (double)(b + (int64_t)EPOCH + off) + 1, "seconds-now", "%.6f s UTC and %.6f s local at %llu ms", s, w, (unsigned long long)u); vz_stat("real readings", 1);
    }
    set_zone("UTC0"); vz_distinct(vz_r());
}
static void on_alrm(int s) { (void)s; }
static void t_sleep_real(void) {
    struct sigaction sa, old; struct itimerval it; int64_t a, b; uint64_t ra, rb; double want; int ms = (int)vz_u(15), sig = vz_pct(60); float fs = (float)(vz_unit() * 0.012); int secs = vz_pct(50); fake = sl_on = 0;
    memset(&sa, 0, sizeof sa); sa.sa_handler = on_alrm; sigaction(SIGALRM, &sa, &old); memset(&it, 0, sizeof it); if (sig) { it.it_value.tv_usec = it.it_interval.tv_usec = 700 + (long)vz_u(3000); setitimer(ITIMER_REAL, &it, 0); }
    a = rnow(CLOCK_MONOTONIC); ra = zpl_time_rel_ms(); if (secs) zpl_sleep(fs); else zpl_sleep_ms((uint32_t)ms); rb = zpl_time_rel_ms(); b = rnow(CLOCK_MONOTONIC);
    memset(&it, 0, sizeof it); setitimer(ITIMER_REAL, &it, 0); sigaction(SIGALRM, &old, 0); want = secs ? (double)fs * 1e9 : ms * 1e6;
    VZ_CHECK((double)(b - a) >= want, "sleep-now", "%s(%.6g s) took %lld ns%s", secs ? "sleep" : "sleep_ms", want / 1e9, (long long)(b - a), sig ? " under timer signals" : "");
    VZ_CHECK((int64_t)(rb - ra) >= (int64_t)(want / 1e6) - 1 && (int64_t)(rb - ra) <= (b - a) / 1000000 + 2 + 8, "rel-now", "relative time moved by %lld ms over %lld ns", (long long)(rb - ra), (long long)(b - a));
    vz_stat(sig ? "real sleeps under signals" : "real sleeps", 1); vz_distinct(vz_hash(&want, 8, sig));
}
static uint64_t g_top; static int g_n; static uint64_t vsum;
static void b_mono(int no, void *u) {
    int k; uint64_t last = 0; double ls = 0; (void)no; (void)u;
    for (k = 0; k < g_n; k++) {
        uint64_t m = __atomic_load_n(&g_top, __ATOMIC_ACQUIRE), v = zpl_time_rel_ms(), q; double s = zpl_time_rel();
        VT_CHECK(v >= last && s >= ls, "backwards", "relative time went from %llu ms (%.4f s) to %llu ms (%.4f s) in one thread", (unsigned long long)last, ls, (unsigned long long)v, s); VT_CHECK(v >= m, "backwards-threads", "relative time %llu ms in one thread after %llu ms in another", (unsigned long long)v, (unsigned long long)m);
        last = v; ls = s; q = m; while (v > q && !__atomic_compare_exchange_n(&g_top, &q, v, 0, __ATOMIC_RELEASE, __ATOMIC_RELAXED)) { } vt_add(&vsum, v); if (vz_pct(10)) vt_delay(1); vt_step();
    }
}
static void t_mono(void) { int n = 2 + (int)vz_u(5); fake = sl_on = 0; g_top = 0; g_n = 50 + (int)vz_u(300); vt_begin("relative clock in several threads"); vt_threads(n, b_mono, 0); vt_end(); vz_stat("concurrent readings", (uint64_t)(n * g_n)); vz_distinct(vsum); }
static void t_epoch(void) {
    int q; for (q = 0; q < 200; q++) { uint64_t x = vz_edge64() + vz_u(3) * EPOCH; VZ_CHECK(zpl_time_unix_to_win32(zpl_time_win32_to_unix(x)) == x && zpl_time_win32_to_unix(zpl_time_unix_to_win32(x)) == x && zpl_time_unix_to_win32(x) - x == EPOCH && x - zpl_time_win32_to_unix(x) == EPOCH, "epoch", "conversion of %llu between epochs gives %llu and %llu", (unsigned long long)x, (unsigned long long)zpl_time_unix_to_win32(x), (unsigned long long)zpl_time_win32_to_unix(x)); vz_distinct(x); }
    vz_stat("epochs converted", 200);
#if defined(__x86_64__)
    { cpu_set_t all, one; int c; if (!sched_getaffinity(0, sizeof all, &all)) { CPU_ZERO(&one); for (c = 0; c < CPU_SETSIZE && !CPU_ISSET(c, &all); c++) { } CPU_SET(c, &one); if (!sched_setaffinity(0, sizeof one, &one)) {
        for (q = 0; q < 100; q++) { uint64_t a, b, r; a = __builtin_ia32_rdtsc(); __builtin_ia32_lfence(); r = zpl_rdtsc(); __builtin_ia32_lfence(); b = __builtin_ia32_rdtsc(); if (a > b) continue; VZ_CHECK(r >= a && r <= b, "rdtsc", "rdtsc %llu between readings %llu and %llu", (unsigned long long)r, (unsigned long long)a, (unsigned long long)b); }
        sched_setaffinity(0, sizeof all, &all); vz_stat("time stamp readings", 100); } } }
#endif
}
VZ_MAIN({"frozen", t_frozen, 30}, {"relative", t_rel_frozen, 20}, {"sleep", t_sleep_model, 20}, {"now", t_real, 8}, {"sleep-now", t_sleep_real, 6}, {"threads", t_mono, 4}, {"epoch", t_epoch, 8})
#endif
