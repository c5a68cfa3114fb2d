/* Common runtime of the monitors: seeded case loop, verdict lines, watchdog,
 * tracking allocator.  Each harness defines VZ_SUBS (a table of scenarios) and
 * includes this file first; it pulls in zpl with its implementation, so every
 * monitor is compiled together with /repo's current sources. */
#ifndef VZ_H
#define VZ_H
#ifndef _GNU_SOURCE
#define _GNU_SOURCE
#endif
#define ZPL_IMPL
#include "zpl.h"
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <stdarg.h>
#include <stdint.h>
#include <setjmp.h>
#include <signal.h>
#include <unistd.h>
#include <errno.h>
#include <fcntl.h>
#include <sys/mman.h>
#include <sys/time.h>
#include <sys/stat.h>
#include <limits.h>
#include <math.h>
#include <ctype.h>

#if defined(__has_feature)
#if __has_feature(address_sanitizer)
#define VZ_ASAN 1
#include <sanitizer/asan_interface.h>
#include <sanitizer/allocator_interface.h>
#endif
#endif
#if defined(__SANITIZE_ADDRESS__) && !defined(VZ_ASAN)
#define VZ_ASAN 1
#include <sanitizer/asan_interface.h>
#include <sanitizer/allocator_interface.h>
#endif

#ifdef VZ_ASAN
#define vz_poison(p, n) ASAN_POISON_MEMORY_REGION(p, n)
#define vz_unpoison(p, n) ASAN_UNPOISON_MEMORY_REGION(p, n)
static size_t vz_heap_bytes(void) { return __sanitizer_get_current_allocated_bytes(); }
#else
#define vz_poison(p, n) ((void)0)
#define vz_unpoison(p, n) ((void)0)
static size_t vz_heap_bytes(void) { return 0; }
#endif

/* ---------------------------------------------------------------- random */
static __thread uint64_t vz_s;
static uint64_t vz_r(void) {
    uint64_t z = (vz_s += 0x9E3779B97F4A7C15ull);
    z = (z ^ (z >> 30)) * 0xBF58476D1CE4E5B9ull;
    z = (z ^ (z >> 27)) * 0x94D049BB133111EBull;
    return z ^ (z >> 31);
}
static uint64_t vz_u(uint64_t n) { return n ? vz_r() % n : 0; }                       /* [0,n) */
/* a size within two of a power of two in [2^lo, 2^hi] */
static size_t vz_near2(int lo, int hi) { return ((size_t)1 << (lo + (int)vz_u((uint64_t)(hi - lo) + 1))) + (size_t)vz_u(5) - 2; }
static int64_t vz_range(int64_t lo, int64_t hi) { return lo + (int64_t)vz_u((uint64_t)(hi - lo) + 1); }
static int vz_pct(int p) { return (int)vz_u(100) < p; }
static double vz_unit(void) { return (double)(vz_r() >> 11) * (1.0 / 9007199254740992.0); }
static uint64_t vz_edge64(void) { /* boundary-heavy integer */
    uint64_t k = vz_u(10);
    switch (k) {
        case 0: return vz_u(16);
        case 1: return 1ull << vz_u(64);
        case 2: return (1ull << vz_u(64)) - 1;
        case 3: return ~vz_u(16);
        case 4: return (uint64_t)INT64_MIN + vz_u(4);
        case 5: return (uint64_t)INT64_MAX - vz_u(4);
        case 6: return vz_r() >> vz_u(64);
        case 7: { uint64_t p = 1; int n = (int)vz_u(20); while (n--) p *= 10; return p - 1 + vz_u(3); }
        case 8: return (uint64_t)-(int64_t)(vz_r() >> (1 + vz_u(63)));
        default: return vz_r();
    }
}
static uint64_t vz_hash(const void *p, size_t n, uint64_t h) {
    const unsigned char *b = (const unsigned char *)p;
    h ^= 0xcbf29ce484222325ull;
    while (n--) { h ^= *b++; h *= 0x100000001b3ull; }
    return h;
}

/* ---------------------------------------------------------------- verdicts */
typedef struct { const char *name; void (*fn)(void); int weight; } vz_sub;
static jmp_buf vz_env;
static volatile int vz_env_ok;
static uint64_t vz_case_no, vz_seed;
static const char *vz_cur = "";
static volatile uint64_t *vz_status; /* [0]=case [1]=hang flag, mapped file */
static FILE *vz_out;
static uint64_t vz_evals;
static uint64_t *vz_hashes; static size_t vz_nh, vz_ch;
static int vz_thorough;
static char vz_last_detail[4096];

static void vz_put_escaped(const char *s) {
    for (; *s; s++) {
        unsigned char c = (unsigned char)*s;
        if (c == '\n') fputs("\\n", vz_out); else if (c == '\t') fputs("\\t", vz_out);
        else if (c < 32 || c > 126) fprintf(vz_out, "\\x%02x", c); else fputc(c, vz_out);
    }
}
static void vz_report(const char *key, const char *fmt, ...) {
    char buf[3000]; va_list va; va_start(va, fmt); vsnprintf(buf, sizeof buf, fmt, va); va_end(va);
    fprintf(vz_out, "@V\t%llu\t%s:%s\t", (unsigned long long)vz_case_no, vz_cur, key); vz_put_escaped(buf); fputc('\n', vz_out); fflush(vz_out);
}
/* report and abandon the case */
#define VZ_FAIL(key, ...) do { vz_report(key, __VA_ARGS__); longjmp(vz_env, 1); } while (0)
#define VZ_CHECK(c, key, ...) do { if (!(c)) VZ_FAIL(key, __VA_ARGS__); } while (0)
/* a case the harness itself cannot set up: an error of the check, not a verdict */
#define VZ_BROKEN(...) do { fprintf(stderr, "harness: " __VA_ARGS__); fputc('\n', stderr); fflush(stderr); _exit(96); } while (0)

static void vz_distinct(uint64_t h) { /* record one distinct nontrivial case */
    if (vz_nh == vz_ch) { vz_ch = vz_ch ? vz_ch * 2 : 1024; vz_hashes = (uint64_t *)realloc(vz_hashes, vz_ch * 8); }
    vz_hashes[vz_nh++] = vz_hash(vz_cur, strlen(vz_cur), h * 0x9E3779B97F4A7C15ull + 1);
}
typedef struct { const char *name; uint64_t v; } vz_statrec;
static vz_statrec vz_stats[256]; static int vz_nstats;
static void vz_stat(const char *name, uint64_t n) {
    int i; for (i = 0; i < vz_nstats; i++) if (vz_stats[i].name == name || !strcmp(vz_stats[i].name, name)) { vz_stats[i].v += n; return; }
    if (vz_nstats < 256) { vz_stats[vz_nstats].name = name; vz_stats[vz_nstats++].v = n; }
}
static int vz_samples_left = 3;
static void vz_sample(const char *fmt, ...) {
    char buf[800]; va_list va;
    if (vz_samples_left <= 0) return;
    vz_samples_left--;
    va_start(va, fmt); vsnprintf(buf, sizeof buf, fmt, va); va_end(va);
    fprintf(vz_out, "@X\t%s: ", vz_cur); vz_put_escaped(buf); fputc('\n', vz_out);
}
static void vz_on_prof(int s) { (void)s; vz_status[1] = 1; _exit(97); }
#ifndef VZ_CPU_LIMIT
#define VZ_CPU_LIMIT 20
#endif
static void vz_watch(int secs) {
    struct itimerval it; memset(&it, 0, sizeof it); it.it_value.tv_sec = secs; setitimer(ITIMER_PROF, &it, 0);
}

/* ---------------------------------------------------------------- tracking allocator
 * A zpl allocator that records every live block, checks that what is resized or
 * released is live here with the size the caller claims where it is given,
 * always moves on resize, fills fresh memory with junk unless zeroing was asked
 * for, and can fail any chosen request. */
typedef struct vz_blk { void *p; size_t n; struct vz_blk *next; } vz_blk;
typedef struct {
    vz_blk *live; size_t nlive, bytes, peak;
    uint64_t calls;              /* allocation requests so far (alloc and growing resize) */
    uint64_t fail_at;            /* fail this request (0-based); UINT64_MAX = never */
    int fail_after;              /* fail every request from fail_at on */
    uint64_t failed;
    int bad;                     /* misuse seen */
    char why[160];
} vz_track;
static void vz_track_init(vz_track *t) { memset(t, 0, sizeof *t); t->fail_at = UINT64_MAX; }
static vz_blk **vz_track_find(vz_track *t, void *p) {
    vz_blk **b; for (b = &t->live; *b; b = &(*b)->next) if ((*b)->p == p) return b; return 0;
}
static void *vz_track_get(vz_track *t, size_t n, size_t al, int zero) {
    void *p = 0; vz_blk *b;
    uint64_t c = t->calls++;
    if (c == t->fail_at || (t->fail_after && c >= t->fail_at)) { t->failed++; return 0; }
    if (al < 16) al = 16;
    if (n > (1ull << 31)) { t->failed++; return 0; }
    if (posix_memalign(&p, al, n ? n : 1)) return 0;
    memset(p, zero ? 0 : 0xA5, n);
    b = (vz_blk *)malloc(sizeof *b); b->p = p; b->n = n; b->next = t->live; t->live = b; t->nlive++; t->bytes += n;
    if (t->bytes > t->peak) t->peak = t->bytes;
    return p;
}
static void vz_track_put(vz_track *t, void *p) {
    vz_blk **b;
    if (!p) return;
    b = vz_track_find(t, p);
    if (!b) { if (!t->bad) snprintf(t->why, sizeof t->why, "released a block that is not live in this allocator"); t->bad = 1; return; }
    { vz_blk *x = *b; *b = x->next; t->nlive--; t->bytes -= x->n; memset(p, 0xDD, x->n); free(p); free(x); }
}
static ZPL_ALLOCATOR_PROC(vz_track_proc) {
    vz_track *t = (vz_track *)allocator_data;
    switch (type) {
        case ZPL_ALLOCATION_ALLOC: return vz_track_get(t, (size_t)size, (size_t)alignment, (flags & ZPL_ALLOCATOR_FLAG_CLEAR_TO_ZERO) != 0);
        case ZPL_ALLOCATION_FREE: vz_track_put(t, old_memory); return 0;
        case ZPL_ALLOCATION_FREE_ALL: while (t->live) vz_track_put(t, t->live->p); return 0;
        case ZPL_ALLOCATION_RESIZE: {
            void *q; vz_blk **b; size_t on;
            if (!old_memory) return vz_track_get(t, (size_t)size, (size_t)alignment, (flags & ZPL_ALLOCATOR_FLAG_CLEAR_TO_ZERO) != 0);
            if (size == 0) { vz_track_put(t, old_memory); return 0; }
            b = vz_track_find(t, old_memory);
            if (!b) { if (!t->bad) snprintf(t->why, sizeof t->why, "resized a block that is not live in this allocator"); t->bad = 1; return 0; }
            on = (*b)->n;
            if (old_size < 0 || (size_t)old_size > on) { if (!t->bad) snprintf(t->why, sizeof t->why, "resized a block of %zu bytes as one of %lld", on, (long long)old_size); t->bad = 1; return 0; }
            on = (size_t)old_size; /* an allocator need keep no more than what the caller says was there */
            q = vz_track_get(t, (size_t)size, (size_t)alignment, (flags & ZPL_ALLOCATOR_FLAG_CLEAR_TO_ZERO) != 0);
            if (!q) return 0;
            memcpy(q, old_memory, on < (size_t)size ? on : (size_t)size);
            vz_track_put(t, old_memory);
            return q;
        }
    }
    return 0;
}
static zpl_allocator vz_track_allocator(vz_track *t) { zpl_allocator a; a.proc = vz_track_proc; a.data = t; return a; }
static void vz_track_release(vz_track *t) { while (t->live) vz_track_put(t, t->live->p); }
#define VZ_TRACK_DONE(t) do { \
    VZ_CHECK(!(t)->bad, "allocator-misuse", "%s", (t)->why); \
    if ((t)->nlive) { size_t n_ = (t)->nlive, b_ = (t)->bytes; vz_track_release(t); VZ_FAIL("leak", "%zu blocks (%zu bytes) never given back", n_, b_); } } while (0)

/* exact-size heap copy: sanitizer red zones on both ends */
static void *vz_dup(const void *p, size_t n) { void *q = malloc(n ? n : 1); if (n) memcpy(q, p, n); if (!n) vz_poison(q, 1); return q; }
static void vz_undup(void *p) { vz_unpoison(p, 1); free(p); }
static const char *vz_show(const void *p, size_t n) { /* rotating printable buffers */
    static char bufs[4][1200]; static int k; char *o = bufs[k = (k + 1) & 3], *s = o; size_t i;
    const unsigned char *b = (const unsigned char *)p;
    for (i = 0; i < n && s < o + 1180; i++) { if (b[i] >= 32 && b[i] < 127 && b[i] != '\\') *s++ = (char)b[i]; else s += sprintf(s, "\\x%02x", b[i]); }
    if (i < n) { memcpy(s, "...", 3); s += 3; }
    *s = 0; return o;
}

/* ---------------------------------------------------------------- scratch dir */
static char vz_dir[512]; /* private scratch directory, made and removed by the runner */

/* ---------------------------------------------------------------- main */
static int vz_main(int argc, char **argv, const vz_sub *subs, int nsubs) {
    int i, total = 0; uint64_t lo, hi; const char *dir; char path[700]; int fd;
    struct sigaction sa;
    if (argc < 6) { fprintf(stderr, "usage: %s seed lo hi dir tag [thorough]\n", argv[0]); return 95; }
    vz_seed = strtoull(argv[1], 0, 10); lo = strtoull(argv[2], 0, 10); hi = strtoull(argv[3], 0, 10); dir = argv[4];
    vz_thorough = argc > 6 && atoi(argv[6]);
    snprintf(path, sizeof path, "%s/%s.out", dir, argv[5]); vz_out = fopen(path, "a");
    snprintf(path, sizeof path, "%s/%s.st", dir, argv[5]);
    fd = open(path, O_RDWR | O_CREAT, 0600); if (fd < 0 || ftruncate(fd, 64) || !vz_out) { perror(path); return 95; }
    vz_status = (volatile uint64_t *)mmap(0, 64, PROT_READ | PROT_WRITE, MAP_SHARED, fd, 0); close(fd);
    snprintf(vz_dir, sizeof vz_dir, "%s/%s.d", dir, argv[5]); mkdir(vz_dir, 0777);
    memset(&sa, 0, sizeof sa); sa.sa_handler = vz_on_prof; sigaction(SIGPROF, &sa, 0);
    signal(SIGPIPE, SIG_IGN);
    for (i = 0; i < nsubs; i++) total += subs[i].weight;
    for (; lo < hi; lo++) {
        uint64_t k;
        int j;
        vz_case_no = lo; vz_status[0] = lo; vz_status[2]++;
        vz_s = vz_seed * 0xD1342543DE82EF95ull + lo * 0x2545F4914F6CDD1Dull + 12345; vz_r();
        /* the first nsubs cases visit each scenario once, then weighted */
        if (lo < (uint64_t)nsubs) j = (int)lo; else { k = vz_u((uint64_t)total); for (j = 0; k >= (uint64_t)subs[j].weight; j++) k -= (uint64_t)subs[j].weight; }
        vz_cur = subs[j].name;
        vz_watch(VZ_CPU_LIMIT);
        if (!setjmp(vz_env)) { vz_evals++; vz_stat(subs[j].name, 1); subs[j].fn(); }
    }
    vz_watch(0);
    fprintf(vz_out, "@E\t%llu\n", (unsigned long long)vz_evals);
    for (i = 0; i < vz_nstats; i++) fprintf(vz_out, "@S\t%s\t%llu\n", vz_stats[i].name, (unsigned long long)vz_stats[i].v);
    fflush(vz_out);
    snprintf(path, sizeof path, "%s/%s.h", dir, argv[5]);
    { FILE *f = fopen(path, "ab"); if (f) { fwrite(vz_hashes, 8, vz_nh, f); fclose(f); } }
    fprintf(vz_out, "@DONE\n"); fclose(vz_out);
    fflush(stdout); fflush(stderr);
    _exit(0);
}
#define VZ_MAIN(...) static const vz_sub vz_subs_[] = { __VA_ARGS__ }; \
    int main(int argc, char **argv) { return vz_main(argc, argv, vz_subs_, (int)(sizeof vz_subs_ / sizeof vz_subs_[0])); }
#endif
