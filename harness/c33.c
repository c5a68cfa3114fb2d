/* C33: the job system runs every accepted job exactly once */
#include "vzt.h"
#include <dirent.h>
typedef struct { uint64_t in, out[3]; int runs, prio, busy, no; unsigned delay; } jb;
static jb *J; static int nj, capj; static int over, inside, most_inside; static uint64_t finished;
static int seq[5][20000], nseq[5]; /* order of execution per priority, written by workers */
static int seq_lock_free;
static void work(void *p) {
    jb *j = (jb *)p; int i, n; volatile int x = 0;
    vt_enter();
    n = vt_add(&j->runs, 1); VT_CHECK(n == 0, "twice", "job %d of priority %d ran a second time", j->no, j->prio);
    VT_CHECK(!vt_ld(&over), "after-free", "a job ran after the system was shut down");
    n = vt_add(&inside, 1) + 1; if (n > vt_ld(&most_inside)) vt_st(&most_inside, n);
    if (seq_lock_free) { int k = vt_add(&nseq[j->prio], 1); if (k < 20000) vt_st(&seq[j->prio][k], j->no); }
    switch (j->delay & 7) { case 0: case 1: case 2: break; case 3: case 4: i = (int)(j->delay >> 3) % 3000; while (i--) x++; break; case 5: sched_yield(); break; default: { struct timespec ts = {0, (long)(j->delay >> 3) % 80000}; nanosleep(&ts, 0); } }
    for (i = 0; i < 3; i++) j->out[i] = j->in * (uint64_t)(i + 2); /* plain: visible once completion is reported */
    vt_add(&inside, -1); vt_add(&finished, 1); vt_step(); vt_leave();
}
static int tasks(void) { int n = 0; DIR *d = opendir("/proc/self/task"); struct dirent *e; while (d && (e = readdir(d))) n += e->d_name[0] != '.'; if (d) closedir(d); return n; }
static jb *job_new(int prio, int slow) { jb *j = &J[nj]; memset(j, 0, sizeof *j); j->no = nj; j->prio = prio; j->in = vz_r() | 1; j->delay = slow ? (unsigned)vz_r() & 0x7fffffff : 0; return j; }
static void all_done(int from, const char *when) {
    int i, k; for (i = from; i < nj; i++) { int r = vt_ld(&J[i].runs); VT_CHECK(r == 1, "lost", "%s: accepted job %d (priority %d) had run %d times", when, i, J[i].prio, r); for (k = 0; k < 3; k++) VT_CHECK(J[i].out[k] == J[i].in * (uint64_t)(k + 2), "not-finished", "%s: the effects of job %d are not there", when, i); }
}
static int refused_no;
static int enqueue(zpl_jobs_system *s, int prio, int slow, int cap_left) { /* cap_left: exact room if known, else -1 */
    jb *j; int full = zpl_jobs_full(s, (zpl_jobs_priority)prio) != 0, ok;
    if (nj >= capj) return -1;
    j = job_new(prio, slow); nj++; /* tentatively: a refused job must never run */
    ok = (prio == ZPL_JOBS_PRIORITY_NORMAL && vz_pct(50) ? zpl_jobs_enqueue(s, work, j) : zpl_jobs_enqueue_with_priority(s, work, j, (zpl_jobs_priority)prio)) != 0;
    VT_CHECK(ok == !full, "full-truth", "the queue of priority %d said it was %s and the job was %s", prio, full ? "full" : "not full", ok ? "accepted" : "refused");
    if (cap_left >= 0) VT_CHECK(ok == (cap_left > 0), "limit", "with room for %d more jobs of priority %d, a job was %s", cap_left, prio, ok ? "accepted" : "refused");
    if (ok) VT_CHECK(!zpl_jobs_empty(s, (zpl_jobs_priority)prio) && !zpl_jobs_empty_all(s), "empty-truth", "a queue that has just accepted a job counts as empty");
    if (!ok) { J[nj - 1].runs = -1000; nj--; refused_no++; /* the slot is reused: leave a trace of an impossible run */ J[nj].runs = 0; }
    return ok;
}
static void finish_all(zpl_jobs_system *s) {
    int k = 0;
    while (!zpl_jobs_done(s)) {
        int empty = zpl_jobs_empty_all(s) != 0, p = zpl_jobs_process(s) != 0;
        VT_CHECK(p == !empty, "process-truth", "processing reported %s with the queues %s", p ? "work" : "nothing to do", empty ? "empty" : "not empty");
        if (++k % 16 == 0) sched_yield();
        if (vt_ld(&vt_bad_set)) break;
    }
}
static void t_jobs(void) {
    zpl_jobs_system s; vz_track tr; int nw = 1 + (int)vz_u(8), lim = 1 + (int)vz_u(vz_pct(50) ? 6 : 60), rounds = 1 + (int)vz_u(5), r, i, t0, slow = vz_pct(60), early = vz_pct(25), acc = 0, deflt = vz_pct(10); uint64_t h, f0;
    vz_track_init(&tr); t0 = 0; capj = 3000; J = (jb *)calloc((size_t)capj, sizeof(jb)); nj = 0; refused_no = 0;
    if (deflt) lim = ZPL_JOBS_MAX_QUEUE;
    vt_begin("jobs"); t0 = tasks(); vt_st(&over, 0); vt_st(&inside, 0); vt_st(&most_inside, 0); vt_st(&finished, 0); seq_lock_free = 0; memset(nseq, 0, sizeof nseq);
    seq_lock_free = nw == 1;
    memset(&s, 0xCC, sizeof s);
    if (deflt) zpl_jobs_init(&s, vz_track_allocator(&tr), (zpl_u32)nw); else zpl_jobs_init_with_limit(&s, vz_track_allocator(&tr), (zpl_u32)nw, (zpl_u32)lim);
    VT_CHECK(zpl_jobs_done(&s) && zpl_jobs_empty_all(&s) && !zpl_jobs_full_all(&s) && !zpl_jobs_process(&s), "initial", "a new system is not done, not empty, or has work");
    h = (uint64_t)(nw * 100 + lim);
    for (r = 0; r < rounds && !vt_ld(&vt_bad_set); r++) {
        int from = nj, room[5], style = (int)vz_u(3), n = 1 + (int)vz_u(style == 0 ? (uint64_t)lim * 6 : 200), only = vz_pct(30) ? (int)vz_u(5) : -1;
        for (i = 0; i < 5; i++) room[i] = lim;
        if (style == 0) { /* the queues are empty and nothing is processed meanwhile: exact */
            for (i = 0; i < n; i++) { int p = only >= 0 ? only : (int)vz_u(5), ok = enqueue(&s, p, slow, room[p]); if (ok > 0) room[p]--; h = h * 7 + (uint64_t)p; }
            for (i = 0; i < 5; i++) { VT_CHECK(!zpl_jobs_full(&s, (zpl_jobs_priority)i) == (room[i] > 0), "full-truth", "queue %d holds %d of %d jobs; full says %d", i, lim - room[i], lim, zpl_jobs_full(&s, (zpl_jobs_priority)i)); VT_CHECK(!zpl_jobs_empty(&s, (zpl_jobs_priority)i) == (room[i] < lim), "empty-truth", "queue %d holds %d jobs; empty says %d", i, lim - room[i], zpl_jobs_empty(&s, (zpl_jobs_priority)i)); }
            VT_CHECK(!zpl_jobs_full_all(&s) == (room[0] || room[1] || room[2] || room[3] || room[4]), "full-truth", "full_all is wrong");
            if (nj > from) VT_CHECK(!zpl_jobs_done(&s), "early", "completion reported with %d jobs queued", nj - from);
        } else for (i = 0; i < n; i++) { /* enqueueing and processing mixed */
            int k = 1 + (int)vz_u(style == 1 ? 2 : 12);
            while (k--) { int p = only >= 0 ? only : (int)vz_u(5); enqueue(&s, p, slow, -1); }
            k = (int)vz_u(4); while (k--) zpl_jobs_process(&s);
            if (vz_pct(10)) { uint64_t fin; int d = zpl_jobs_done(&s) != 0; fin = vt_ld(&finished); if (d) { VT_CHECK(fin >= (uint64_t)nj, "early", "completion reported with %llu of %d accepted jobs finished", (unsigned long long)fin, nj); all_done(from, "mid-way completion"); } }
            vt_delay(slow); vt_step();
        }
        if (early && r == rounds - 1) break;
        finish_all(&s); all_done(from, "completion");
        f0 = vt_ld(&finished); VT_CHECK(f0 == (uint64_t)nj, "count", "%d jobs accepted, %llu executed", nj, (unsigned long long)f0);
        VT_CHECK(zpl_jobs_empty_all(&s) && !zpl_jobs_process(&s), "empty-truth", "work left after completion");
    }
    VT_CHECK(vt_ld(&most_inside) <= nw, "workers", "%d jobs ran at once on %d workers", most_inside, nw);
    if (early && vz_pct(50)) { zpl_jobs_process(&s); vt_delay(1); }
    zpl_jobs_free(&s); vt_st(&over, 1); vt_step();
    for (i = 0; i < nj; i++) { int n = vt_ld(&J[i].runs), k; acc += n; VT_CHECK(n == 0 || n == 1, "twice", "job %d ran %d times", i, n); if (n == 1) for (k = 0; k < 3; k++) VT_CHECK(J[i].out[k] == J[i].in * (uint64_t)(k + 2), "not-finished", "shutdown returned with job %d half done", i); }
    if (seq_lock_free) for (i = 0; i < 5; i++) { int k, n = vt_ld(&nseq[i]); for (k = 1; k < n && k < 20000; k++) VT_CHECK(seq[i][k] > seq[i][k - 1], "order", "one worker ran job %d of priority %d before the earlier job %d", seq[i][k - 1], i, seq[i][k]); }
    { int n = 0; for (i = 0; i < 4000; i++) { n = tasks(); if (n <= t0) break; usleep(1000); } VT_CHECK(n <= t0, "thread-leak", "%d threads are left after shutdown", n - t0); }
    vz_stat("jobs accepted", (uint64_t)nj); vz_stat("jobs refused", (uint64_t)refused_no); vz_stat("jobs executed", (uint64_t)acc); if (early) vz_stat("early shutdowns", 1); vz_stat("jobs running at once, summed maxima", (uint64_t)most_inside);
    vz_sample("%d workers, limit %d, %d rounds: %d jobs accepted, %d refused, %d executed%s", nw, lim, rounds, nj, refused_no, acc, early ? ", shut down early" : "");
    free(J);
    vt_end(); VZ_TRACK_DONE(&tr); vz_distinct(h * 31 + (uint64_t)acc);
}
/* start-up and shutdown races: few jobs, immediate shutdown, many times */
static void t_shutdown(void) {
    int k, n = 10 + (int)vz_u(30), i, q; uint64_t ran = 0; zpl_jobs_system s; vz_track tr;
    vz_track_init(&tr); vt_begin("immediate shutdown"); vt_st(&over, 0); vt_st(&inside, 0); seq_lock_free = 0; capj = 64; J = (jb *)calloc((size_t)capj, sizeof(jb));
    for (k = 0; k < n && !vt_ld(&vt_bad_set); k++) {
        int nw = 1 + (int)vz_u(4); vt_st(&over, 0); nj = 0;
        zpl_jobs_init_with_limit(&s, vz_track_allocator(&tr), (zpl_u32)nw, 8);
        q = (int)vz_u(6); for (i = 0; i < q; i++) enqueue(&s, (int)vz_u(5), vz_pct(30), -1);
        q = (int)vz_u(6); for (i = 0; i < q; i++) { zpl_jobs_process(&s); if (vz_pct(20)) vt_delay(1); }
        if (vz_pct(20)) { volatile int x = 0; i = (int)vz_u(2000); while (i--) x++; }
        zpl_jobs_free(&s); vt_st(&over, 1); vt_step();
        for (i = 0; i < nj; i++) { int r = vt_ld(&J[i].runs), m; ran += (uint64_t)r; VT_CHECK(r == 0 || r == 1, "twice", "job %d ran %d times", i, r); if (r) for (m = 0; m < 3; m++) VT_CHECK(J[i].out[m] == J[i].in * (uint64_t)(m + 2), "not-finished", "shutdown returned with job %d half done", i); }
    }
    free(J); vt_end(); VZ_TRACK_DONE(&tr); vz_distinct(ran * 64 + (uint64_t)n); vz_stat("early shutdowns", (uint64_t)n);
}
/* a backlog of more jobs than sixteen bits can count */
static int *bk_runs; static void bk_job(void *d) { __atomic_add_fetch((int *)d, 1, __ATOMIC_SEQ_CST); }
static void t_backlog(void) {
    zpl_jobs_system s; vz_track tr; size_t lim = vz_near2(9, 16), i, n = 0, want, ran = 0; int nw = 1 + (int)vz_u(4), round, pr = (int)vz_u(5); vz_track_init(&tr); vt_begin("a long backlog"); bk_runs = calloc(3 * lim + 10, sizeof *bk_runs);
    zpl_jobs_init_with_limit(&s, vz_track_allocator(&tr), (zpl_u32)nw, (zpl_u32)lim);
    for (round = 0; round < 2; round++) {
        want = round ? lim : vz_pct(50) ? lim : vz_u(lim) + 1;
        for (i = 0; i < want; i++, n++) VT_CHECK(zpl_jobs_enqueue_with_priority(&s, bk_job, &bk_runs[n], (zpl_jobs_priority)pr), "refused", "job %zu of a queue for %zu was refused", i, lim);
        VT_CHECK(!zpl_jobs_full(&s, (zpl_jobs_priority)pr) == (want != lim) && !zpl_jobs_empty(&s, (zpl_jobs_priority)pr), "full", "%zu of %zu jobs are waiting: full %d, empty %d", want, lim, (int)zpl_jobs_full(&s, (zpl_jobs_priority)pr), (int)zpl_jobs_empty(&s, (zpl_jobs_priority)pr));
        if (want == lim) VT_CHECK(!zpl_jobs_enqueue_with_priority(&s, bk_job, &bk_runs[3 * lim], (zpl_jobs_priority)pr), "overfull", "a job was accepted beyond the %zu", lim);
        while (!zpl_jobs_done(&s) && !vt_ld(&vt_bad_set)) { zpl_jobs_process(&s); vt_step(); }
        for (i = 0; i < n; i++) VT_CHECK(vt_ld(&bk_runs[i]) == 1, "backlog", "job %zu of %zu ran %d times", i, n, vt_ld(&bk_runs[i]));
    }
    for (i = 0; i < n; i++) ran += (size_t)vt_ld(&bk_runs[i]); VT_CHECK(!vt_ld(&bk_runs[3 * lim]), "overfull", "a refused job ran");
    zpl_jobs_free(&s); vt_end(); VZ_TRACK_DONE(&tr); vz_stat("jobs of long backlogs", ran); vz_distinct(lim * 8 + (uint64_t)nw); free(bk_runs);
}
VZ_MAIN({"jobs", t_jobs, 400}, {"shutdown", t_shutdown, 100}, {"backlog", t_backlog, 2})
