/* C51: what is written arrives completely and once, and what the system refuses
 * or takes only in part is reported as a failure. */
#include "vzt.h"
#include <sys/resource.h>
#include <sys/socket.h>
#include <sys/time.h>
#include <poll.h>
static char path[700], path2[720];
static int nfds(void) { int n = 0, i; for (i = 0; i < 256; i++) n += fcntl(i, F_GETFD) != -1; return n; }
static unsigned char *junk(size_t n) { unsigned char *b = malloc(n + 1); size_t i; uint64_t x = vz_r() | 1; for (i = 0; i < n; i++) { x = x * 6364136223846793005ull + 1442695040888963407ull; b[i] = (unsigned char)('!' + (x >> 33) % 90); } b[n] = 0; return b; }

/* ------------------------------------------------ sinks that take a known part */
enum { K_LIMIT, K_FULL, K_CLOSED, K_NONBLOCK, K_READONLY, K_BADFD };
static unsigned char *M; static size_t ML; /* what must be on disk */
static int64_t limit_;
static void lim(int on) { struct rlimit r; r.rlim_max = RLIM_INFINITY; r.rlim_cur = on ? (rlim_t)limit_ : RLIM_INFINITY; setrlimit(RLIMIT_FSIZE, &r); }
static size_t model_write(int64_t off, const void *b, size_t n) { /* what a device with that limit takes */
    size_t t = off >= limit_ ? 0 : (int64_t)n > limit_ - off ? (size_t)(limit_ - off) : n;
    if (t) { if ((size_t)off > ML) memset(M + ML, 0, (size_t)off - ML); memcpy(M + off, b, t); if ((size_t)off + t > ML) ML = (size_t)off + t; }
    return t;
}
static void disk(const char *p, const char *op) {
    FILE *f = fopen(p, "rb"); size_t n; unsigned char *b = malloc(ML + 64);
    VZ_CHECK(f, "contents", "%s: the file is gone", op);
    n = fread(b, 1, ML + 64, f); fclose(f);
    VZ_CHECK(n == ML && !memcmp(b, M, n), "contents", "after %s the file holds %zu bytes that are not the %zu taken", op, n, ML);
    free(b);
}
static void t_limit(void) {
    zpl_file f; int ops = (int)vz_range(1, 14), fds = nfds(); uint64_t hh = 7; int append = vz_pct(20); int64_t cur = 0; size_t partial = 0, refused = 0, whole = 0;
    snprintf(path, sizeof path, "%s/limited", vz_dir); unlink(path);
    limit_ = vz_pct(10) ? 0 : vz_pct(70) ? vz_range(1, 600) : vz_range(1, 90000); M = malloc((size_t)limit_ + 200000); ML = 0;
    signal(SIGXFSZ, SIG_IGN);
    VZ_CHECK(zpl_file_open_mode(&f, append ? ZPL_FILE_MODE_APPEND | ZPL_FILE_MODE_RW : ZPL_FILE_MODE_WRITE | ZPL_FILE_MODE_RW, path) == ZPL_FILE_ERROR_NONE, "open", "failed");
    while (ops--) {
        int op = (int)vz_u(6); size_t n = vz_pct(60) ? vz_u((uint64_t)limit_ / 3 + 3) : vz_u((uint64_t)limit_ * 2 + 3), t; unsigned char *b = junk(n); const char *what = "?"; zpl_b32 ok = 0; int64_t off, size0 = (int64_t)ML; zpl_isize cnt = 0; int hascnt = 0, back = 0;
        if (append && op >= 3 && op <= 4) op = 0;
        switch (op) {
            case 3: case 4: off = vz_pct(50) ? (int64_t)vz_u((uint64_t)limit_ + 40) : (int64_t)vz_u(ML + 1); break;
            default: off = append ? size0 : cur;
        }
        if (op == 5) { /* formatted */ int64_t r; if (n > 60000) n = 60000; b[n] = 0; what = "zpl_fprintf"; off = append ? size0 : cur; t = model_write(off, b, n); lim(1); r = zpl_fprintf(&f, "%s", (char *)b); lim(0); ok = r >= 0; if (ok) VZ_CHECK((size_t)r == n + 1, "length", "formatted output of %zu bytes reported as %lld", n, (long long)r); }
        else { t = model_write(off, b, n); lim(1);
            switch (op) {
                case 0: case 1: case 2: what = "zpl_file_write"; ok = zpl_file_write(&f, b, (zpl_isize)n); break;
                case 3: what = "zpl_file_write_at"; ok = zpl_file_write_at(&f, b, (zpl_isize)n, off); back = 1; break;
                case 4: what = "zpl_file_write_at_check"; ok = zpl_file_write_at_check(&f, b, (zpl_isize)n, off, &cnt); hascnt = 1; back = 1; break;
            }
            lim(0); }
        if (t == n) whole++; else if (t) partial++; else refused++;
        VZ_CHECK((ok != 0) == (t == n), "report", "%s of %zu bytes at %lld with room up to %lld: %zu were taken, reported as %s", what, n, (long long)off, (long long)limit_, t, ok ? "success" : "failure");
        if (hascnt) VZ_CHECK(cnt == (zpl_isize)t, "count", "%s of %zu bytes took %zu and reported %zd", what, n, t, (ssize_t)cnt);
        disk(path, what);
        if (back) { zpl_file_seek(&f, cur); } else cur = off + (int64_t)t;
        VZ_CHECK(zpl_file_tell(&f) == cur || (append && !t), "cursor", "%s took %zu of %zu bytes from %lld and left the cursor at %lld", what, t, n, (long long)off, (long long)zpl_file_tell(&f));
        cur = zpl_file_tell(&f);
        hh = hh * 131 + t * 7 + (uint64_t)op; free(b);
        if (!append && vz_pct(20)) { cur = (int64_t)vz_u(ML + 5); zpl_file_seek(&f, cur); }
    }
    zpl_file_close(&f);
    { size_t n = vz_u((uint64_t)limit_ * 2 + 3), t; unsigned char *b = junk(n); zpl_file_error e = ZPL_FILE_ERROR_NONE; zpl_b32 ok; ML = 0; t = model_write(0, b, n); snprintf(path2, sizeof path2, "%s/limited2", vz_dir); lim(1); ok = zpl_file_write_contents(path2, b, (zpl_isize)n, &e); lim(0);
      VZ_CHECK((ok != 0) == (t == n), "report", "zpl_file_write_contents of %zu bytes with room for %lld reported %s", n, (long long)limit_, ok ? "success" : "failure"); disk(path2, "zpl_file_write_contents"); unlink(path2);
      /* copying a file to where it does not fit */
      if (ML) { FILE *o = fopen(path, "wb"); fwrite(b, 1, n, o); fclose(o); lim(1); ok = zpl_fs_copy(path, path2, 0); lim(0); VZ_CHECK((ok != 0) == (t == n), "report", "copying %zu bytes with room for %lld reported %s", n, (long long)limit_, ok ? "success" : "failure"); disk(path2, "zpl_fs_copy"); unlink(path2); }
      free(b); }
    { /* a document and an archive that do not fit */
        zpl_adt_node root; zpl_file d; zpl_string s; zpl_b8 ok; int i, k = (int)vz_range(1, 12); size_t n; zpl_adt_set_obj(&root, NULL, zpl_heap());
        for (i = 0; i < k; i++) { static char key[12][8]; snprintf(key[i], sizeof key[i], "k%d", i); zpl_adt_append_int(&root, key[i], (zpl_i64)vz_u(1000000)); }
        s = zpl_json_write_string(zpl_heap(), &root, 0); n = (size_t)zpl_string_length(s); limit_ = (int64_t)vz_u(n * 2 + 2); ML = 0; M = realloc(M, n * 4 + 200000);
        if ((int64_t)n <= limit_) { memcpy(M, s, n); ML = n; } else { memcpy(M, s, (size_t)limit_); ML = (size_t)limit_; }
        zpl_file_open_mode(&d, ZPL_FILE_MODE_WRITE, path2); lim(1); ok = zpl_json_write(&d, &root, 0); lim(0); zpl_file_close(&d);
        VZ_CHECK((ok != 0) == ((int64_t)n <= limit_), "report", "writing a document of %zu bytes with room for %lld reported %s", n, (long long)limit_, ok ? "success" : "failure"); disk(path2, "zpl_json_write");
        zpl_adt_destroy_branch(&root); zpl_string_free(s); }
    { char const *ps[1]; zpl_file d; zpl_isize r; size_t need, n = vz_u(3000); unsigned char *b = junk(n); FILE *o = fopen(path, "wb"); fwrite(b, 1, n, o); fclose(o); ps[0] = path; zpl_file_open_mode(&d, ZPL_FILE_MODE_WRITE, path2); r = zpl_tar_pack(&d, ps, 1); need = (size_t)zpl_file_size(&d); zpl_file_close(&d);
      VZ_CHECK(r == 0, "archive", "packing failed with %zd", (ssize_t)r);
      limit_ = (int64_t)vz_u(need * 3 / 2); zpl_file_open_mode(&d, ZPL_FILE_MODE_WRITE, path2); lim(1); r = zpl_tar_pack(&d, ps, 1); lim(0); zpl_file_close(&d);
      VZ_CHECK((r == 0) == ((int64_t)need <= limit_), "report", "packing %zu bytes of archive with room for %lld reported %zd", need, (long long)limit_, (ssize_t)r); free(b); }
    unlink(path); unlink(path2); free(M);
    VZ_CHECK(nfds() == fds, "fd-leak", "%d descriptors left open", nfds() - fds);
    vz_stat("whole writes", whole); vz_stat("partial writes", partial); vz_stat("refused writes", refused); vz_distinct(hh);
}
static size_t drain(int fd, unsigned char *o, size_t cap) { size_t n = 0; ssize_t r; while (n < cap && (r = read(fd, o + n, cap - n)) > 0) n += (size_t)r; return n; }
static void t_refuse(void) {
    int kind = (int)vz_range(K_FULL, K_BADFD), fds = nfds(), p[2] = {-1, -1}; zpl_file f; int i, ops = (int)vz_range(1, 8); uint64_t hh = (uint64_t)kind;
    zpl_file_descriptor d; memset(&f, 0, sizeof f); memset(&d, 0, sizeof d);
    snprintf(path, sizeof path, "%s/ro", vz_dir);
    switch (kind) {
        case K_FULL: d.i = open("/dev/full", O_RDWR); if (d.i < 0) kind = K_BADFD; break;
        case K_CLOSED: if (vz_pct(50) ? pipe(p) : socketpair(AF_UNIX, SOCK_STREAM, 0, p)) VZ_BROKEN("pipe"); if (!vz_pct(50)) { int t = p[0]; t = t; } close(p[0]); d.i = p[1]; break;
        case K_NONBLOCK: if (vz_pct(50) ? pipe(p) : socketpair(AF_UNIX, SOCK_STREAM, 0, p)) VZ_BROKEN("pipe"); fcntl(p[0], F_SETFL, O_NONBLOCK); fcntl(p[1], F_SETFL, O_NONBLOCK); d.i = p[1]; break;
        case K_READONLY: { FILE *o = fopen(path, "wb"); fputs("keep", o); fclose(o); d.i = open(path, O_RDONLY); } break;
    }
    if (kind == K_BADFD) { d.i = 200 + (zpl_intptr)vz_u(50); if (fcntl((int)d.i, F_GETFD) != -1) return; }
    VZ_CHECK(zpl_file_new(&f, d, zpl_default_file_operations, "it") == ZPL_FILE_ERROR_NONE && !strcmp(zpl_file_name(&f), "it"), "file_new", "name '%s'", zpl_file_name(&f));
    for (i = 0; i < ops; i++) {
        size_t n = vz_pct(60) ? vz_range(1, 300) : vz_u(400000) + 1, got = 0; unsigned char *b, *o; zpl_b32 ok; zpl_isize cnt = 0; int how = (int)vz_u(3);
        if (how == 2 && n > 60000) n = 60000;
        b = junk(n); o = malloc(n + 64);
        if (how == 0) ok = zpl_file_write(&f, b, (zpl_isize)n); else if (how == 1) ok = zpl_file_write_at_check(&f, b, (zpl_isize)n, 0, &cnt); else ok = zpl_fprintf(&f, "%s", (char *)b) >= 0;
        if (kind == K_NONBLOCK) { got = drain(p[0], o, n + 64); VZ_CHECK(got <= n && !memcmp(o, b, got), "order", "%zu bytes that were not sent came through", got); }
        VZ_CHECK((ok != 0) == (got == n), "report", "%s of %zu bytes to %s: %zu were taken, reported as %s", how == 2 ? "zpl_fprintf" : "write", n, kind == K_FULL ? "a full device" : kind == K_CLOSED ? "a closed pipe" : kind == K_NONBLOCK ? "a pipe that will not wait" : kind == K_READONLY ? "a read-only file" : "a bad descriptor", got, ok ? "success" : "failure");
        if (how == 1) VZ_CHECK(cnt == (zpl_isize)got, "count", "%zu of %zu bytes taken, reported %zd", got, n, (ssize_t)cnt);
        vz_stat(got == n ? "whole writes" : got ? "partial writes" : "refused writes", 1); hh = hh * 31 + got;
        free(b); free(o);
    }
    if (kind == K_BADFD) zpl_free(zpl_heap(), (char *)f.filename); else VZ_CHECK(zpl_file_close(&f) == ZPL_FILE_ERROR_NONE, "close", "failed");
    if (kind == K_NONBLOCK) close(p[0]);
    if (kind == K_READONLY) { FILE *r = fopen(path, "rb"); char o[9] = {0}; size_t n = fread(o, 1, 8, r); fclose(r); VZ_CHECK(n == 4 && !strcmp(o, "keep"), "contents", "a file opened for reading was changed"); unlink(path); }
    VZ_CHECK(nfds() == fds, "fd-leak", "%d descriptors left open", nfds() - fds); vz_distinct(hh);
}

/* ------------------------------------------------ standard streams */
typedef struct { int fd; int slow; unsigned char *b; size_t n, cap; uint64_t seed; } rd;
static void *reader(void *p) { /* collects until end of file; sometimes reluctantly */
    rd *r = (rd *)p; ssize_t k; size_t want; uint64_t x = r->seed; sigset_t all; sigfillset(&all); pthread_sigmask(SIG_BLOCK, &all, 0);
    for (;;) {
        if (r->cap - r->n < 70000) r->b = realloc(r->b, r->cap = r->cap * 2 + 140000);
        x = x * 6364136223846793005ull + 1; want = r->slow ? 1 + (x >> 33) % 60000 : 65536;
        if (r->slow && (x >> 20) % 3 == 0) { struct timespec ts = {0, (long)((x >> 40) % 400000)}; nanosleep(&ts, 0); }
        k = read(r->fd, r->b + r->n, want); if (k <= 0) return 0;
        r->n += (size_t)k;
    }
}
static volatile int ticks; static void on_alrm(int s) { (void)s; ticks++; }
static void pester(int on) { /* a signal every so often that interrupts system calls */
    struct itimerval it; struct sigaction sa; memset(&sa, 0, sizeof sa); sa.sa_handler = on_alrm; sigaction(SIGALRM, &sa, 0);
    memset(&it, 0, sizeof it); if (on) it.it_value.tv_usec = it.it_interval.tv_usec = 300; setitimer(ITIMER_REAL, &it, 0);
}
enum { S_PIPE, S_SOCK, S_FILE, S_APPEND };
typedef struct { int kind, rfd, wfd, saved, target; char path[720]; rd r; pthread_t t; } sink;
static void sink_open(sink *s, int target, int no, int kind, int slow) { /* target < 0: not installed over a standard stream */
    int p[2]; memset(s, 0, sizeof *s); s->kind = kind; s->rfd = -1; s->target = target; s->r.slow = slow; s->r.seed = vz_r();
    if (kind == S_PIPE) { if (pipe(p)) VZ_BROKEN("pipe"); } else if (kind == S_SOCK) { if (socketpair(AF_UNIX, SOCK_STREAM, 0, p)) VZ_BROKEN("socketpair"); }
    else { snprintf(s->path, sizeof s->path, "%s/sink%d", vz_dir, no); unlink(s->path); p[0] = -1; p[1] = open(s->path, O_WRONLY | O_CREAT | O_TRUNC | (kind == S_APPEND ? O_APPEND : 0), 0600); if (p[1] < 0) VZ_BROKEN("open"); }
    s->rfd = p[0]; s->wfd = p[1];
    if (s->rfd >= 0) { s->r.fd = s->rfd; if (pthread_create(&s->t, 0, reader, &s->r)) VZ_BROKEN("pthread_create"); }
    if (target >= 0) { fflush(target == 1 ? stdout : stderr); s->saved = dup(target); dup2(s->wfd, target); close(s->wfd); s->wfd = target; }
}
static void sink_close(sink *s) {
    if (s->target >= 0) { dup2(s->saved, s->target); close(s->saved); } else close(s->wfd);
    if (s->rfd >= 0) { pthread_join(s->t, 0); close(s->rfd); }
    else { int fd = open(s->path, O_RDONLY); ssize_t k; s->r.b = malloc(s->r.cap = 8 << 20); while ((k = read(fd, s->r.b + s->r.n, s->r.cap - s->r.n)) > 0) s->r.n += (size_t)k; close(fd); unlink(s->path); }
}
static const char *sname(int k) { return k == S_PIPE ? "a pipe" : k == S_SOCK ? "a socket" : k == S_FILE ? "a file" : "a file opened for appending"; }
static zpl_isize va_out(int k, const char *f, ...) { va_list va; zpl_isize r; va_start(va, f); r = k ? zpl_printf_err_va(f, va) : zpl_printf_va(f, va); va_end(va); return r; }
static void t_standard(void) {
    sink s[2]; unsigned char *want[2]; size_t wn[2] = {0, 0}, cap = 6 << 20; int i, k, ops = (int)vz_range(1, 24), hard = vz_pct(50), bad = 0, fds = nfds(); char why[200] = ""; size_t big = 0; uint64_t hh = 3; int t0 = ticks;
    want[0] = malloc(cap); want[1] = malloc(cap);
    for (k = 0; k < 2; k++) sink_open(&s[k], k + 1, k, (int)vz_u(4), hard && vz_pct(70));
    if (hard) pester(1);
    for (i = 0; i < ops && !bad; i++) {
        size_t n = vz_pct(60) ? vz_u(200) : vz_pct(70) ? vz_u(60000) : vz_u(hard ? 600000 : 100000), ln; unsigned char *b; int64_t r = 0; int how = (int)vz_u(5), num = (int)vz_u(100000); char *e;
        if (how != 2 && n > 60000) n = 60000;
        k = (int)vz_u(2); b = junk(n); e = (char *)want[k] + wn[k];
        if (wn[k] + n + 100 > cap) { free(b); continue; }
        switch (how) {
            case 0: case 1: r = how ? zpl_fprintf(zpl_file_get_standard(k ? ZPL_FILE_STANDARD_ERROR : ZPL_FILE_STANDARD_OUTPUT), "%d:%s\n", num, (char *)b) : vz_pct(40) ? va_out(k, "%d:%s\n", num, (char *)b) : k ? zpl_printf_err("%d:%s\n", num, (char *)b) : zpl_printf("%d:%s\n", num, (char *)b);
                ln = (size_t)sprintf(e, "%d:%s\n", num, (char *)b); wn[k] += ln; if (r != (int64_t)ln + 1) { bad = 1; snprintf(why, sizeof why, "printing %zu bytes returned %lld", ln, (long long)r); } break;
            case 2: if (!zpl_file_write(k ? ZPL_STDIO_ERR : ZPL_STDIO_OUT, b, (zpl_isize)n)) { bad = 1; snprintf(why, sizeof why, "writing %zu bytes failed", n); } memcpy(e, b, n); wn[k] += n; break;
            case 3: { zpl_adt_node root, *nd; zpl_string t; zpl_adt_set_obj(&root, NULL, zpl_heap()); nd = zpl_adt_append_arr(&root, "list"); zpl_adt_append_int(nd, NULL, num); zpl_adt_append_str(nd, NULL, "text"); t = zpl_json_write_string(zpl_heap(), &root, 0); ln = (size_t)zpl_string_length(t);
                if (!zpl_json_write(k ? ZPL_STDIO_ERR : ZPL_STDIO_OUT, &root, 0)) { bad = 1; snprintf(why, sizeof why, "writing a document failed"); } memcpy(e, t, ln); wn[k] += ln; zpl_string_free(t); zpl_adt_destroy_branch(&root); } break;
            default: { zpl_isize c = 0; zpl_i64 at = zpl_file_tell(k ? ZPL_STDIO_ERR : ZPL_STDIO_OUT); if (!zpl_file_write_at_check(k ? ZPL_STDIO_ERR : ZPL_STDIO_OUT, b, (zpl_isize)n, at, &c) || c != (zpl_isize)n) { bad = 1; snprintf(why, sizeof why, "writing %zu bytes counted %zd", n, (ssize_t)c); }
                if (s[k].kind == S_FILE) zpl_file_seek(k ? ZPL_STDIO_ERR : ZPL_STDIO_OUT, at + c); memcpy(e, b, n); wn[k] += n; } break;
        }
        if (n > 65536) big++;
        hh = hh * 131 + n * 5 + (uint64_t)how; free(b);
    }
    if (hard) pester(0);
    for (k = 0; k < 2; k++) sink_close(&s[k]);
    VZ_CHECK(!bad, "report", "%s, with nothing refused (%s and %s)", why, sname(s[0].kind), sname(s[1].kind));
    for (k = 0; k < 2; k++) { size_t j = 0; while (j < wn[k] && j < s[k].r.n && want[k][j] == s[k].r.b[j]) j++;
        VZ_CHECK(s[k].r.n == wn[k] && j == wn[k], "delivery", "standard %s through %s: %zu bytes written, %zu arrived, different from byte %zu on", k ? "error" : "output", sname(s[k].kind), wn[k], s[k].r.n, j); free(want[k]); free(s[k].r.b); }
    VZ_CHECK(nfds() == fds, "fd-leak", "%d descriptors left open", nfds() - fds);
    vz_stat("standard stream writes", (uint64_t)ops); vz_stat("interrupting signals", (uint64_t)(ticks - t0)); vz_stat("writes larger than a pipe", big); vz_distinct(hh);
}
/* ------------------------------------------------ standard input */
typedef struct { int fd; unsigned char *b; size_t n; uint64_t seed; } wr;
static void *feeder(void *p) { wr *w = (wr *)p; size_t i = 0; uint64_t x = w->seed; sigset_t all; sigfillset(&all); pthread_sigmask(SIG_BLOCK, &all, 0);
    while (i < w->n) { size_t k; ssize_t r; x = x * 6364136223846793005ull + 1; k = 1 + (x >> 33) % 5000; if (k > w->n - i) k = w->n - i; if ((x >> 50) % 8 == 0) { struct timespec ts = {0, (long)((x >> 40) % 300000)}; nanosleep(&ts, 0); } r = write(w->fd, w->b + i, k); if (r > 0) i += (size_t)r; }
    close(w->fd); return 0; }
static void t_input(void) {
    int kind = (int)vz_u(3), p[2], saved, fds = nfds(), hard = vz_pct(40), exact = vz_pct(40), bad = 0, calls = 0; wr w; pthread_t t; size_t n = vz_pct(20) ? 0 : vz_pct(60) ? vz_u(4000) : vz_u(200000), got = 0; unsigned char *o; char why[200] = "";
    w.b = junk(n); w.n = n; w.seed = vz_r(); o = malloc(n + 70000);
    if (kind == 2) { FILE *f; snprintf(path, sizeof path, "%s/in", vz_dir); f = fopen(path, "wb"); fwrite(w.b, 1, n, f); fclose(f); p[0] = open(path, O_RDONLY); unlink(path); }
    else if (kind ? socketpair(AF_UNIX, SOCK_STREAM, 0, p) : pipe(p)) VZ_BROKEN("pipe");
    saved = dup(0); dup2(p[0], 0); close(p[0]);
    if (exact) { /* everything asked for is already there */
        if (n > 60000) { n = 60000; if (kind != 2) w.n = n; }
        if (kind != 2) { if (write(p[1], w.b, n) != (ssize_t)n) VZ_BROKEN("write"); close(p[1]); }
        while (got < n && !bad) { size_t k = vz_range(1, (int64_t)(n - got)); if (!zpl_file_read(ZPL_STDIO_IN, o + got, (zpl_isize)k)) { bad = 1; snprintf(why, sizeof why, "reading %zu waiting bytes failed", k); } got += k; calls++; }
    } else {
        if (kind != 2) { w.fd = p[1]; if (pthread_create(&t, 0, feeder, &w)) VZ_BROKEN("pthread_create"); }
        if (hard) pester(1);
        for (;;) { zpl_isize k = -1; size_t want = vz_pct(50) ? vz_range(1, 50) : vz_range(1, 60000); zpl_b32 ok; if (want > n + 65000 - got) want = n + 65000 - got; ok = zpl_file_read_at_check(ZPL_STDIO_IN, o + got, (zpl_isize)want, zpl_file_tell(ZPL_STDIO_IN), &k); calls++;
            if (!ok || k < 0 || k > (zpl_isize)want) { bad = 1; snprintf(why, sizeof why, "reading %zu bytes reported %s, %zd bytes", want, ok ? "success" : "failure", (ssize_t)k); break; }
            if (!k) break;
            got += (size_t)k; if (kind == 2) zpl_file_seek(ZPL_STDIO_IN, (zpl_i64)got); if (got > n) break; }
        if (hard) pester(0);
        if (bad) { char tmp[4096]; while (kind != 2 && read(0, tmp, sizeof tmp) > 0) ; }
        if (kind != 2) pthread_join(t, 0);
    }
    dup2(saved, 0); close(saved);
    VZ_CHECK(!bad, "input", "%s, standard input being %s", why, kind == 2 ? "a file" : kind ? "a socket" : "a pipe");
    VZ_CHECK(got == n && !memcmp(o, w.b, n), "input", "%zu bytes sent through %s, %zu read%s", n, kind == 2 ? "a file" : kind ? "a socket" : "a pipe", got, got == n ? ", different" : "");
    VZ_CHECK(nfds() == fds, "fd-leak", "%d descriptors left open", nfds() - fds);
    vz_stat("reads of standard input", (uint64_t)calls); vz_distinct(vz_hash(w.b, n, (uint64_t)kind + (uint64_t)calls * 8)); free(w.b); free(o);
}
/* ------------------------------------------------ operations of the caller's own */
static struct { unsigned char b[5000]; size_t n; int64_t cur; int fail, closes, calls; zpl_file_descriptor fd; int wrong; } C;
static zpl_b32 c_read(zpl_file_descriptor fd, void *buffer, zpl_isize size, zpl_i64 offset, zpl_isize *bytes_read, zpl_b32 stop) { size_t k; (void)stop; C.calls++; C.wrong |= fd.p != C.fd.p; if (C.fail) return 0; k = offset >= (int64_t)C.n ? 0 : C.n - (size_t)offset; if (k > (size_t)size) k = (size_t)size; memcpy(buffer, C.b + offset, k); if (bytes_read) *bytes_read = (zpl_isize)k; return 1; }
static zpl_b32 c_write(zpl_file_descriptor fd, void const *buffer, zpl_isize size, zpl_i64 offset, zpl_isize *bytes_written) { C.calls++; C.wrong |= fd.p != C.fd.p; if (C.fail || offset + size > (int64_t)sizeof C.b) return 0; if ((size_t)offset > C.n) memset(C.b + C.n, 0, (size_t)offset - C.n); memcpy(C.b + offset, buffer, (size_t)size); if ((size_t)(offset + size) > C.n) C.n = (size_t)(offset + size); if (bytes_written) *bytes_written = size; return 1; }
static zpl_b32 c_seek(zpl_file_descriptor fd, zpl_i64 offset, zpl_seek_whence_type wh, zpl_i64 *new_offset) { C.calls++; C.wrong |= fd.p != C.fd.p; C.cur = wh == ZPL_SEEK_WHENCE_BEGIN ? offset : wh == ZPL_SEEK_WHENCE_CURRENT ? C.cur + offset : (int64_t)C.n + offset; if (new_offset) *new_offset = C.cur; return 1; }
static void c_close(zpl_file_descriptor fd) { C.wrong |= fd.p != C.fd.p; C.closes++; }
static void t_custom(void) {
    zpl_file_operations ops; zpl_file f; int k, n = (int)vz_range(1, 30), calls; static unsigned char m[5000]; size_t ml = 0; int64_t cur = 0; char name[64]; size_t hb; uint64_t hh = 5;
    ops.read_at = c_read; ops.write_at = c_write; ops.seek = c_seek; ops.close = c_close; memset(&C, 0, sizeof C); C.fd.p = (void *)(uintptr_t)(vz_r() >> 2);
    memset(&f, 0xA5, sizeof f); f.is_temp = 0; snprintf(name, sizeof name, "name %llx", (unsigned long long)vz_u(1ull << 40)); hb = vz_heap_bytes();
    VZ_CHECK(zpl_file_new(&f, C.fd, ops, name) == ZPL_FILE_ERROR_NONE, "file_new", "failed");
    strcpy(name, "changed"); VZ_CHECK(strncmp(zpl_file_name(&f), "name ", 5) == 0, "file_new", "name '%s'", zpl_file_name(&f));
    for (k = 0; k < n; k++) {
        unsigned char b[600], o[600]; size_t len = vz_u(400), i; zpl_b32 ok; zpl_isize cnt = 0; int64_t off; for (i = 0; i < len; i++) b[i] = (unsigned char)vz_r();
        C.fail = vz_pct(10); calls = C.calls; hh = hh * 31 + len;
        switch (vz_u(6)) {
            case 0: ok = zpl_file_write(&f, b, (zpl_isize)len); VZ_CHECK((ok != 0) == (!C.fail && cur + (int64_t)len <= (int64_t)sizeof C.b), "report", "write reported %d", ok); if (ok) { if ((size_t)cur > ml) memset(m + ml, 0, (size_t)cur - ml); memcpy(m + cur, b, len); cur += (int64_t)len; if ((size_t)cur > ml && len) ml = (size_t)cur; if (!len && (size_t)cur > ml) ml = C.n; } break;
            case 1: ok = zpl_file_read_at_check(&f, o, 400, cur, &cnt); VZ_CHECK((ok != 0) == !C.fail, "report", "read reported %d", ok); if (ok) { size_t a = (size_t)cur >= ml ? 0 : ml - (size_t)cur; if (a > 400) a = 400; VZ_CHECK((size_t)cnt == a && !memcmp(o, m + cur, a), "read", "%zd of %zu bytes", (ssize_t)cnt, a); } break;
            case 2: memset(o, 0, sizeof o); ok = zpl_file_read(&f, o, (zpl_isize)len); VZ_CHECK((ok != 0) == !C.fail, "report", "read reported %d", ok); if (ok) { size_t a = (size_t)cur >= ml ? 0 : ml - (size_t)cur; if (a > len) a = len; VZ_CHECK(!memcmp(o, m + cur, a), "read", "other bytes"); cur += (int64_t)a; } break;
            case 3: off = (int64_t)vz_u(ml + 20); VZ_CHECK(zpl_file_seek(&f, off) == off, "seek", "not at %lld", (long long)off); cur = off; break;
            case 4: off = zpl_file_seek_to_end(&f); VZ_CHECK(off == (int64_t)ml, "seek", "end at %lld of %zu", (long long)off, ml); cur = off; break;
            default: VZ_CHECK(zpl_file_size(&f) == (zpl_i64)ml, "size", "%lld instead of %zu", (long long)zpl_file_size(&f), ml);
        }
        VZ_CHECK(C.calls > calls, "bypass", "an operation did not go through the operations given");
        VZ_CHECK(!C.wrong, "descriptor", "operations were called with another descriptor");
        VZ_CHECK(C.cur == cur, "cursor", "at %lld instead of %lld", (long long)C.cur, (long long)cur); VZ_CHECK(C.n == ml && !memcmp(C.b, m, ml), "contents", "differ");
    }
    f.dir = 0; VZ_CHECK(zpl_file_close(&f) == ZPL_FILE_ERROR_NONE && C.closes == 1, "close", "closed %d times", C.closes); VZ_CHECK(vz_heap_bytes() == hb, "memory-leak", "%zd bytes", (ssize_t)(vz_heap_bytes() - hb));
    vz_stat("custom operations called", (uint64_t)C.calls); vz_distinct(hh);
}
/* ------------------------------------------------ a system that takes and gives everything piecemeal */
#ifdef VZ_PIECES
#include <sys/sendfile.h>
ssize_t __real_write(int, const void *, size_t); ssize_t __real_pwrite(int, const void *, size_t, off_t); ssize_t __real_read(int, void *, size_t); ssize_t __real_pread(int, void *, size_t, off_t); ssize_t __real_sendfile(int, int, off_t *, size_t);
ssize_t __real_pwrite64(int, const void *, size_t, off_t); ssize_t __real_pread64(int, void *, size_t, off_t); ssize_t __real_sendfile64(int, int, off_t *, size_t);
static struct { int on, habit, row; unsigned long cut, broke, butone; } P;
static ssize_t part(size_t n) { /* how much of n goes now; -1: interrupted */
    size_t k = n;
    if (!P.on || n < 1) return (ssize_t)n;
    if (P.row < 3 && vz_pct(15)) { P.row++; P.broke++; errno = EINTR; return -1; }
    P.row = 0;
    switch (P.habit ? P.habit : (int)vz_range(1, 5)) { case 1: k = n > 1 ? n - 1 : n; break; case 2: k = 1 + vz_u(n); break; case 3: k = n < 40 ? 1 : n / 2; break; case 4: k = n > 4096 ? 4096 : n; break; }
    if (n > 20000 && k < n / 20) k = n / 20;
    if (k < n) { P.cut++; P.butone += k == n - 1; }
    return (ssize_t)k;
}
#define PIECE(name, pars, args) ssize_t __wrap_##name pars { ssize_t k_ = part(n); if (k_ < 0) return -1; n = (size_t)k_; return __real_##name args; }
PIECE(write, (int f, const void *b, size_t n), (f, b, n)) PIECE(read, (int f, void *b, size_t n), (f, b, n))
PIECE(pwrite, (int f, const void *b, size_t n, off_t o), (f, b, n, o)) PIECE(pread, (int f, void *b, size_t n, off_t o), (f, b, n, o)) PIECE(sendfile, (int f, int g, off_t *o, size_t n), (f, g, o, n))
PIECE(pwrite64, (int f, const void *b, size_t n, off_t o), (f, b, n, o)) PIECE(pread64, (int f, void *b, size_t n, off_t o), (f, b, n, o)) PIECE(sendfile64, (int f, int g, off_t *o, size_t n), (f, g, o, n))
static zpl_isize piece_cb(zpl_file *a, zpl_tar_record *r, void *u) { size_t *c = u; zpl_isize got = 0; unsigned char *b; if (r->error != ZPL_TAR_ERROR_NONE || r->type != ZPL_TAR_TYPE_REGULAR) return 0; c[0]++; b = malloc((size_t)r->length + 1); if (zpl_file_read_at_check(a, b, r->length, r->offset, &got) && got == r->length && (size_t)got == ML && !memcmp(b, M, ML)) c[1]++; free(b); return 0; }
static void t_pieces(void) {
    zpl_file f; int i, ops = (int)vz_range(4, 24), fds = nfds(); int64_t cur = 0; uint64_t hh = 11; size_t most = vz_pct(80) ? 3000 : 120000; unsigned long cut0 = P.cut, bro0 = P.broke, one0 = P.butone;
    limit_ = INT64_MAX; M = malloc(4000000); ML = 0; P.habit = vz_pct(50) ? 0 : (int)vz_range(1, 4); P.row = 0;
    snprintf(path, sizeof path, "%s/pieces", vz_dir); snprintf(path2, sizeof path2, "%s/pieces2", vz_dir); unlink(path); unlink(path2);
    VZ_CHECK(zpl_file_open_mode(&f, ZPL_FILE_MODE_WRITE | ZPL_FILE_MODE_RW, path) == ZPL_FILE_ERROR_NONE, "open", "failed");
#define ON(x) do { P.on = 1; x; P.on = 0; } while (0)
    for (i = 0; i < ops; i++) {
        size_t n = vz_pct(10) ? vz_u(4) : vz_u(most), got; unsigned char *b = junk(n), *o = malloc(n + 1); zpl_b32 ok = 0; zpl_isize cnt = -1; int op = (int)vz_u(11); int64_t off = (int64_t)vz_u(ML + 30), r; const char *what = "?"; hh = hh * 31 + n * 16 + (uint64_t)op; memset(o, 0x55, n + 1);
        if (ML > 3000000 && op < 5) op = 5;
        switch (op) {
            case 0: case 1: what = "zpl_file_write"; ON(ok = zpl_file_write(&f, b, (zpl_isize)n)); VZ_CHECK(ok, "pieces", "%s of %zu bytes reported failure", what, n); model_write(cur, b, n); cur += (int64_t)n; break;
            case 2: what = "zpl_file_write_at"; ON(ok = zpl_file_write_at(&f, b, (zpl_isize)n, off)); VZ_CHECK(ok, "pieces", "%s of %zu bytes reported failure", what, n); model_write(off, b, n); zpl_file_seek(&f, cur); break;
            case 3: what = "zpl_file_write_at_check"; ON(ok = zpl_file_write_at_check(&f, b, (zpl_isize)n, off, &cnt)); VZ_CHECK(ok && cnt == (zpl_isize)n, "pieces", "%s of %zu bytes reported %d, %zd", what, n, ok, (ssize_t)cnt); model_write(off, b, n); zpl_file_seek(&f, cur); break;
            case 4: if (n > 60000) n = 60000, b[n] = 0; what = "zpl_fprintf"; ON(r = zpl_fprintf(&f, "%s|", (char *)b)); VZ_CHECK(r == (int64_t)n + 2, "pieces", "%s of %zu bytes reported %lld", what, n + 1, (long long)r); b[n] = '|'; model_write(cur, b, n + 1); b[n] = 0; cur += (int64_t)n + 1; break;
            case 5: case 6: what = "zpl_file_read_at_check"; got = off >= (int64_t)ML ? 0 : ML - (size_t)off; if (got > n) got = n; ON(ok = zpl_file_read_at_check(&f, o, (zpl_isize)n, off, &cnt)); VZ_CHECK(ok && (size_t)cnt == got && !memcmp(o, M + off, got), "pieces", "%s of %zu bytes at %lld of %zu reported %d, %zd bytes or other bytes", what, n, (long long)off, ML, ok, (ssize_t)cnt); zpl_file_seek(&f, cur); break;
            case 7: what = "zpl_file_read"; cur = (int64_t)vz_u(ML + 1); zpl_file_seek(&f, cur); got = ML - (size_t)cur; if (got > n) got = n; ON(ok = zpl_file_read(&f, o, (zpl_isize)got)); VZ_CHECK(ok && !memcmp(o, M + cur, got) && zpl_file_tell(&f) == cur + (int64_t)got, "pieces", "%s of %zu bytes at %lld of %zu reported %d or gave other bytes", what, got, (long long)cur, ML, ok); cur += (int64_t)got; break;
            case 8: what = "zpl_fs_copy"; ON(ok = zpl_fs_copy(path, path2, 0)); VZ_CHECK(ok, "pieces", "copying %zu bytes reported failure", ML); disk(path2, what); break;
            case 9: { zpl_file_contents c; what = "zpl_file_read_contents"; ON(c = zpl_file_read_contents(zpl_heap(), vz_pct(50), path)); VZ_CHECK(c.data || !ML, "pieces", "reading the %zu bytes of a file gave nothing", ML); if (c.data) { VZ_CHECK((size_t)c.size == ML && !memcmp(c.data, M, ML), "pieces", "reading the %zu bytes of a file gave %zd, or others", ML, (ssize_t)c.size); zpl_file_free_contents(&c); } } break;
            default: { zpl_file_error e = ZPL_FILE_ERROR_NONE; unsigned char *m0 = M; size_t l0 = ML; what = "zpl_file_write_contents"; ON(ok = zpl_file_write_contents(path2, b, (zpl_isize)n, &e)); VZ_CHECK(ok && e == ZPL_FILE_ERROR_NONE, "pieces", "%s of %zu bytes reported %d, %d", what, n, ok, e); M = b; ML = n; disk(path2, what); M = m0; ML = l0; } break;
        }
        disk(path, what); VZ_CHECK(zpl_file_tell(&f) == cur, "pieces", "after %s the cursor is at %lld instead of %lld", what, (long long)zpl_file_tell(&f), (long long)cur);
        free(b); free(o);
    }
    zpl_file_close(&f);
    if (vz_pct(30)) { char const *ps[1]; zpl_file a; zpl_isize r; size_t c[2] = {0, 0}; ps[0] = path; unlink(path2); if (strlen(path) < 100) {
        VZ_CHECK(zpl_file_open_mode(&a, ZPL_FILE_MODE_WRITE | ZPL_FILE_MODE_RW, path2) == ZPL_FILE_ERROR_NONE, "open", "failed"); ON(r = zpl_tar_pack(&a, ps, 1)); VZ_CHECK(r == 0, "pieces", "packing reported %zd", (ssize_t)r); zpl_file_seek(&a, 0); ON(r = zpl_tar_unpack(&a, piece_cb, c)); VZ_CHECK(r == 0 && c[0] == 1 && c[1] == 1, "pieces", "a file of %zu bytes packed and unpacked: %zd, %zu delivered, %zu intact", ML, (ssize_t)r, c[0], c[1]); zpl_file_close(&a); vz_stat("archives in pieces", 1); } }
    unlink(path); unlink(path2); free(M); VZ_CHECK(nfds() == fds, "fd-leak", "%d descriptors left open", nfds() - fds);
    vz_stat("transfers cut short", P.cut - cut0); vz_stat("transfers cut by one byte", P.butone - one0); vz_stat("transfers interrupted", P.broke - bro0); vz_distinct(hh);
}
#define PIECES , {"piecemeal", t_pieces, 3}
#else
#define PIECES
#endif
/* ------------------------------------------------ documents written to a device that gives up at some point */
#ifndef VZ_THREADS_ONLY
#include "jsongen.h"
static struct { char *b; size_t n, cap, room; long calls, stop; zpl_file_descriptor fd; } G;
static zpl_b32 g_read(zpl_file_descriptor fd, void *buffer, zpl_isize size, zpl_i64 offset, zpl_isize *bytes_read, zpl_b32 stop) { (void)fd; (void)buffer; (void)size; (void)offset; (void)stop; if (bytes_read) *bytes_read = 0; return 0; }
static zpl_b32 g_write(zpl_file_descriptor fd, void const *buffer, zpl_isize size, zpl_i64 offset, zpl_isize *bytes_written) {
    size_t k = (size_t)size; (void)fd; (void)offset; if (bytes_written) *bytes_written = 0; G.calls++;
    if (G.stop && G.calls >= G.stop) return 0;
    if (G.n + k > G.room) k = G.room - G.n;
    if (G.n + k + 1 > G.cap) { G.cap = (G.n + k + 1) * 2; G.b = realloc(G.b, G.cap); }
    memcpy(G.b + G.n, buffer, k); G.n += k; if (bytes_written) *bytes_written = (zpl_isize)k; return k == (size_t)size;
}
static zpl_b32 g_seek(zpl_file_descriptor fd, zpl_i64 offset, zpl_seek_whence_type wh, zpl_i64 *new_offset) { (void)fd; (void)offset; (void)wh; if (new_offset) *new_offset = (zpl_i64)G.n; return 1; }
static void g_close(zpl_file_descriptor fd) { (void)fd; }
static zpl_b8 g_doc(zpl_adt_node *root, zpl_isize ind, long stop, size_t room) {
    zpl_file_operations ops; zpl_file f; zpl_b8 ok; ops.read_at = g_read; ops.write_at = g_write; ops.seek = g_seek; ops.close = g_close; memset(&f, 0, sizeof f); G.fd.p = &G; G.n = 0; G.calls = 0; G.stop = stop; G.room = room;
    VZ_CHECK(zpl_file_new(&f, G.fd, ops, "device") == ZPL_FILE_ERROR_NONE, "file_new", "failed"); ok = zpl_json_write(&f, root, ind); f.dir = 0; zpl_file_close(&f); return ok;
}
static void t_document(void) {
    static const zpl_isize IND[] = { 0, 4, ZPL_JSON_INDENT_STYLE_COMPACT, 1 }; int bare, i, tries, relaxed = vz_pct(60); jv *v; char *t, *full; zpl_adt_node root; zpl_isize ind = IND[vz_u(4)]; size_t n; long calls; zpl_string s; uint64_t h;
    do { v = jdoc(relaxed, &bare); if (jl < 6000) break; jfree(v); } while (1);
    t = vz_dup(jt, jl + 1); VZ_CHECK(zpl_json_parse(&root, t, zpl_heap()) == ZPL_JSON_ERROR_NONE, "parse", "a well-formed document is refused");
    VZ_CHECK(g_doc(&root, ind, 0, SIZE_MAX / 2), "report", "writing a document to a device that takes everything reported failure"); n = G.n; calls = G.calls; full = malloc(n + 1); if (n) memcpy(full, G.b, n); full[n] = 0;
    s = zpl_json_write_string(zpl_heap(), &root, ind); VZ_CHECK(s && (size_t)zpl_string_length(s) == n && !memcmp(s, full, n), "text", "the document written as text differs from the one written to a file"); zpl_string_free(s);
    tries = calls > 40 ? 40 : (int)calls; h = vz_hash(full, n, (uint64_t)ind);
    for (i = 0; i < tries; i++) { /* every write call refused in turn, or a sample of them; then the room ending at some byte */
        long k = calls > 40 ? 1 + (long)vz_u((uint64_t)calls) : i + 1; size_t room; zpl_b8 ok = g_doc(&root, ind, k, SIZE_MAX / 2);
        VZ_CHECK(!ok, "report", "the device refused write %ld of %ld of a document of %zu bytes (indent %td), and success was reported: %.200s", k, calls, n, ind, vz_show(full, n > 150 ? 150 : n)); VZ_CHECK(G.n <= n && !memcmp(G.b, full, G.n), "contents", "what was written before a refusal is not the beginning of the document");
        room = vz_u(n + 2); ok = g_doc(&root, ind, 0, room); VZ_CHECK((ok != 0) == (room >= n), "report", "writing a document of %zu bytes with room for %zu reported %s", n, room, ok ? "success" : "failure"); VZ_CHECK(G.n <= n && !memcmp(G.b, full, G.n), "contents", "what was taken is not the beginning of the document");
    }
    vz_stat("document writes refused", (uint64_t)tries); vz_distinct(h); zpl_json_free(&root); vz_undup(t); free(full); jfree(v);
}
#endif
/* ------------------------------------------------ several threads printing */
static int nlines, maxlen, nthr; static uint64_t sd[8];
static size_t line(char *o, int no, int i) { size_t n, k; uint64_t x = sd[no] + (uint64_t)i * 0x9E3779B97F4A7C15ull; x ^= x >> 29; x *= 0xBF58476D1CE4E5B9ull; x ^= x >> 32; n = (size_t)(x % (uint64_t)maxlen); k = (size_t)sprintf(o, "%d %d ", no, i); while (n--) { x = x * 6364136223846793005ull + 1; o[k++] = (char)('a' + (x >> 33) % 26); } o[k] = 0; return k; }
static void say(int no, void *u) {
    char *b = malloc(70000); int i; (void)u;
    for (i = 0; i < nlines; i++) { size_t n = line(b, no & 15, i); zpl_isize r = i & 1 ? zpl_printf("%s\n", b) : zpl_fprintf(ZPL_STDIO_OUT, "%s%c", b, '\n'); VT_CHECK(r == (zpl_isize)n + 2, "report", "printing a line of %zu bytes returned %zd", n + 1, (ssize_t)r); vt_delay(0); vt_step(); }
    free(b);
}
static void t_threads(void) {
    sink s; int i, next[8] = {0}, kind = vz_pct(60) ? S_PIPE : S_APPEND, fds = nfds(); size_t at = 0; char *b = malloc(70000); uint64_t order = 1, last = 0, turns = 0;
    nthr = (int)vz_range(2, 6); nlines = (int)vz_range(1, 60); maxlen = kind == S_PIPE ? (vz_pct(50) ? 60 : 3900) : vz_pct(70) ? 200 : 20000; for (i = 0; i < 8; i++) sd[i] = vz_r();
    vt_begin("threads printing"); sink_open(&s, 1, 0, kind, vz_pct(30)); vt_threads(nthr, say, 0); sink_close(&s);
    while (at < s.r.n) { unsigned char *e = memchr(s.r.b + at, '\n', s.r.n - at); size_t n; int no; VT_CHECK(e, "torn", "the last line has no end"); if (!e) break;
        no = s.r.b[at] - '0'; n = no >= 0 && no < nthr && next[no] < nlines ? line(b, no, next[no]) : 0;
        VT_CHECK(n == (size_t)(e - (s.r.b + at)) && !memcmp(b, s.r.b + at, n), "torn", "%d threads printing through %s: '%.60s' is not the next line of any", nthr, sname(kind), vz_show(s.r.b + at, (size_t)(e - (s.r.b + at)) > 60 ? 60 : (size_t)(e - (s.r.b + at)))); if (vt_ld(&vt_bad_set)) break;
        next[no]++; order = order * 31 + (uint64_t)no; turns += (uint64_t)no != last; last = (uint64_t)no; at = (size_t)(e - s.r.b) + 1; }
    for (i = 0; i < nthr; i++) VT_CHECK(next[i] == nlines, "lost", "thread %d printed %d lines through %s, %d arrived", i, nlines, sname(kind), next[i]);
    free(s.r.b); free(b); vt_end(); VZ_CHECK(nfds() == fds, "fd-leak", "%d descriptors left open", nfds() - fds);
    vz_stat("lines printed by threads", (uint64_t)(nthr * nlines)); vz_stat("changes of thread between lines", turns); vz_distinct(order);
}
#ifdef VZ_THREADS_ONLY
VZ_MAIN({"threads", t_threads, 1})
#else
VZ_MAIN({"limited files", t_limit, 6}, {"refusing devices", t_refuse, 6}, {"standard output", t_standard, 4}, {"standard input", t_input, 4}, {"own operations", t_custom, 3}, {"documents", t_document, 2}, {"threads", t_threads, 2} PIECES)
#endif
