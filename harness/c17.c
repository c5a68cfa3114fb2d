/* tar: pack, inspect the archive with an independent reader (and GNU tar on a sample), unpack, compare */
#include "vz.h"
#include <dirent.h>
#include <sys/wait.h>
#include <spawn.h>
extern char **environ;
#define MAXF 12
typedef struct { char name[160]; unsigned char *b; size_t n; int hit; } fl;
static fl F[MAXF]; static int N; static char src[600], out[600];
static int nfds(void) { DIR *d = opendir("/proc/self/fd"); int n = 0; while (readdir(d)) n++; closedir(d); return n; }
static void wipe(const char *d) { DIR *h = opendir(d); struct dirent *e; char b[1200]; if (!h) return; while ((e = readdir(h))) { struct stat s; if (!strcmp(e->d_name, ".") || !strcmp(e->d_name, "..")) continue; snprintf(b, sizeof b, "%s/%s", d, e->d_name); if (!lstat(b, &s) && S_ISDIR(s.st_mode)) { wipe(b); rmdir(b); } else unlink(b); } closedir(h); }
static void drop(void) { while (N) free(F[--N].b); }
static size_t anysize(void) { static const int ed[] = {0, 1, 511, 512, 513, 1023, 1024, 1025, 4095, 4096, 4097, 8191, 8192, 8193, 12288}; return vz_pct(60) ? (size_t)ed[vz_u(15)] : vz_pct(80) ? vz_u(3000) : vz_u(40000); }
static void mkdirs(const char *p) { char b[900]; char *s; strcpy(b, p); for (s = b + 1; *s; s++) if (*s == '/') { *s = 0; mkdir(b, 0755); *s = '/'; } }
static const char *seg[] = {"a", "b", "dir", "sub", "..x", "...", ".hid", "with space", "tar.tar.gz", "\xc3\xa9", "%d%s", "zz"};
/* generated files below the current directory */
static void mkfiles(int top, int maxname) {
    int want = (int)vz_u(MAXF), k, tries = 0; drop(); wipe("."); (void)top;
    while (N < want && tries++ < 60) { char nm[160] = ""; int d = (int)vz_u(3), i, fd; fl *f; struct stat st;
        for (i = 0; i < d; i++) { strcat(nm, seg[vz_u(12)]); strcat(nm, "/"); }
        strcat(nm, seg[vz_u(12)]); if (vz_pct(50)) { int L = vz_pct(30) ? maxname : vz_pct(30) ? maxname - 1 - (int)vz_u(3) : (int)vz_range(8, maxname); while ((int)strlen(nm) < L) { size_t q = strlen(nm); nm[q] = (char)('a' + (int)vz_u(26)); nm[q + 1] = 0; } }
        if ((int)strlen(nm) > maxname) continue;
        for (k = 0; k < N; k++) if (!strcmp(F[k].name, nm)) break; if (k < N) continue;
        mkdirs(nm); if (!lstat(nm, &st)) continue; fd = open(nm, O_CREAT | O_EXCL | O_WRONLY, 0644); if (fd < 0) continue; /* a parent is a file */
        f = &F[N++]; strcpy(f->name, nm); f->n = anysize(); f->b = malloc(f->n + 1); for (i = 0; i < (int)f->n; i++) f->b[i] = (unsigned char)(vz_pct(10) ? 0 : vz_r()); if (write(fd, f->b, f->n) != (ssize_t)f->n) VZ_BROKEN("write"); close(fd); }
}
static fl *byname(const char *n) { int i; for (i = 0; i < N; i++) if (!strcmp(F[i].name, n)) return &F[i]; return 0; }
static void clearhits(void) { int i; for (i = 0; i < N; i++) F[i].hit = 0; }
static void allhit(const char *what) { int i; for (i = 0; i < N; i++) VZ_CHECK(F[i].hit == 1, what, "'%s' delivered %d times", F[i].name, F[i].hit); }
/* every regular file below d must be one of F, with its bytes */
static void walk(const char *d, const char *rel, const char *what) { DIR *h = opendir(d); struct dirent *e; char b[1500], r[900]; if (!h) return;
    while ((e = readdir(h))) { struct stat s; if (!strcmp(e->d_name, ".") || !strcmp(e->d_name, "..")) continue; snprintf(b, sizeof b, "%s/%s", d, e->d_name); snprintf(r, sizeof r, "%s%s%s", rel, *rel ? "/" : "", e->d_name);
        if (lstat(b, &s)) continue; if (S_ISDIR(s.st_mode)) { walk(b, r, what); continue; }
        { fl *f = byname(r); int fd; unsigned char *q; ssize_t n; if (!f) { closedir(h); VZ_FAIL(what, "unexpected file '%s'", r); } fd = open(b, O_RDONLY); q = malloc(f->n + 2); n = read(fd, q, f->n + 1); close(fd);
          if (n != (ssize_t)f->n || memcmp(q, f->b, f->n)) { closedir(h); VZ_FAIL(what, "'%s' has %zd bytes, expected %zu, or other bytes", r, n, f->n); } free(q); f->hit++; } }
    closedir(h); }
static int64_t oct(const char *p, int n) { int64_t v = 0; int i = 0; while (i < n && p[i] == ' ') i++; if (i == n || p[i] < '0' || p[i] > '7') return -1; for (; i < n && p[i] >= '0' && p[i] <= '7'; i++) v = v * 8 + (p[i] - '0'); if (i < n && p[i] != 0 && p[i] != ' ') return -1; return v; }
/* independent reader of what zpl packed; prefix: text before each name */
static void inspect(const unsigned char *a, size_t n, const char *prefix, int ordered) {
    size_t p = 0; int k = 0; clearhits(); VZ_CHECK(n % 512 == 0 && n >= 1024, "format", "archive of %zu bytes", n);
    while (p + 512 <= n) { const char *h = (const char *)a + p; char nm[101]; int64_t len, cs; unsigned sum = 0; int i; fl *f; static const char z[512];
        if (!memcmp(h, z, 512)) break;
        memcpy(nm, h, 100); nm[100] = 0; len = oct(h + 124, 12); cs = oct(h + 148, 8); for (i = 0; i < 512; i++) sum += i >= 148 && i < 156 ? ' ' : (unsigned char)h[i];
        VZ_CHECK(cs == (int64_t)sum, "format", "header %d: checksum %lld, computed %u", k, (long long)cs, sum); VZ_CHECK(len >= 0 && oct(h + 100, 8) >= 0 && oct(h + 136, 12) >= 0, "format", "header %d: a number field is not octal", k); VZ_CHECK(h[156] == '0' || h[156] == 0, "format", "type %d", h[156]);
        VZ_CHECK(!strncmp(nm, prefix, strlen(prefix)), "pack-name", "'%s'", nm); f = byname(nm + strlen(prefix)); VZ_CHECK(f, "pack-name", "'%s' was never packed", nm); VZ_CHECK(!ordered || f == &F[k], "pack-order", "'%s' in place %d", nm, k);
        VZ_CHECK(len == (int64_t)f->n, "pack-size", "'%s' has size %lld, expected %zu", nm, (long long)len, f->n); p += 512; VZ_CHECK(p + (size_t)len <= n && !memcmp(a + p, f->b, f->n), "pack-bytes", "contents of '%s' (%zu bytes) differ", nm, f->n); f->hit++; k++;
        for (i = (int)len; i % 512; i++) VZ_CHECK(a[p + (size_t)i] == 0, "format", "padding is not zero"); p += ((size_t)len + 511) / 512 * 512; }
    allhit("pack"); VZ_CHECK(n - p == 1024, "format", "%zu bytes follow the last file", n - p); for (; p < n; p++) VZ_CHECK(a[p] == 0, "format", "the end is not zero"); }
static const char *uprefix; static int ucount;
static ZPL_TAR_UNPACK_PROC(take) { fl *f; unsigned char *q; zpl_isize got = -1; (void)user_data; ucount++;
    if (file->type == ZPL_TAR_TYPE_DIR) return 0;
    VZ_CHECK(file->error == 0 && file->type == ZPL_TAR_TYPE_REGULAR, "unpack", "entry '%s' has error %zd type %d", file->path, (ssize_t)file->error, file->type); VZ_CHECK(!strncmp(file->path, uprefix, strlen(uprefix)), "unpack-name", "'%s'", file->path); f = byname(file->path + strlen(uprefix)); VZ_CHECK(f, "unpack-name", "'%s' delivered", file->path);
    VZ_CHECK(file->length == (zpl_i64)f->n, "unpack-size", "'%s' %lld of %zu", file->path, (long long)file->length, f->n); q = malloc(f->n + 1);
    if (vz_pct(50)) VZ_CHECK(zpl_file_read_at_check(archive, q, (zpl_isize)f->n, file->offset, &got) && got == (zpl_isize)f->n, "unpack-bytes", "reading '%s'", file->path); else { zpl_file_seek(archive, file->offset); VZ_CHECK(zpl_file_read(archive, q, (zpl_isize)f->n), "unpack-bytes", "read"); }
    VZ_CHECK(!memcmp(q, f->b, f->n), "unpack-bytes", "'%s' differs", file->path); free(q); f->hit++; if (vz_pct(20)) zpl_file_seek(archive, (zpl_i64)vz_u(5000)); return 0; }
static int run(const char *const *av) { pid_t p; int st; posix_spawn_file_actions_t fa; posix_spawn_file_actions_init(&fa); posix_spawn_file_actions_addopen(&fa, 1, "/dev/null", O_WRONLY, 0); posix_spawn_file_actions_addopen(&fa, 2, "/dev/null", O_WRONLY, 0); if (posix_spawnp(&p, av[0], &fa, 0, (char *const *)av, environ)) return -1; posix_spawn_file_actions_destroy(&fa); waitpid(p, &st, 0); return WIFEXITED(st) ? WEXITSTATUS(st) : -2; }
static void slurp(zpl_file *f, int mem, const char *path, unsigned char **b, size_t *n) { if (mem) { zpl_isize z = 0; zpl_u8 *q = zpl_file_stream_buf(f, &z); *n = (size_t)z; *b = malloc(*n + 1); memcpy(*b, q, *n); } else { struct stat s; int fd = open(path, O_RDONLY); fstat(fd, &s); *n = (size_t)s.st_size; *b = malloc(*n + 1); if (read(fd, *b, *n) != (ssize_t)*n) VZ_BROKEN("read"); close(fd); } }
static void t_round(void) {
    char arc[700], cwd[700]; int mem = vz_pct(50), dirmode = vz_pct(35), k, fds; zpl_file a; const char *paths[MAXF]; unsigned char *bytes; size_t nb; zpl_isize e; vz_track tr; uint64_t hh = 3; char prefix[200] = "";
    if (!getcwd(cwd, sizeof cwd)) VZ_BROKEN("cwd"); snprintf(src, sizeof src, "%s/s", vz_dir); snprintf(out, sizeof out, "%s/o", vz_dir); mkdir(src, 0755); wipe(out); mkdir(out, 0755); snprintf(arc, sizeof arc, "%s/x.tar", vz_dir); unlink(arc);
    if (chdir(src)) VZ_BROKEN("chdir"); mkfiles(0, dirmode ? 90 : 100); fds = nfds(); vz_track_init(&tr);
    memset(&a, 0, sizeof a); if (mem) { if (!zpl_file_stream_new(&a, zpl_heap())) VZ_BROKEN("stream"); } else { if (zpl_file_create(&a, arc)) VZ_BROKEN("create"); }
    if (dirmode) { mkdir("empty dir", 0755); strcpy(prefix, vz_pct(50) ? "./" : "../s/"); { char d[20]; strcpy(d, prefix); d[strlen(d) - 1] = 0; e = zpl_tar_pack_dir(&a, d, vz_track_allocator(&tr)); } }
    else { for (k = 0; k < N; k++) paths[k] = F[k].name; e = zpl_tar_pack(&a, paths, N); }
    VZ_CHECK(e == 0, "pack", "packing %d files returned %zd", N, (ssize_t)e);
    slurp(&a, mem, arc, &bytes, &nb); inspect(bytes, nb, prefix, !dirmode);
    zpl_file_seek(&a, 0); clearhits(); uprefix = prefix; ucount = 0; e = zpl_tar_unpack(&a, take, 0); VZ_CHECK(e == 0, "unpack", "returned %zd", (ssize_t)e); allhit("unpack"); VZ_CHECK(ucount == N, "unpack", "%d callbacks for %d files", ucount, N);
    if (!dirmode || !strncmp(prefix, "./", 2)) { char o2[700]; zpl_file_seek(&a, 0); snprintf(o2, sizeof o2, "%s%s", out, vz_pct(50) ? "/" : ""); e = zpl_tar_unpack_dir(&a, o2); VZ_CHECK(e == 0, "unpack_dir", "returned %zd", (ssize_t)e); clearhits(); walk(out, "", "unpack_dir"); allhit("unpack_dir"); }
    if (!dirmode && N && vz_pct(15)) { char keep[160]; paths[vz_u((uint64_t)N)] = "no such file"; zpl_file_seek(&a, 0); e = zpl_tar_pack(&a, paths, N); VZ_CHECK(e == -(ZPL_TAR_ERROR_FILE_NOT_FOUND), "pack-missing", "a missing file gave %zd", (ssize_t)e); (void)keep; }
    zpl_file_close(&a); VZ_TRACK_DONE(&tr);
    VZ_CHECK(nfds() == fds - (mem ? 0 : 0), "fd-leak", "%d descriptors left open", nfds() - fds);
    if (vz_pct(6) && (!dirmode || !strncmp(prefix, "./", 2))) { /* GNU tar must list and extract what zpl packed */
        const char *av[] = {"tar", "-xf", arc, "-C", out, 0}; int fd = open(arc, O_CREAT | O_TRUNC | O_WRONLY, 0644); int rc; if (write(fd, bytes, nb) != (ssize_t)nb) VZ_BROKEN("w"); close(fd); wipe(out); rc = run(av); VZ_CHECK(rc == 0, "gnu-reads", "GNU tar exits %d on an archive zpl packed", rc); clearhits(); walk(out, "", "gnu-reads"); allhit("gnu-reads"); vz_stat("archives read by GNU tar", 1); }
    for (k = 0; k < N; k++) hh = vz_hash(F[k].b, F[k].n, vz_hash(F[k].name, strlen(F[k].name), hh)); if (N) vz_distinct(hh); vz_stat("files", (uint64_t)N); vz_sample("%d files, archive of %zu bytes, %s", N, nb, dirmode ? "pack_dir" : "pack");
    free(bytes); if (chdir(cwd)) VZ_BROKEN("chdir"); drop();
}
static void t_foreign(void) { /* archives GNU tar makes */
    char arc[700], cwd[700]; zpl_file a; zpl_isize e; static const char *fm[] = {"--format=ustar", "--format=v7", "--format=gnu"}; const char *f = fm[vz_u(3)]; const char *av[] = {"tar", f, "--no-recursion", "-cf", arc, "-C", src, "-T", "-", 0}; const char *av2[] = {"tar", f, "-cf", arc, "-C", src, ".", 0}; int mem = vz_pct(50); unsigned char *b = 0; size_t n = 0; int rc; uint64_t hh = 5; int k;
    if (!getcwd(cwd, sizeof cwd)) VZ_BROKEN("cwd"); snprintf(src, sizeof src, "%s/s", vz_dir); snprintf(out, sizeof out, "%s/o", vz_dir); mkdir(src, 0755); wipe(out); mkdir(out, 0755); snprintf(arc, sizeof arc, "%s/x.tar", vz_dir); unlink(arc); (void)av;
    if (chdir(src)) VZ_BROKEN("chdir"); mkfiles(0, 97); rc = run(av2); if (rc) VZ_BROKEN("tar exits %d", rc);
    memset(&a, 0, sizeof a); if (mem) { slurp(0, 0, arc, &b, &n); if (!zpl_file_stream_open(&a, zpl_heap(), b, (zpl_isize)n, 0)) VZ_BROKEN("stream"); } else if (zpl_file_open(&a, arc)) VZ_BROKEN("open");
    clearhits(); uprefix = "./"; e = zpl_tar_unpack(&a, take, 0); VZ_CHECK(e == 0, "foreign", "unpack of an archive by tar %s returned %zd", f, (ssize_t)e); allhit("foreign"); zpl_file_seek(&a, 0); e = zpl_tar_unpack_dir(&a, out); VZ_CHECK(e == 0, "foreign", "unpack_dir returned %zd", (ssize_t)e); clearhits(); walk(out, "", "foreign"); allhit("foreign");
    zpl_file_close(&a); free(b); for (k = 0; k < N; k++) hh = vz_hash(F[k].b, F[k].n, hh); if (N) vz_distinct(hh); if (chdir(cwd)) VZ_BROKEN("chdir"); drop();
}
static void t_refuse(void) { /* names beyond the format's limit, archives that cannot be written */
    char nm[160], cwd[700]; const char *pp[2]; int L = 101 + (int)vz_u(40); zpl_file a; zpl_isize e; unsigned char buf[64]; memset(nm, 'n', sizeof nm); nm[L] = 0; pp[0] = nm; if (!getcwd(cwd, sizeof cwd)) return; snprintf(src, sizeof src, "%s/s", vz_dir); mkdir(src, 0755); if (chdir(src)) VZ_BROKEN("chdir"); wipe("."); { int fd = open(nm, O_CREAT | O_WRONLY, 0644); if (write(fd, "x", 1) != 1) VZ_BROKEN("w"); close(fd); }
    zpl_file_stream_new(&a, zpl_heap()); e = zpl_tar_pack(&a, pp, 1); VZ_CHECK(e < 0, "pack-long", "a name of %d characters was packed", L); zpl_file_close(&a);
    rename(nm, "ok"); pp[0] = "ok"; zpl_file_stream_open(&a, zpl_heap(), buf, sizeof buf, 0); e = zpl_tar_pack(&a, pp, 1); VZ_CHECK(e < 0, "pack-readonly", "packing into a read-only stream reported success"); zpl_file_close(&a); if (chdir(cwd)) VZ_BROKEN("chdir");
}
/* archives behind operations of our own: contents kept, looked through, or refused from a chosen call on */
static struct { unsigned char *b; uint64_t n, cap, at; int count, fail, lasting, failed, keep; unsigned char head[3][512]; uint64_t tail_bad; } W;
static int w_refuse(void) { int r = W.fail && (W.lasting ? ++W.count >= W.fail : ++W.count == W.fail); W.failed |= r; return r; }
static ZPL_FILE_READ_AT_PROC(w_read) { uint64_t m = W.n > (uint64_t)offset ? W.n - (uint64_t)offset : 0; (void)fd; (void)stop_at_newline; if (bytes_read) *bytes_read = 0; if (w_refuse()) return 0; if (m > (uint64_t)size) m = (uint64_t)size; memcpy(buffer, W.b + offset, m); if (bytes_read) *bytes_read = (zpl_isize)m; return 1; }
static ZPL_FILE_WRITE_AT_PROC(w_write) { const unsigned char *q = buffer; zpl_isize i; uint64_t o = (uint64_t)offset; (void)fd; if (bytes_written) *bytes_written = 0; if (w_refuse()) return 0;
    if (W.keep) { if (o + (uint64_t)size > W.cap) { W.cap = (o + (uint64_t)size) * 2; W.b = realloc(W.b, W.cap); } memcpy(W.b + o, q, (size_t)size); }
    else for (i = 0; i < size; ) { if (o + (uint64_t)i < 512) { W.head[0][o + (uint64_t)i] = q[i]; i++; } else if (size - i >= 64) { uint64_t z = 0, t; int k; for (k = 0; k < 8; k++) { memcpy(&t, q + i + k * 8, 8); z |= t; } if (z && !W.tail_bad) W.tail_bad = o + (uint64_t)i; i += 64; } else { if (q[i] && !W.tail_bad) W.tail_bad = o + (uint64_t)i; i++; } }
    if (o + (uint64_t)size > W.n) W.n = o + (uint64_t)size; if (bytes_written) *bytes_written = size; return 1; }
static ZPL_FILE_SEEK_PROC(w_seek) { (void)fd; W.at = whence == ZPL_SEEK_WHENCE_BEGIN ? (uint64_t)offset : whence == ZPL_SEEK_WHENCE_END ? W.n + (uint64_t)offset : W.at + (uint64_t)offset; if (new_offset) *new_offset = (zpl_i64)W.at; return 1; }
static ZPL_FILE_CLOSE_PROC(w_close) { (void)fd; }
static void w_open(zpl_file *a, int keep) { zpl_file_operations o = {w_read, w_write, w_seek, w_close}; zpl_file_descriptor d; memset(&d, 0, sizeof d); d.i = 1000; W.n = W.at = 0; W.count = W.fail = W.failed = 0; W.keep = keep; W.tail_bad = 0; memset(W.head, 0, sizeof W.head); memset(a, 0, sizeof *a); zpl_file_new(a, d, o, "ours"); }
static int wn; static int drain(zpl_file *archive, zpl_tar_record *file) { unsigned char q[700]; int64_t p = file->offset, left = file->length; while (left > 0) { zpl_isize g = 0, w = left < 700 ? (zpl_isize)left : 700; if (!zpl_file_read_at_check(archive, q, w, p, &g) || g != w) return 0; p += g; left -= g; } return 1; }
static ZPL_TAR_UNPACK_PROC(w_take) { (void)user_data; wn++; return drain(archive, file) ? 0 : 1; }
/* the listing of an archive: one line an entry, with its name, offset and length, in order */
static void listed(zpl_file *a, int n, const char *(*name)(int), uint64_t *off, uint64_t *len) {
    char p[720], *b, *q; int fd, old, k; off_t l; zpl_isize e; snprintf(p, sizeof p, "%s/listing", vz_dir); fd = open(p, O_RDWR | O_CREAT | O_TRUNC, 0600); fflush(stdout); old = dup(1); dup2(fd, 1); zpl_file_seek(a, 0); e = zpl_tar_unpack(a, zpl_tar_default_list_file, 0); dup2(old, 1); close(old);
    l = lseek(fd, 0, SEEK_END); b = malloc((size_t)l + 1); if (pread(fd, b, (size_t)l, 0) != l) VZ_BROKEN("pread"); b[l] = 0; close(fd); unlink(p); VZ_CHECK(e == 0, "list", "listing returned %zd", (ssize_t)e);
    for (k = 0, q = b; k < n; k++) { char *x = strchr(q, '\n'), *at; const char *nm = name(k); char w[60]; VZ_CHECK(x, "list", "%d lines for %d entries", k, n); *x = 0; at = strstr(q, nm); VZ_CHECK(at, "list", "entry '%s' is listed as '%s'", nm, q); sprintf(w, "%llu", (unsigned long long)off[k]); at = strstr(at + strlen(nm), w); VZ_CHECK(at && !isdigit((unsigned char)at[-1]) && at[-1] != '-' && !isdigit((unsigned char)at[strlen(w)]), "list", "'%s' lies at %s and is listed as '%s'", nm, w, q); at += strlen(w); sprintf(w, "%llu", (unsigned long long)len[k]); at = strstr(at, w); VZ_CHECK(at && !isdigit((unsigned char)at[-1]) && at[-1] != '-' && !isdigit((unsigned char)at[strlen(w)]), "list", "'%s' has %s bytes and is listed as '%s'", nm, w, q); q = x + 1; }
    VZ_CHECK(!*q, "list", "more than %d lines", n); free(b); vz_stat("entries listed", (uint64_t)n);
}
static const char *h_name(int k) { static char b[20]; sprintf(b, "h%d", k); return b; }
static const char *f_name(int k) { return F[k].name; }
static void t_faults(void) {
    char cwd[700]; zpl_file a; const char *paths[MAXF]; int k, calls, fds; zpl_isize e; uint64_t hs = 11, full;
    if (!getcwd(cwd, sizeof cwd)) return; snprintf(src, sizeof src, "%s/s", vz_dir); snprintf(out, sizeof out, "%s/o", vz_dir); mkdir(src, 0755); wipe(out); mkdir(out, 0755); if (chdir(src)) VZ_BROKEN("chdir"); mkfiles(0, 100); fds = nfds();
    for (k = 0; k < N; k++) paths[k] = F[k].name;
    w_open(&a, 1); W.fail = 1 << 30; e = zpl_tar_pack(&a, paths, N); VZ_CHECK(e == 0, "pack", "packing %d files returned %zd", N, (ssize_t)e); inspect(W.b, W.n, "", 1); calls = W.count; full = W.n; zpl_file_close(&a);
    for (k = 0; k < 4; k++) { int at = 1 + (int)vz_u((uint64_t)calls); unsigned char *save = vz_dup(W.b, full); w_open(&a, 1); W.fail = at; W.lasting = vz_pct(50); e = zpl_tar_pack(&a, paths, N); VZ_CHECK(!W.failed || e < 0, "pack-refused", "write %d of %d was refused and packing %d files returned %zd", at, calls, N, (ssize_t)e); zpl_file_close(&a); memcpy(W.b, save, full); W.n = full; vz_undup(save); vz_stat("refused archive writes", 1); hs = hs * 31 + (uint64_t)at; }
    if (N && vz_pct(50)) { mkdir("a folder.d", 0755); paths[vz_u((uint64_t)N)] = "a folder.d"; { unsigned char *save = vz_dup(W.b, full); w_open(&a, 1); e = zpl_tar_pack(&a, paths, N); VZ_CHECK(e < 0, "pack-folder", "packing a folder as a file returned %zd", (ssize_t)e); zpl_file_close(&a); memcpy(W.b, save, full); W.n = full; vz_undup(save); } }
    if (vz_pct(50)) { uint64_t off[MAXF], len[MAXF], p = 0; for (k = 0; k < N; k++) { off[k] = p + 512; len[k] = F[k].n; p += 512 + (len[k] + 511) / 512 * 512; } w_open(&a, 1); W.n = full; listed(&a, N, f_name, off, len); zpl_file_close(&a); }
    { int c2; w_open(&a, 1); W.n = full; W.fail = 1 << 30; wn = 0; e = zpl_tar_unpack(&a, w_take, 0); VZ_CHECK(e == 0 && wn == N, "unpack", "returned %zd after %d of %d files", (ssize_t)e, wn, N); c2 = W.count; zpl_file_close(&a);
      for (k = 0; k < 4; k++) { int at = 1 + (int)vz_u((uint64_t)c2), dir = vz_pct(40); w_open(&a, 1); W.n = full; W.fail = at; W.lasting = vz_pct(50); wn = 0; wipe(out); e = dir ? zpl_tar_unpack_dir(&a, out) : zpl_tar_unpack(&a, w_take, 0); VZ_CHECK(!W.failed || e < 0, "unpack-refused", "read %d of %d was refused and unpacking %d files returned %zd", at, c2, N, (ssize_t)e); if (!W.failed) VZ_CHECK(e == 0, "unpack", "returned %zd", (ssize_t)e); zpl_file_close(&a); vz_stat("refused archive reads", 1); hs = hs * 31 + (uint64_t)at; } }
    VZ_CHECK(nfds() == fds, "fd-leak", "%d descriptors left open", nfds() - fds); vz_distinct(hs); if (chdir(cwd)) VZ_BROKEN("chdir"); drop(); free(W.b); W.b = 0; W.cap = 0;
}
/* sizes of gigabytes: holes on disk, written to an archive that only looks, or read out of an archive full of holes */
static uint64_t h_off[8], h_len[8]; static int h_n, h_at;
static ZPL_TAR_UNPACK_PROC(h_take) { char nm[20]; (void)archive; (void)user_data; VZ_CHECK(h_at < h_n, "huge", "more than %d entries", h_n); sprintf(nm, "h%d", h_at); VZ_CHECK(file->error == 0 && !strcmp(file->path, nm) && (uint64_t)file->offset == h_off[h_at] && (uint64_t)file->length == h_len[h_at], "huge", "entry '%s' at %lld of %lld bytes (error %zd), expected %llu bytes at %llu", file->path, (long long)file->offset, (long long)file->length, (ssize_t)file->error, (unsigned long long)h_len[h_at], (unsigned long long)h_off[h_at]); h_at++; return 0; }
static uint64_t hugesize(void) { static const uint64_t ed[] = {1ull << 30, (1ull << 30) - 1, (1ull << 31) - 1, 1ull << 31, (1ull << 32) - 1, 1ull << 32, (1ull << 32) + 1, (1ull << 33) - 1, (1ull << 33) - 512}; uint64_t s = vz_pct(70) ? ed[vz_u(9)] : vz_u(1ull << 33); return s; }
static void t_huge(void) {
    char arc[700], p[720]; zpl_file a; int k, fd; uint64_t pos = 0; zpl_isize e; struct stat st;
    snprintf(arc, sizeof arc, "%s/huge.tar", vz_dir); unlink(arc); fd = open(arc, O_RDWR | O_CREAT | O_TRUNC, 0644); h_n = 1 + (int)vz_u(6); h_at = 0;
    for (k = 0; k < h_n; k++) { unsigned char h[512]; unsigned s = 0; int i; memset(h, 0, 512); h_len[k] = vz_pct(70) ? hugesize() : vz_u(5000); h_off[k] = pos + 512; sprintf((char *)h, "h%d", k); sprintf((char *)h + 100, "0000644"); sprintf((char *)h + 124, "%011llo", (unsigned long long)h_len[k]); sprintf((char *)h + 136, "00000000000"); h[156] = '0'; memset(h + 148, ' ', 8); for (i = 0; i < 512; i++) s += h[i]; sprintf((char *)h + 148, "%06o", s); if (pwrite(fd, h, 512, (off_t)pos) != 512) { vz_stat("no files with holes", 1); close(fd); unlink(arc); return; } pos += 512 + (h_len[k] + 511) / 512 * 512; }
    if (ftruncate(fd, (off_t)pos + 1024)) { vz_stat("no files with holes", 1); close(fd); unlink(arc); return; } close(fd);
    if (zpl_file_open(&a, arc)) VZ_BROKEN("open"); e = zpl_tar_unpack(&a, h_take, 0); VZ_CHECK(e == 0 && h_at == h_n, "huge", "returned %zd after %d of %d entries of an archive of %llu bytes", (ssize_t)e, h_at, h_n, (unsigned long long)pos); listed(&a, h_n, h_name, h_off, h_len); zpl_file_close(&a); unlink(arc); vz_stat("entries of gigabytes", (uint64_t)h_n); vz_distinct(vz_hash(h_len, sizeof *h_len * (size_t)h_n, 13));
    if (vz_pct(6)) { /* pack one */
        uint64_t s = vz_pct(50) ? (1ull << 33) + vz_u(1000) : vz_pct(70) ? (1ull << 30) - 1 + vz_u(3) : (1ull << 31) - 1 + vz_u(3); const char *pp[1]; static char n0[720]; snprintf(p, sizeof p, "%s/h", vz_dir); fd = open(p, O_RDWR | O_CREAT | O_TRUNC, 0644); if (ftruncate(fd, (off_t)s) || fstat(fd, &st) || (uint64_t)st.st_size != s) { close(fd); unlink(p); return; } close(fd);
        if (strlen(p) > 100) { if (chdir(vz_dir)) VZ_BROKEN("chdir"); strcpy(n0, "h"); } else strcpy(n0, p); pp[0] = n0; w_open(&a, 0); e = zpl_tar_pack(&a, pp, 1); zpl_file_close(&a); unlink(p);
        if (s >= 1ull << 33) VZ_CHECK(e < 0, "huge-pack", "a file of %llu bytes, more than the format can say, was packed", (unsigned long long)s);
        else { int64_t l = oct(W.head[0] + 124, 12); VZ_CHECK(e == 0 && l == (int64_t)s && W.n == 512 + (s + 511) / 512 * 512 + 1024 && !W.tail_bad, "huge-pack", "packing %llu bytes returned %zd: the header says %lld, the archive has %llu bytes", (unsigned long long)s, (ssize_t)e, (long long)l, (unsigned long long)W.n); }
        vz_stat("files of gigabytes packed", 1); }
}
VZ_MAIN({"faults", t_faults, 8}, {"huge", t_huge, 1}, {"round", t_round, 40}, {"foreign", t_foreign, 3}, {"refuse", t_refuse, 2})
