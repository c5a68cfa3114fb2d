/* files on disk against a byte-sequence model; the disk is read back with plain POSIX calls */
#include "vz.h"
#include <dirent.h>
#define CAP 200000
static unsigned char M[CAP]; static size_t ML; static int Mexists; static char path[700];
typedef struct { zpl_file f; int open, rd, wr, app; int64_t cur; } hnd;
static hnd H[2];
static int nfds(void) { DIR *d = opendir("/proc/self/fd"); int n = 0; while (readdir(d)) n++; closedir(d); return n; }
static void disk(const char *op) {
    static unsigned char b[CAP + 1]; int fd = open(path, O_RDONLY); ssize_t n;
    if (fd < 0) { VZ_CHECK(!Mexists, "exists", "after %s the file is missing", op); return; }
    VZ_CHECK(Mexists, "exists", "after %s the file exists", op);
    n = read(fd, b, sizeof b); close(fd);
    VZ_CHECK((size_t)n == ML, "size", "after %s the file has %zd bytes, expected %zu", op, n, ML);
    VZ_CHECK(!memcmp(b, M, ML), "contents", "after %s the bytes on disk differ", op);
}
static void cursor(hnd *h, const char *op) { int64_t t = zpl_file_tell(&h->f); VZ_CHECK(t == h->cur, "cursor", "after %s the cursor is %lld, expected %lld", op, (long long)t, (long long)h->cur); }
static void put(const unsigned char *b, size_t n, size_t at) { if (!n) return; if (at > ML) memset(M + ML, 0, at - ML); memcpy(M + at, b, n); if (at + n > ML) ML = at + n; }
static void t_ops(void) {
    int k, ops = (int)vz_range(5, 60), fds; size_t hb; uint64_t hh = 0; char hist[300] = ""; size_t hl = 0;
    memset(H, 0, sizeof H); ML = 0; Mexists = 0; snprintf(path, sizeof path, "%s/file", vz_dir); unlink(path);
    { zpl_file w; zpl_file_open(&w, "/nonexistent-vz"); zpl_file_create(&w, path); zpl_file_close(&w); unlink(path); }
    fds = nfds(); hb = vz_heap_bytes();
    for (k = 0; k < ops; k++) {
        hnd *h = &H[vz_pct(75) ? 0 : 1]; const char *op = "?"; int code;
        if (!h->open) {
            static const struct { zpl_file_mode m; int rd, wr, app, tr, cr; } md[] = {
                {ZPL_FILE_MODE_READ, 1, 0, 0, 0, 0}, {ZPL_FILE_MODE_WRITE, 0, 1, 0, 1, 1}, {ZPL_FILE_MODE_APPEND, 0, 1, 1, 0, 1},
                {ZPL_FILE_MODE_READ | ZPL_FILE_MODE_RW, 1, 1, 0, 0, 0}, {ZPL_FILE_MODE_WRITE | ZPL_FILE_MODE_RW, 1, 1, 0, 1, 1}, {ZPL_FILE_MODE_APPEND | ZPL_FILE_MODE_RW, 1, 1, 1, 0, 1}};
            int i = (int)vz_u(8); zpl_file_error e; int j = i > 5 ? 4 : i;
            if (i == 6) { e = zpl_file_create(&h->f, path); op = "create"; } else if (i == 7) { j = 0; e = zpl_file_open(&h->f, path); op = "open"; } else { e = zpl_file_open_mode(&h->f, md[j].m, path); op = "open_mode"; }
            if (!Mexists && !md[j].cr) { VZ_CHECK(e == ZPL_FILE_ERROR_NOT_EXISTS, "missing", "opening a missing file in mode %u gave error %d", md[j].m, e); disk(op); continue; }
            VZ_CHECK(e == ZPL_FILE_ERROR_NONE, "open", "mode %u gave error %d", md[j].m, e);
            Mexists = 1; if (md[j].tr) ML = 0; h->open = 1; h->rd = md[j].rd; h->wr = md[j].wr; h->app = md[j].app; h->cur = h->app ? (int64_t)ML : 0;
            VZ_CHECK(!strcmp(zpl_file_name(&h->f), path), "name", "'%s'", zpl_file_name(&h->f));
            cursor(h, op); disk(op); hh = hh * 31 + (uint64_t)j; continue;
        }
        code = (int)vz_u(13);
        { size_t n = vz_u(500) == 0 ? vz_near2(8, 16) : vz_pct(80) ? vz_u(200) : vz_u(5000), i; unsigned char *b = malloc(n ? n : 1); int64_t off = vz_pct(70) ? (int64_t)vz_u(ML + 1) : (int64_t)vz_u(ML + 300); zpl_isize done = -9; zpl_b32 r;
          for (i = 0; i < n; i++) b[i] = (unsigned char)vz_r();
          if ((size_t)h->cur + n > CAP - 10 || (size_t)off + n > CAP - 10 || ML + n > CAP - 10) { free(b); continue; }
          switch (code) {
            case 0: case 1: case 2: { int64_t at = code == 2 ? off : h->cur; size_t want = (size_t)at < ML ? (ML - (size_t)at < n ? ML - (size_t)at : n) : 0; unsigned char *o = malloc(n ? n : 1); memset(o, 0x5a, n);
                op = code == 2 ? "read_at" : "read";
                if (code == 2) r = vz_pct(70) ? zpl_file_read_at_check(&h->f, o, (zpl_isize)n, off, &done) : zpl_file_read_at(&h->f, o, (zpl_isize)n, off); else r = zpl_file_read(&h->f, o, (zpl_isize)n);
                if (!h->rd) VZ_CHECK(!r, "mode", "reading a file not open for reading succeeded");
                else { VZ_CHECK(r, op, "failed"); VZ_CHECK(done == -9 || (size_t)done == want, "read_at", "reported %zd bytes instead of %zu", (ssize_t)done, want);
                  VZ_CHECK(!memcmp(o, M + at, want), op, "%zu bytes at %lld differ", want, (long long)at); for (i = want; i < n; i++) VZ_CHECK(o[i] == 0x5a, op, "wrote past the bytes read"); if (code != 2) h->cur += (int64_t)want; }
                free(o); break; }
            case 3: case 4: case 5: op = "write"; r = zpl_file_write(&h->f, b, (zpl_isize)n);
                if (!h->wr) { VZ_CHECK(!r, "mode", "writing a read-only file succeeded"); break; }
                VZ_CHECK(r, "write", "failed"); put(b, n, h->app ? ML : (size_t)h->cur); h->cur += (int64_t)n;
                if (h->app) { int64_t t = zpl_file_tell(&h->f); VZ_CHECK(t == h->cur || t == (int64_t)ML, "cursor", "after an append the cursor is %lld, file of %zu", (long long)t, ML); h->cur = t; } break;
            case 6: case 7: op = "write_at"; r = vz_pct(70) ? zpl_file_write_at_check(&h->f, b, (zpl_isize)n, off, &done) : zpl_file_write_at(&h->f, b, (zpl_isize)n, off);
                if (!h->wr) { VZ_CHECK(!r, "mode", "writing a read-only file succeeded"); break; }
                VZ_CHECK(r && (done == -9 || (size_t)done == n), "write_at", "reported %zd bytes instead of %zu", (ssize_t)done, n); put(b, n, h->app ? ML : (size_t)off);
                { int64_t t = zpl_file_tell(&h->f); VZ_CHECK(t == h->cur || t == off + (int64_t)n || (h->app && t == (int64_t)ML), "cursor", "after write_at(%lld,%zu) the cursor is %lld, was %lld", (long long)off, n, (long long)t, (long long)h->cur); h->cur = t; } break;
            case 8: op = "seek"; { int64_t t = zpl_file_seek(&h->f, off); h->cur = off; VZ_CHECK(t == off, "seek", "to %lld returned %lld", (long long)off, (long long)t); } break;
            case 9: op = "seek_to_end"; { int64_t t = zpl_file_seek_to_end(&h->f); h->cur = (int64_t)ML; VZ_CHECK(t == h->cur, "seek_to_end", "returned %lld of %zu", (long long)t, ML); } break;
            case 10: op = "skip"; { int64_t s = vz_range(-h->cur, 200), t; if (vz_pct(50)) s = vz_range(h->cur > 20 ? -20 : -h->cur, 20); t = zpl_file_skip(&h->f, s); h->cur += s; VZ_CHECK(t == h->cur, "skip", "returned %lld, expected %lld", (long long)t, (long long)h->cur); } break;
            case 11: op = "truncate"; { size_t s = vz_u(ML + 100); zpl_file_error e = zpl_file_truncate(&h->f, (zpl_i64)s); if (!h->wr) { VZ_CHECK(e == ZPL_FILE_ERROR_TRUNCATION_FAILURE, "mode", "truncating a read-only file gave %d", e); break; }
                VZ_CHECK(e == ZPL_FILE_ERROR_NONE, "truncate", "gave %d", e); if (s > ML) memset(M + ML, 0, s - ML); ML = s; } break;
            default: op = "close"; VZ_CHECK(zpl_file_close(&h->f) == ZPL_FILE_ERROR_NONE, "close", "failed"); h->open = 0; break;
          }
          hh = hh * 131 + (uint64_t)code * 7 + n; free(b); }
        if (hl < 280) hl += (size_t)snprintf(hist + hl, sizeof hist - hl, "%s ", op);
        if (h->open) { cursor(h, op); VZ_CHECK(zpl_file_size(&h->f) == (zpl_i64)ML, "size", "after %s size is %lld, expected %zu", op, (long long)zpl_file_size(&h->f), ML); cursor(h, "size"); }
        disk(op);
    }
    for (k = 0; k < 2; k++) if (H[k].open) zpl_file_close(&H[k].f);
    disk("close"); VZ_CHECK(nfds() == fds, "fd-leak", "%d descriptors left open", nfds() - fds); VZ_CHECK(vz_heap_bytes() == hb, "memory-leak", "%zd bytes", (ssize_t)(vz_heap_bytes() - hb));
    vz_stat("operations", (uint64_t)ops); vz_distinct(hh); vz_sample("%s", hist);
}
static void t_whole(void) {
    size_t n = vz_pct(4) ? vz_near2(8, 17) : vz_pct(20) ? 0 : vz_pct(70) ? vz_u(300) : vz_u(30000), i; unsigned char *b = malloc(n + 1); vz_track T; zpl_allocator A; zpl_file_error e = 77; int z = vz_pct(50), fds; zpl_file_contents c; int text = vz_pct(50);
    for (i = 0; i < n; i++) b[i] = text ? (unsigned char)"\n\nab\r \t"[vz_u(7)] : (unsigned char)vz_r();
    snprintf(path, sizeof path, "%s/whole", vz_dir); if (vz_pct(50)) unlink(path); vz_track_init(&T); A = vz_track_allocator(&T); fds = nfds();
    VZ_CHECK(zpl_file_write_contents(path, b, (zpl_isize)n, &e), "write_contents", "failed");
    memcpy(M, b, n); ML = n; Mexists = 1; disk("write_contents");
    c = zpl_file_read_contents(A, (zpl_b32)z, path);
    if (n) { VZ_CHECK(c.data && (size_t)c.size == n && !memcmp(c.data, b, n), "read_contents", "%zd of %zu bytes", (ssize_t)c.size, n); if (z) VZ_CHECK(((char *)c.data)[n] == 0, "read_contents", "not terminated");
        VZ_CHECK(c.allocator.data == &T, "read_contents", "allocator"); zpl_file_free_contents(&c); }
    else { VZ_CHECK(c.size == 0, "read_contents", "empty file gave %zd bytes", (ssize_t)c.size); if (c.data) zpl_file_free_contents(&c); }
    VZ_TRACK_DONE(&T);
    c = zpl_file_read_contents(A, 1, vz_dir); VZ_CHECK(c.size == 0 && !c.data, "read_contents", "a folder gave data");
    { char miss[720]; zpl_file_error e2 = ZPL_FILE_ERROR_NONE; snprintf(miss, sizeof miss, "%s/none/x", vz_dir); c = zpl_file_read_contents(A, 1, miss); VZ_CHECK(c.size == 0 && !c.data, "read_contents", "a missing file gave data");
      VZ_CHECK(!zpl_file_write_contents(miss, b, (zpl_isize)n, &e2) && e2 != ZPL_FILE_ERROR_NONE, "write_contents", "into a missing folder succeeded"); }
    if (text) { char **lines = 0; int strip = vz_pct(50); char *buf; size_t k = 0, li = 0; b[n] = 0; buf = zpl_file_read_lines(A, &lines, path, (zpl_b32)strip);
        VZ_CHECK(buf && lines, "read_lines", "failed");
        for (i = 0; i < n;) { size_t q = i, w; while (q < n && b[q] != '\n') q++; w = q - i; if (w && b[q - 1] == '\r') w--;
            if (!(strip && !w)) { VZ_CHECK((zpl_isize)li < zpl_array_count(lines), "read_lines", "line %zu is missing", li); VZ_CHECK(strlen(lines[li]) == w && !memcmp(lines[li], b + i, w), "read_lines", "line %zu is '%s'", li, vz_show(lines[li], strlen(lines[li]))); li++; } i = q + 1; k++; }
        VZ_CHECK((zpl_isize)li == zpl_array_count(lines), "read_lines", "%zd lines instead of %zu", (ssize_t)zpl_array_count(lines), li);
        zpl_array_free(lines); zpl_free(A, buf); }
    VZ_TRACK_DONE(&T); VZ_CHECK(nfds() == fds, "fd-leak", "%d descriptors left open", nfds() - fds);
    vz_distinct(vz_hash(b, n, 0)); free(b);
}
static void t_temp(void) {
    zpl_file f[4]; int n = (int)vz_range(1, 4), i, fds; size_t hb; unsigned char b[4][100], o[100]; size_t len[4];
    { zpl_file w; zpl_file_temp(&w); zpl_file_close(&w); } fds = nfds(); hb = vz_heap_bytes();
    for (i = 0; i < n; i++) { size_t j; VZ_CHECK(zpl_file_temp(&f[i]) == ZPL_FILE_ERROR_NONE, "temp", "failed"); len[i] = vz_u(100); for (j = 0; j < len[i]; j++) b[i][j] = (unsigned char)vz_r(); VZ_CHECK(zpl_file_write(&f[i], b[i], (zpl_isize)len[i]), "temp", "write failed"); }
    for (i = 0; i < n; i++) { zpl_isize d = -1; VZ_CHECK(zpl_file_size(&f[i]) == (zpl_i64)len[i] && zpl_file_read_at_check(&f[i], o, 100, 0, &d) && (size_t)d == len[i] && !memcmp(o, b[i], len[i]), "temp", "file %d of %d lost its bytes", i, n); VZ_CHECK(!zpl_file_has_changed(&f[i]), "temp", "changed"); VZ_CHECK(zpl_file_close(&f[i]) == ZPL_FILE_ERROR_NONE, "temp", "close"); }
    VZ_CHECK(nfds() == fds, "fd-leak", "%d descriptors left open", nfds() - fds); VZ_CHECK(vz_heap_bytes() == hb, "memory-leak", "%zd bytes after %d temporary files", (ssize_t)(vz_heap_bytes() - hb), n);
    vz_distinct(vz_r());
}
/* refusals of the system: permissions (as another user), overlong names, folders */
static void t_refused(void) {
    static const zpl_file_mode md[] = {ZPL_FILE_MODE_READ, ZPL_FILE_MODE_WRITE, ZPL_FILE_MODE_APPEND, ZPL_FILE_MODE_READ | ZPL_FILE_MODE_RW, ZPL_FILE_MODE_WRITE | ZPL_FILE_MODE_RW, ZPL_FILE_MODE_APPEND | ZPL_FILE_MODE_RW};
    int k, n = (int)vz_range(3, 20), fds = nfds(), was; size_t hb; char d[700], nm[700]; zpl_file f; uint64_t hs = 9;
    snprintf(d, sizeof d, "%s/refused", vz_dir); mkdir(d, 0755); was = open(".", O_RDONLY | O_DIRECTORY); if (was < 0 || chdir(d)) VZ_BROKEN("chdir");
    hb = vz_heap_bytes();
    for (k = 0; k < n; k++) {
        int m = (int)vz_u(6), what = (int)vz_u(4); zpl_file_error e, w; int fd; struct stat st;
        if (what == 0) { size_t l = 256 + vz_u(300); memset(nm, 'n', l); nm[l] = 0; w = ZPL_FILE_ERROR_NAME_TOO_LONG; e = zpl_file_open_mode(&f, md[m], nm); }
        else if (what == 1) { mkdir("folder", 0755); if (m == 0) m = 1; w = ZPL_FILE_ERROR_INVALID; e = zpl_file_open_mode(&f, md[m], "folder"); VZ_CHECK(e != ZPL_FILE_ERROR_NONE, "refused", "a folder was opened for writing in mode %u", md[m]); rmdir("folder"); continue; }
        else {
            int perm = what == 2 ? (int)vz_u(8) : -1; w = ZPL_FILE_ERROR_NONE;
            snprintf(nm, sizeof nm, "p%d", k); unlink(nm);
            if (what == 2) { fd = open(nm, O_WRONLY | O_CREAT, 0600); if (write(fd, "abc", 3) != 3) VZ_BROKEN("write"); close(fd); chmod(nm, (mode_t)(perm | perm << 3)); }
            { int needr = m == 0 || m >= 3, needw = m != 0; if (what == 2 && ((needr && !(perm & 4)) || (needw && !(perm & 2)))) w = ZPL_FILE_ERROR_PERMISSION; if (what == 3) w = m == 0 || m == 3 ? ZPL_FILE_ERROR_NOT_EXISTS : ZPL_FILE_ERROR_PERMISSION; }
            if (geteuid() || seteuid(65534)) { unlink(nm); vz_stat("no other user", 1); continue; }
            e = zpl_file_open_mode(&f, md[m], nm); if (seteuid(0)) VZ_BROKEN("seteuid");
            VZ_CHECK(e == w, "refused", "opening a file with permissions %d (-1: none there) in mode %u gave error %d, expected %d", perm, md[m], e, w);
            if (e == ZPL_FILE_ERROR_NONE) VZ_CHECK(zpl_file_close(&f) == ZPL_FILE_ERROR_NONE, "close", "failed");
            else if (what == 2) VZ_CHECK(!stat(nm, &st) && st.st_size == 3, "refused", "a refused open changed the file"); else VZ_CHECK(stat(nm, &st), "refused", "a refused open made the file");
            unlink(nm); vz_stat(w ? "permission refusals" : "permitted", 1); hs = hs * 31 + (uint64_t)(m * 10 + perm + 1); continue;
        }
        VZ_CHECK(e == w, "refused", "a name of %zu bytes in mode %u gave error %d", strlen(nm), md[m], e); vz_stat("overlong names", 1); hs = hs * 31 + strlen(nm);
    }
    if (fchdir(was)) VZ_BROKEN("fchdir"); close(was);
    VZ_CHECK(nfds() == fds, "fd-leak", "%d descriptors left open", nfds() - fds); VZ_CHECK(vz_heap_bytes() == hb, "memory-leak", "%zd bytes after refused opens", (ssize_t)(vz_heap_bytes() - hb)); vz_distinct(hs);
}
VZ_MAIN({"refusals", t_refused, 2}, {"operations", t_ops, 10}, {"whole", t_whole, 5}, {"temporary", t_temp, 2})
