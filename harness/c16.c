/* paths and filesystem operations: a model tree, compared with a walk of the scratch directory (POSIX calls) after each operation */
#include "vz.h"
#include <dirent.h>
#include <sys/socket.h>
#include <sys/un.h>
#define MAXN 60
typedef struct { char p[200]; char t; unsigned char *b; size_t n; } node; /* t: d f l s */
static node T[MAXN]; static int N; static char root[600];
static int nfds(void) { DIR *d = opendir("/proc/self/fd"); int n = 0; while (readdir(d)) n++; closedir(d); return n; }
static char *full(const char *rel) { static char b[8][900]; static int k; char *o = b[k = (k + 1) & 7]; snprintf(o, 900, "%s/%s", root, rel); return o; }
static int find(const char *p) { int i; for (i = 0; i < N; i++) if (!strcmp(T[i].p, p)) return i; return -1; }
static int parent_ok(const char *p) { char b[200]; char *s; int i; strcpy(b, p); s = strrchr(b, '/'); if (!s) return 1; *s = 0; i = find(b); return i >= 0 && T[i].t == 'd'; }
static int has_children(const char *p) { int i; size_t n = strlen(p); for (i = 0; i < N; i++) if (!strncmp(T[i].p, p, n) && T[i].p[n] == '/') return 1; return 0; }
static void addn(const char *p, char t, const void *b, size_t n) { node *x; if (N >= MAXN) VZ_BROKEN("tree"); x = &T[N++]; strcpy(x->p, p); x->t = t; x->n = n; x->b = malloc(n + 1); if (n) memcpy(x->b, b, n); }
static void deln(int i) { free(T[i].b); T[i] = T[--N]; }
static void wipe(const char *d) { DIR *h = opendir(d); struct dirent *e; char b[900]; if (!h) return; while ((e = readdir(h))) { struct stat s; if (!strcmp(e->d_name, ".") || !strcmp(e->d_name, "..")) continue; snprintf(b, sizeof b, "%s/%s", d, e->d_name); if (!lstat(b, &s) && S_ISDIR(s.st_mode)) { wipe(b); rmdir(b); } else unlink(b); } closedir(h); }
static int seen;
static void walk(const char *rel, const char *op) {
    char b[1200]; DIR *h; struct dirent *e; snprintf(b, sizeof b, "%s%s%s", root, *rel ? "/" : "", rel); h = opendir(b); if (!h) VZ_BROKEN("opendir %s", b);
    while ((e = readdir(h))) { char r[300]; struct stat s; int i; char t;
        if (!strcmp(e->d_name, ".") || !strcmp(e->d_name, "..")) continue;
        snprintf(r, sizeof r, "%s%s%s", rel, *rel ? "/" : "", e->d_name); snprintf(b, sizeof b, "%s/%s", root, r);
        lstat(b, &s); t = S_ISDIR(s.st_mode) ? 'd' : S_ISLNK(s.st_mode) ? 'l' : S_ISREG(s.st_mode) ? 'f' : 's'; i = find(r);
        if (i < 0 || T[i].t != t) { closedir(h); VZ_FAIL("effect", "after %s: unexpected '%s' (%c)", op, r, t); }
        seen++;
        if (t == 'f') { int fd = open(b, O_RDONLY); unsigned char *q = malloc(T[i].n + 2); ssize_t n = read(fd, q, T[i].n + 1); int bad = n != (ssize_t)T[i].n || memcmp(q, T[i].b, T[i].n); close(fd); free(q);
            if (bad) { closedir(h); VZ_FAIL("effect", "after %s: file '%s' has %zd bytes, expected %zu, or other contents", op, r, n, T[i].n); } }
        if (t == 'l') { char q[300]; ssize_t n = readlink(b, q, sizeof q); if (n != (ssize_t)T[i].n || memcmp(q, T[i].b, T[i].n)) { closedir(h); VZ_FAIL("effect", "after %s: link '%s' changed", op, r); } }
        if (t == 'd') walk(r, op); }
    closedir(h);
}
static void same(const char *op) { seen = 0; walk("", op); VZ_CHECK(seen == N, "effect", "after %s: %d entries found, %d expected", op, seen, N); }
static const char *comp[] = {"a", "b", "cc", "..x", "...", ".h", "c d", "f.tar.gz", "x.", "\xc3\xa9.txt", "-n", "%s%n", "dir", "A"};
static void anypath(char *o) { int d = 1 + (int)(vz_u(4) * vz_u(2) + vz_u(2)), i; o[0] = 0; if (d > 4) d = 4;
    if (N && vz_pct(60)) { strcpy(o, T[vz_u((uint64_t)N)].p); if (vz_pct(45) && strlen(o) < 60) { strcat(o, "/"); strcat(o, comp[vz_u(14)]); } return; }
    for (i = 0; i < d; i++) { if (i) strcat(o, "/"); strcat(o, comp[vz_u(14)]); } }
static int anyof(char t) { int k, i = N ? (int)vz_u((uint64_t)N) : 0; for (k = 0; k < N; k++, i = (i + 1) % N) if (T[i].t == t) return i; return -1; }
static void mkfile(const char *p) { size_t n = vz_pct(70) ? vz_u(300) : vz_u(30000), i; unsigned char *b = malloc(n + 1); int fd; for (i = 0; i < n; i++) b[i] = (unsigned char)vz_r(); fd = open(full(p), O_CREAT | O_WRONLY | O_TRUNC, 0644); if (fd < 0 || write(fd, b, n) != (ssize_t)n) VZ_BROKEN("mkfile %s", p); close(fd); addn(p, 'f', b, n); free(b); }
static void start(void) { int i; while (N) deln(N - 1); snprintf(root, sizeof root, "%s/r", vz_dir); wipe(root); mkdir(root, 0755);
    { int m = (int)vz_u(12); char p[200]; for (i = 0; i < m; i++) { anypath(p); if (find(p) >= 0 || !parent_ok(p)) continue;
        switch (vz_u(8)) { case 0: case 1: case 2: mkdir(full(p), 0755); addn(p, 'd', 0, 0); break;
          case 3: { const char *t = vz_pct(50) ? "nowhere" : vz_pct(50) ? "." : "a"; if (!symlink(t, full(p))) addn(p, 'l', t, strlen(t)); break; }
          case 4: { int s; struct sockaddr_un u; memset(&u, 0, sizeof u); u.sun_family = AF_UNIX; if (mkfifo(full(p), 0644) == 0) addn(p, 's', 0, 0); (void)s; break; }
          default: mkfile(p); } } } }
/* does any prefix of p pass through a symlink or special?  such paths are left out */
static int plain_prefix(const char *p) { char b[200]; char *s; strcpy(b, p); while ((s = strrchr(b, '/'))) { int i; *s = 0; i = find(b); if (i >= 0 && T[i].t != 'd' && T[i].t != 'f') return 0; } return 1; }
static char desc[500];
static void listcheck(const char *dir, int recurse) { /* dir: relative, "" for the root */
    char base[900], *want[MAXN]; int nw = 0, i, got = 0; vz_track tr; zpl_string s; char *q; size_t dn; char used[MAXN] = {0};
    vz_track_init(&tr); snprintf(base, sizeof base, "%s%s%s", root, *dir ? "/" : "", dir); dn = strlen(dir);
    for (i = 0; i < N; i++) { const char *r = T[i].p; if (dn) { if (strncmp(r, dir, dn) || r[dn] != '/') continue; r += dn + 1; } if (!recurse && strchr(r, '/')) continue; want[nw] = strdup(r); nw++; }
    s = zpl_path_dirlist(vz_track_allocator(&tr), base, recurse);
    for (q = s; *q; ) { char *e = strchr(q, '\n'), one[1500]; size_t bl = strlen(base); VZ_CHECK(e, "list", "a line without newline"); memcpy(one, q, (size_t)(e - q)); one[e - q] = 0; q = e + 1;
        VZ_CHECK(!strncmp(one, base, bl) && one[bl] == '/', "list", "'%s' is not under the listed directory", one);
        for (i = 0; i < nw; i++) if (!used[i] && !strcmp(want[i], one + bl + 1)) break;
        VZ_CHECK(i < nw, "list", "'%s' listed but not there (or twice)", one + bl + 1); used[i] = 1; got++; }
    VZ_CHECK(got == nw, "list", "%d entries listed of %d (recursive=%d)", got, nw, recurse);
    VZ_CHECK((size_t)zpl_string_length(s) == strlen(s), "list", "length"); zpl_string_free(s); for (i = 0; i < nw; i++) free(want[i]);
    VZ_TRACK_DONE(&tr); vz_stat("listed entries", (uint64_t)nw);
}
static void infocheck(const zpl_dir_info *d, const char *dir, const char *name) { int i, n = 0; size_t dn = strlen(dir); int cnt = (int)zpl_array_count(d->entries);
    VZ_CHECK(!strcmp(d->fullpath, name), "dirinfo", "fullpath '%s' expected '%s'", d->fullpath, name);
    for (i = 0; i < N; i++) { const char *r = T[i].p; int k, hit = 0; char w[1500]; if (dn) { if (strncmp(r, dir, dn) || r[dn] != '/') continue; r += dn + 1; } if (strchr(r, '/')) continue; n++; snprintf(w, sizeof w, "%s/%s", name, r);
        for (k = 0; k < cnt; k++) if (!strcmp(d->entries[k].filename, w)) { struct stat s; int t; hit++; t = stat(w, &s) ? ZPL_DIR_TYPE_UNKNOWN : S_ISDIR(s.st_mode) ? ZPL_DIR_TYPE_FOLDER : ZPL_DIR_TYPE_FILE; VZ_CHECK(d->entries[k].type == t, "dirinfo", "'%s' has type %d", w, d->entries[k].type); VZ_CHECK(!d->entries[k].dir_info, "dirinfo", "expanded early"); }
        VZ_CHECK(hit == 1, "dirinfo", "'%s' appears %d times", r, hit); }
    VZ_CHECK(n == cnt, "dirinfo", "%d entries, expected %d", cnt, n);
}
static void op(void) {
    char p[300], q[300]; int i, j, r; uint64_t code = vz_u(17);
    anypath(p); anypath(q); if (!plain_prefix(p) || !plain_prefix(q)) return; i = find(p); j = find(q);
    if (N > MAXN - 8 && code < 5) return;
    snprintf(desc, sizeof desc, "#%d", (int)code);
    switch (code) {
        case 0: case 1: { zpl_file_error e; snprintf(desc, sizeof desc, "mkdir(%s)", p); e = zpl_path_mkdir(full(p), 0755);
            if (i >= 0) VZ_CHECK(e == ZPL_FILE_ERROR_EXISTS, "mkdir", "existing path '%s' gave %d", p, e); else if (!parent_ok(p)) VZ_CHECK(e != ZPL_FILE_ERROR_NONE, "mkdir", "'%s' without a parent succeeded", p); else { VZ_CHECK(e == ZPL_FILE_ERROR_NONE, "mkdir", "'%s' gave %d", p, e); addn(p, 'd', 0, 0); } break; }
        case 2: case 3: { char b[300], *s; int blocked = 0; zpl_isize e; snprintf(desc, sizeof desc, "mkdir_recursive(%s)", p); strcpy(b, p);
            for (s = b; ; s++) { char c; if (*s && *s != '/') continue; c = *s; *s = 0; { int k = find(b); if (k >= 0 && T[k].t != 'd') { blocked = 1; break; } } *s = c; if (!c) break; }
            if (i >= 0 && T[i].t != 'd') { if (T[i].t == 'l') return; }
            e = zpl_path_mkdir_recursive(full(p), 0755);
            if (blocked) { VZ_CHECK(e == -1, "mkdir_recursive", "'%s' passes through a file but succeeded", p); }
            else VZ_CHECK(e == 0, "mkdir_recursive", "'%s' failed", p);
            strcpy(b, p); for (s = b; ; s++) { char c; if (*s && *s != '/') continue; c = *s; *s = 0; { int k = find(b); if (k >= 0 && T[k].t != 'd') break; if (k < 0) addn(b, 'd', 0, 0); } *s = c; if (!c) break; }
            break; }
        case 4: if (i < 0 && parent_ok(p)) { mkfile(p); } snprintf(desc, sizeof desc, "create(%s)", p); break;
        case 5: { zpl_file_error e; snprintf(desc, sizeof desc, "rmdir(%s)", p); e = zpl_path_rmdir(full(p));
            if (i < 0) { if (parent_ok(p)) VZ_CHECK(e == ZPL_FILE_ERROR_NOT_EXISTS, "rmdir", "missing '%s' gave %d", p, e); else VZ_CHECK(e != ZPL_FILE_ERROR_NONE, "rmdir", "missing '%s'", p); }
            else if (T[i].t != 'd') VZ_CHECK(e != ZPL_FILE_ERROR_NONE, "rmdir", "'%s' is not a directory but was removed", p);
            else if (has_children(p)) VZ_CHECK(e == ZPL_FILE_ERROR_NOT_EMPTY, "rmdir", "'%s' is not empty, gave %d", p, e);
            else { VZ_CHECK(e == ZPL_FILE_ERROR_NONE, "rmdir", "'%s' gave %d", p, e); deln(i); } break; }
        case 6: snprintf(desc, sizeof desc, "remove(%s)", p); r = zpl_fs_remove(full(p)); if (i < 0 || (T[i].t == 'd' && has_children(p))) VZ_CHECK(!r, "remove", "'%s' reported success", p); else if (T[i].t != 'd') { VZ_CHECK(r, "remove", "'%s' failed", p); deln(i); } else { struct stat s; if (r) { deln(i); } else VZ_CHECK(!stat(full(p), &s), "remove", "gone but reported failure"); } break;
        case 7: case 8: case 9: { int fx = vz_pct(40), ok; if (vz_pct(60) && anyof('f') >= 0) { i = anyof('f'); strcpy(p, T[i].p); } if (vz_pct(30) && anyof('f') >= 0) { j = anyof('f'); strcpy(q, T[j].p); } if (vz_pct(4)) { strcpy(q, p); j = i; }
            if ((i >= 0 && T[i].t != 'f' && T[i].t != 'd') || (j >= 0 && T[j].t != 'f' && T[j].t != 'd')) return;
            snprintf(desc, sizeof desc, "copy(%s,%s,%d)", p, q, fx); ok = i >= 0 && T[i].t == 'f' && (j >= 0 ? T[j].t == 'f' && !fx : parent_ok(q));
            if (i == j && i >= 0 && T[i].t == 'f' && !fx) ok = 2;
            r = zpl_fs_copy(full(p), full(q), fx); if (ok == 2) break; VZ_CHECK(!!r == ok, "copy", "'%s' onto '%s' (fail_if_exists=%d) returned %d", p, q, fx, r);
            if (ok) { unsigned char *b = malloc(T[i].n + 1); size_t n = T[i].n; memcpy(b, T[i].b, n); if (j >= 0) deln(j); addn(q, 'f', b, n); free(b); vz_stat("copies", 1); } break; }
        case 10: case 11: { int ok; if (vz_pct(60) && anyof('f') >= 0) { i = anyof('f'); strcpy(p, T[i].p); } if (i >= 0 && T[i].t != 'f' ) return; if (i == j) return;
            ok = i >= 0 && j < 0 && parent_ok(q); snprintf(desc, sizeof desc, "move(%s,%s)", p, q); if (j >= 0 && i >= 0) { unsigned char *b; size_t n; char t; /* the destination exists: refused, or replaced as a whole */
                r = zpl_fs_move(full(p), full(q)); if (!r) break; if (T[j].t != 'f') VZ_FAIL("move", "'%s' replaced '%s', which is no file", p, q); n = T[i].n; b = malloc(n + 1); memcpy(b, T[i].b, n); t = T[i].t; if (i > j) { deln(i); deln(j); } else { deln(j); deln(i); } addn(q, t, b, n); free(b); break; }
            r = zpl_fs_move(full(p), full(q)); VZ_CHECK(!!r == ok, "move", "'%s' to '%s' returned %d", p, q, r);
            if (ok) { strcpy(T[i].p, q); vz_stat("moves", 1); } break; }
        case 12: { struct stat s; int t; const char *f; r = stat(f = full(p), &s); VZ_CHECK(!!zpl_fs_exists(f) == !r, "exists", "'%s'", p); t = r ? ZPL_DIR_TYPE_UNKNOWN : S_ISDIR(s.st_mode) ? ZPL_DIR_TYPE_FOLDER : ZPL_DIR_TYPE_FILE; VZ_CHECK(zpl_fs_get_type(f) == t, "type", "'%s' is %d not %d", p, zpl_fs_get_type(f), t);
            if (!r) { VZ_CHECK((int64_t)zpl_fs_last_write_time(f) == (int64_t)s.st_mtime, "mtime", "'%s'", p); } else VZ_CHECK(zpl_fs_last_write_time(f) == 0, "mtime", "missing file"); snprintf(desc, sizeof desc, "query(%s)", p); break; }
        case 13: { zpl_file f; struct timespec ts[2]; struct stat s; i = anyof('f'); if (i < 0) return; memset(&f, 0, sizeof f); snprintf(desc, sizeof desc, "has_changed(%s)", T[i].p); if (zpl_file_open(&f, full(T[i].p))) VZ_FAIL("open", "'%s'", T[i].p);
            zpl_file_has_changed(&f); VZ_CHECK(!zpl_file_has_changed(&f), "has_changed", "unchanged file"); memset(ts, 0, sizeof ts); stat(full(T[i].p), &s); ts[0].tv_sec = ts[1].tv_sec = (time_t)(1000 + vz_u(1u << 30)); if (ts[1].tv_sec == s.st_mtime) ts[1].tv_sec++; utimensat(AT_FDCWD, full(T[i].p), ts, 0);
            VZ_CHECK(zpl_file_has_changed(&f), "has_changed", "a new write time went unnoticed"); VZ_CHECK(!zpl_file_has_changed(&f), "has_changed", "reported twice");
            if (vz_pct(60)) { char d[300], *s2; zpl_file_dirinfo_refresh(&f); if (vz_pct(50)) zpl_file_dirinfo_refresh(&f); strcpy(d, T[i].p); s2 = strrchr(d, '/'); if (s2) *s2 = 0; else d[0] = 0; VZ_CHECK(f.dir && f.dir->dir_info, "refresh", "no directory"); { char nm[900]; snprintf(nm, sizeof nm, "%s%s%s", root, *d ? "/" : "", d); infocheck(f.dir->dir_info, d, nm); } }
            zpl_file_close(&f); break; }
        case 14: { int rec = vz_pct(60); i = vz_pct(40) ? anyof('d') : -1; snprintf(desc, sizeof desc, "dirlist(%s,%d)", i < 0 ? "" : T[i].p, rec); listcheck(i < 0 ? "" : T[i].p, rec); break; }
        case 15: { zpl_dir_info d; const char *rel; char nm[900]; size_t k; i = vz_pct(40) ? anyof('d') : -1; rel = i < 0 ? "" : T[i].p; snprintf(desc, sizeof desc, "dirinfo(%s)", rel); snprintf(nm, sizeof nm, "%s%s%s", root, *rel ? "/" : "", rel); zpl_dirinfo_init(&d, nm); infocheck(&d, rel, nm);
            for (k = 0; k < (size_t)zpl_array_count(d.entries); k++) { const char *er = d.entries[k].filename + strlen(root) + 1; zpl_dir_entry *e = &d.entries[k]; int x = find(er); if (x < 0 || T[x].t == 'l' || T[x].t == 's' || vz_pct(40)) continue; zpl_dirinfo_step(e); if (vz_pct(20)) zpl_dirinfo_step(e); VZ_CHECK(e->dir_info, "step", "nothing"); if (T[x].t == 'd') infocheck(e->dir_info, er, e->filename); else infocheck(e->dir_info, rel, nm); }
            zpl_dirinfo_free(&d); break; }
        default: { vz_track tr; char *g, *w, in[1400]; vz_track_init(&tr); if (vz_pct(50)) strcpy(in, full(p)); else snprintf(in, sizeof in, "%s/./%s/../%s", root, i >= 0 && T[i].t == 'd' ? p : ".", i >= 0 && T[i].t == 'd' ? "" : p); snprintf(desc, sizeof desc, "full_name(%s)", in); w = realpath(in, 0); g = zpl_path_get_full_name(vz_track_allocator(&tr), in);
            VZ_CHECK(g && !strcmp(g, w ? w : in), "full_name", "'%s' became '%s', expected '%s'", in, g ? g : "(null)", w ? w : in); zpl_free(vz_track_allocator(&tr), g); free(w); VZ_TRACK_DONE(&tr); break; }
    }
}
static void t_tree(void) {
    int k, ops = (int)vz_range(3, 40), fds = nfds(); uint64_t hh = 7;
    start(); same("setup");
    for (k = 0; k < ops; k++) { size_t h0 = vz_heap_bytes(), m0 = 0, m1 = 0; int i; for (i = 0; i < N; i++) m0 += T[i].n + 1; desc[0] = 0; op(); for (i = 0; i < N; i++) m1 += T[i].n + 1;
        if (desc[0]) { same(desc); hh = vz_hash(desc, strlen(desc), hh); vz_stat("operations", 1); }
        VZ_CHECK(nfds() == fds, "fd-leak", "%s left %d descriptors open", desc, nfds() - fds);
        (void)m0; (void)m1; VZ_CHECK(vz_heap_bytes() == 0 || vz_heap_bytes() - h0 == m1 - m0, "leak", "%s leaked %lld bytes", desc, (long long)(vz_heap_bytes() - h0) - (long long)(m1 - m0)); }
    vz_distinct(hh); vz_sample("%d operations, last %s, %d entries left", k, desc, N); wipe(root); while (N) deln(N - 1);
}
static void t_path(void) {
    static const char al[] = "/../a.b/.\\-"; int n = (int)vz_u(vz_pct(80) ? 12 : 200), k; char raw[260], *p; const char *b, *wb, *x, *wx;
    for (k = 0; k < n; k++) raw[k] = vz_pct(80) ? al[vz_u(sizeof al - 1)] : (char)vz_range(1, 255); raw[n] = 0;
    if (vz_pct(10)) strcpy(raw, vz_pct(50) ? "/" : vz_pct(50) ? "" : "//"); n = (int)strlen(raw);
    p = vz_dup(raw, (size_t)n + 1);
    wb = strrchr(p, '/'); wb = wb ? wb + 1 : p; wx = strrchr(wb, '.'); wx = wx ? wx + 1 : 0;
    b = zpl_path_base_name(p); VZ_CHECK(b == wb, "base_name", "'%s' gave '%s'", vz_show(raw, (size_t)n), b ? vz_show(b, strlen(b)) : "(null)");
    x = zpl_path_extension(p); VZ_CHECK(x == wx, "extension", "'%s' gave '%s'", vz_show(raw, (size_t)n), x ? vz_show(x, strlen(x)) : "(null)");
    VZ_CHECK(!!zpl_path_is_absolute(p) == (raw[0] == '/'), "is_absolute", "'%s'", raw); VZ_CHECK(!!zpl_path_is_relative(p) == (raw[0] != '/'), "is_relative", "'%s'", raw); VZ_CHECK(!!zpl_path_is_root(p) == !strcmp(raw, "/"), "is_root", "'%s'", raw);
    VZ_CHECK(!memcmp(p, raw, (size_t)n + 1), "changed", "the path text was changed"); vz_distinct(vz_hash(raw, (size_t)n, 1)); vz_undup(p);
}
static void t_special(void) { /* sockets, devices, relative names */
    char cwd[700], p[900]; zpl_dir_entry e; int fd; struct sockaddr_un u; static int done;
    if (!getcwd(cwd, sizeof cwd)) return; start(); if (chdir(root)) VZ_BROKEN("chdir");
    memset(&u, 0, sizeof u); u.sun_family = AF_UNIX; strcpy(u.sun_path, "sockfile"); fd = socket(AF_UNIX, SOCK_STREAM, 0); if (find("sockfile") < 0 && !bind(fd, (void *)&u, sizeof u)) { addn("sockfile", 's', 0, 0); VZ_CHECK(zpl_fs_get_type("sockfile") == ZPL_DIR_TYPE_FILE, "type", "a socket is reported as type %d", zpl_fs_get_type("sockfile")); } close(fd);
    VZ_CHECK(zpl_fs_get_type("/dev/null") == ZPL_DIR_TYPE_FILE, "type", "a device"); VZ_CHECK(zpl_fs_get_type(".") == ZPL_DIR_TYPE_FOLDER && zpl_fs_get_type("/") == ZPL_DIR_TYPE_FOLDER, "type", "a folder");
    if (find("plain") < 0) mkfile("plain"); memset(&e, 0, sizeof e); strcpy(p, "plain"); e.filename = p; e.type = ZPL_DIR_TYPE_FILE; zpl_dirinfo_step(&e); infocheck(e.dir_info, "", "."); zpl_dirinfo_free(e.dir_info); zpl_mfree(e.dir_info);
    { zpl_string s; vz_track tr; vz_track_init(&tr); s = zpl_path_dirlist(vz_track_allocator(&tr), full("no such directory"), true); VZ_CHECK(zpl_string_length(s) == 0, "list", "a missing directory has entries"); zpl_string_free(s); VZ_TRACK_DONE(&tr); }
    same("queries"); if (chdir(cwd)) VZ_BROKEN("chdir"); (void)done; wipe(root); while (N) deln(N - 1);
}
static void t_refused(void) { /* refusals of the system: permissions (as another user) and overlong names */
    char cwd[700], nm[700]; int k, n = (int)vz_range(2, 10), fds = nfds(); uint64_t hs = 5;
    if (!getcwd(cwd, sizeof cwd)) return; start(); if (chdir(root)) VZ_BROKEN("chdir"); mkdir("shut", 0755); mkdir("shut/in", 0755); { FILE *f = fopen("shut/file", "w"); fputs("abc", f); fclose(f); f = fopen("secret", "w"); fputs("abc", f); fclose(f); chmod("secret", 0600); }
    for (k = 0; k < n; k++) {
        int what = (int)vz_u(8); zpl_file_error e = ZPL_FILE_ERROR_NONE; int r = -1; struct stat s;
        if (what < 2) { size_t l = 256 + vz_u(300); memset(nm, 'n', l); nm[l] = 0; e = what ? zpl_path_rmdir(nm) : zpl_path_mkdir(nm, 0755); VZ_CHECK(e == ZPL_FILE_ERROR_NAME_TOO_LONG, what ? "rmdir" : "mkdir", "a name of %zu bytes gave %d", l, e); VZ_CHECK(zpl_path_mkdir_recursive(nm, 0755) == -1 && !zpl_fs_exists(nm) && !zpl_fs_remove(nm), "overlong", "a name of %zu bytes was taken", l); vz_stat("overlong names", 1); continue; }
        if (geteuid() || seteuid(65534)) { vz_stat("no other user", 1); continue; }
        switch (what) { case 2: e = zpl_path_mkdir("shut/new", 0755); break; case 3: e = zpl_path_rmdir("shut/in"); break; case 4: r = !!zpl_fs_remove("shut/file"); break; case 5: r = !!zpl_fs_move("shut/file", "shut/other"); break; case 6: r = !!zpl_fs_copy("shut/file", "shut/copy", 0); break; default: r = !!zpl_fs_copy("secret", "shut/copy", 0) || zpl_path_mkdir_recursive("shut/a/b", 0755) == 0; break; }
        if (seteuid(0)) VZ_BROKEN("seteuid");
        VZ_CHECK(what > 3 ? r == 0 : e == ZPL_FILE_ERROR_PERMISSION, "refused", "step %d in a folder of somebody else gave %d", what, what > 3 ? r : (int)e); VZ_CHECK(!stat("shut/in", &s) && !stat("shut/file", &s) && s.st_size == 3 && stat("shut/new", &s) && stat("shut/other", &s) && stat("shut/copy", &s) && stat("shut/a", &s), "refused", "step %d was refused and took effect", what); vz_stat("permission refusals", 1); hs = hs * 31 + (uint64_t)what;
    }
    unlink("secret"); unlink("shut/file"); rmdir("shut/in"); rmdir("shut"); if (chdir(cwd)) VZ_BROKEN("chdir"); VZ_CHECK(nfds() == fds, "fd-leak", "refusals left %d descriptors open", nfds() - fds); vz_distinct(hs); wipe(root); while (N) deln(N - 1);
}
VZ_MAIN({"refusals", t_refused, 2}, {"tree", t_tree, 10}, {"path", t_path, 60}, {"special", t_special, 1})
