/* hostile archives.  Every call that could create, change or remove a file is
 * replaced (ld --wrap) by a stand-in that resolves the path; one outside the
 * destination is recorded and never performed. */
#include "vz.h"
#include <dirent.h>
#include <sys/syscall.h>
static char dest[600]; static int armed; static char escaped[900]; static const char *how; static uint64_t ninside;
static void norm(const char *p, char *o, size_t cap) { char t[9000]; char *s, *save = 0; size_t n = 0; if (p[0] == '/') snprintf(t, sizeof t, "%s", p); else { char c[700]; if (!getcwd(c, sizeof c)) c[0] = 0; snprintf(t, sizeof t, "%s/%s", c, p); }
    o[0] = 0; for (s = strtok_r(t, "/", &save); s; s = strtok_r(0, "/", &save)) { if (!strcmp(s, ".")) continue; if (!strcmp(s, "..")) { while (n && o[n - 1] != '/') n--; if (n) n--; o[n] = 0; continue; } n += (size_t)snprintf(o + n, cap - n, "/%s", s); if (n >= cap) { n = cap - 1; break; } } if (!n) strcpy(o, "/"); }
static int outside(const char *p, const char *what) { char o[9000]; size_t n = strlen(dest); if (!armed) return 0; norm(p, o, sizeof o); if (!strncmp(o, dest, n) && (o[n] == '/' || o[n] == 0)) { ninside++; return 0; }
    { struct stat st; /* making a directory that is there already (an ancestor of the destination) touches nothing */ if (!strcmp(what, "mkdir") && !stat(o, &st) && !strncmp(dest, o, strlen(o))) { errno = EEXIST; return 1; } }
    if (!escaped[0]) { snprintf(escaped, sizeof escaped, "%s", p); how = what; } errno = EACCES; return 1; }
int __real_open(const char *, int, ...); int __real_openat(int, const char *, int, ...); int __real_mkdir(const char *, mode_t); FILE *__real_fopen(const char *, const char *);
int __wrap_open(const char *p, int f, ...) { va_list v; mode_t m; va_start(v, f); m = va_arg(v, mode_t); va_end(v); if ((f & (O_WRONLY | O_RDWR | O_CREAT | O_TRUNC)) && outside(p, "open")) return -1; return __real_open(p, f, m); }
int __wrap_open64(const char *p, int f, ...) { va_list v; mode_t m; va_start(v, f); m = va_arg(v, mode_t); va_end(v); if ((f & (O_WRONLY | O_RDWR | O_CREAT | O_TRUNC)) && outside(p, "open")) return -1; return __real_open(p, f, m); }
int __wrap_openat(int d, const char *p, int f, ...) { va_list v; mode_t m; va_start(v, f); m = va_arg(v, mode_t); va_end(v); if (armed && (f & (O_WRONLY | O_RDWR | O_CREAT | O_TRUNC)) && (d != AT_FDCWD || outside(p, "open"))) return -1; return __real_openat(d, p, f, m); }
int __wrap_creat(const char *p, mode_t m) { if (outside(p, "creat")) return -1; return __real_open(p, O_CREAT | O_WRONLY | O_TRUNC, m); }
int __wrap_mkdir(const char *p, mode_t m) { if (outside(p, "mkdir")) return -1; return __real_mkdir(p, m); }
FILE *__wrap_fopen(const char *p, const char *m) { if (!(m[0] == 'r' && !strchr(m, '+')) && outside(p, "fopen")) return 0; return __real_fopen(p, m); }
#define REFUSE1(f) int __real_##f(const char *); int __wrap_##f(const char *p) { if (armed) { outside(p, #f); errno = EACCES; return -1; } return __real_##f(p); }
#define REFUSE2(f) int __real_##f(const char *, const char *); int __wrap_##f(const char *p, const char *q) { if (armed) { outside(p, #f); outside(q, #f); errno = EACCES; return -1; } return __real_##f(p, q); }
REFUSE1(unlink) REFUSE1(rmdir) REFUSE1(remove) REFUSE2(rename) REFUSE2(link) REFUSE2(symlink)
int __real_chmod(const char *, mode_t); int __wrap_chmod(const char *p, mode_t m) { if (outside(p, "chmod")) return -1; return __real_chmod(p, m); }
int __real_truncate(const char *, off_t); int __wrap_truncate(const char *p, off_t m) { if (outside(p, "truncate")) return -1; return __real_truncate(p, m); }

static void wipe(const char *d) { DIR *h = opendir(d); struct dirent *e; char b[5000]; if (!h) return; while ((e = readdir(h))) { struct stat s; if (!strcmp(e->d_name, ".") || !strcmp(e->d_name, "..")) continue; snprintf(b, sizeof b, "%s/%s", d, e->d_name); if (!lstat(b, &s) && S_ISDIR(s.st_mode)) { wipe(b); rmdir(b); } else unlink(b); } closedir(h); }
static int nfds(void) { DIR *d = opendir("/proc/self/fd"); int n = 0; while (readdir(d)) n++; closedir(d); return n; }
static unsigned char A[200000]; static size_t AL;
static const char *evil[] = {"..", "../x", "a/../../x", "a/b/../../../y", "/abs", "//abs2", "../../../../../../vz-escape", "a/..", "./../z", "a//../../q", "", "/", ".", "./", "a", "a/b", "a/", "..x", "x..", "...", ".../y", "%s%n%s", "a/./b", "a/b/c/d/e/f/g", "\xff\xfe", "a/..b/c", "..\\x", "b/../..", "/..", "/../w", "././../v"};
static void entry(void) { /* one header, usually well-formed apart from one hostile field */
    unsigned char *h = A + AL; char nm[120]; size_t dn, i; unsigned s = 0; static const char *sz[] = {"00000000000", "77777777777", "777777777777", "-0000000001", "-7777777777", "-512", "", "zzz", "99999999999", "8", "1", "511", "512", "513", "\x80\x00\x00\x00\x00\x00\x00\x00\x00\x00\x02", "4000", "0x10", "00001000", "-0"};
    if (AL + 1024 + 3000 > sizeof A) return; memset(h, 0, 512);
    if (vz_pct(70)) strcpy(nm, evil[vz_u(sizeof evil / sizeof *evil)]); else { size_t L = vz_u(101); for (i = 0; i < L; i++) nm[i] = vz_pct(60) ? "./a.."[vz_u(5)] : (char)vz_range(1, 255); nm[L] = 0; }
    if (vz_pct(15)) { size_t L = strlen(nm); while (L < 100) nm[L++] = "./ab"[vz_u(4)]; nm[100] = 0; }
    memcpy(h, nm, strlen(nm)); memcpy(h + 100, "0000664", 7); 
    dn = vz_pct(70) ? vz_u(1500) : 0; if (vz_pct(60)) snprintf((char *)h + 124, 12, "%011zo", dn); else { const char *q = sz[vz_u(19)]; memcpy(h + 124, q, strlen(q) ); }
    memcpy(h + 136, "07777777777", 11); h[156] = vz_pct(75) ? '0' : (unsigned char)("1234567\0gLx"[vz_u(11)]);
    if (vz_pct(20)) { memset(h + 157, 'L', vz_u(100)); } if (vz_pct(50)) memcpy(h + 257, "ustar\0" "00", 8); if (vz_pct(20)) memcpy(h + 345, "../..", 5);
    for (i = 0; i < 512; i++) s += i >= 148 && i < 156 ? ' ' : h[i];
    if (vz_pct(90)) snprintf((char *)h + 148, 8, "%06o", s); else { for (i = 0; i < 8; i++) h[148 + i] = "01234567 \0zz-"[vz_u(13)]; }
    AL += 512; for (i = 0; i < dn; i++) A[AL + i] = (unsigned char)vz_r(); memset(A + AL + dn, 0, 512); AL += (dn + 511) / 512 * 512; }
static void build(void) { int k, n = (int)vz_u(8); AL = 0; if (vz_pct(5)) { AL = vz_u(3000); for (k = 0; k < (int)AL; k++) A[k] = vz_pct(50) ? (unsigned char)vz_r() : (unsigned char)"0123457 ./\0"[vz_u(11)]; } else { for (k = 0; k < n; k++) entry(); if (vz_pct(70)) { memset(A + AL, 0, 1024); AL += 1024; } }
    if (vz_pct(30)) AL -= vz_u(AL + 1 < 1600 ? AL + 1 : 1600); if (vz_pct(30) && AL) { int f = 1 + (int)vz_u(6); while (f--) A[vz_u(AL)] = (unsigned char)vz_r(); } }
static unsigned char *M; static void opena(zpl_file *a, int mem) { memset(a, 0, sizeof *a); M = vz_dup(A, AL); if (mem) { if (!zpl_file_stream_open(a, zpl_heap(), M, (zpl_isize)AL, 0)) VZ_BROKEN("stream"); } else { char p[700]; int fd; snprintf(p, sizeof p, "%s/x.tar", vz_dir); fd = open(p, O_CREAT | O_TRUNC | O_WRONLY, 0644); if (write(fd, A, AL) != (ssize_t)AL) VZ_BROKEN("w"); close(fd); if (zpl_file_open(a, p)) VZ_BROKEN("open"); } }
static int calls, stop_at, rv; static zpl_i64 lastoff;
static ZPL_TAR_UNPACK_PROC(look) { char *q; (void)user_data; calls++; VZ_CHECK(calls <= (int)(AL / 512) + 1, "endless", "%d entries delivered from %zu bytes", calls, AL);
    VZ_CHECK(strlen(file->path) <= 100, "name", "a name of %zu characters", strlen(file->path)); VZ_CHECK(file->length >= 0, "length", "length %lld delivered", (long long)file->length); VZ_CHECK(file->offset > lastoff, "offset", "offset %lld after %lld", (long long)file->offset, (long long)lastoff); lastoff = file->offset;
    q = strdup(file->path); free(q); if (vz_pct(30)) zpl_file_seek(archive, (zpl_i64)vz_u(AL + 500)); return calls == stop_at ? rv : 0; }
static void t_proc(void) { zpl_file a; zpl_isize e; int fds = nfds(); build(); opena(&a, vz_pct(60)); calls = 0; lastoff = 0; stop_at = vz_pct(25) ? 1 + (int)vz_u(3) : -1; rv = 1 + (int)vz_u(3);
    e = zpl_tar_unpack(&a, look, 0); VZ_CHECK(e <= 0, "result", "returned %zd", (ssize_t)e); if (stop_at > 0 && calls >= stop_at) VZ_CHECK(e == -(ZPL_TAR_ERROR_INTERRUPTED) && calls == stop_at, "interrupt", "the callback asked to stop at %d, %d were made, result %zd", stop_at, calls, (ssize_t)e);
    if (AL < 512) VZ_CHECK(e < 0, "truncated", "%zu bytes were accepted as an archive", AL);
    vz_stat("entries delivered", (uint64_t)calls); vz_sample("archive of %zu bytes, %d entries delivered, result %d", (size_t)AL, (int)calls, (int)e); vz_stat(e ? "rejected" : "accepted", 1); zpl_file_close(&a); vz_undup(M); VZ_CHECK(nfds() == fds, "fd-leak", "descriptors"); vz_distinct(vz_hash(A, AL, 1)); }
static void t_dir(void) { zpl_file a; zpl_isize e; char d2[900], cwd[700]; int rel = (int)vz_u(5); int fds; build(); if (!getcwd(cwd, sizeof cwd)) VZ_BROKEN("cwd"); snprintf(dest, sizeof dest, "%s/o/in", vz_dir); { char o[700]; snprintf(o, sizeof o, "%s/o", vz_dir); wipe(o); mkdir(o, 0755); mkdir(dest, 0755); } fds = nfds(); opena(&a, vz_pct(60));
    switch (rel) { case 0: if (chdir(dest)) VZ_BROKEN("cd"); strcpy(d2, ""); break; case 1: if (chdir(dest)) VZ_BROKEN("cd"); strcpy(d2, "."); break; case 2: snprintf(d2, sizeof d2, "%s/", dest); break; case 3: { char o[700]; snprintf(o, sizeof o, "%s/o", vz_dir); if (chdir(o)) VZ_BROKEN("cd"); strcpy(d2, "in"); break; } default: strcpy(d2, dest); }
    escaped[0] = 0; armed = 1; e = zpl_tar_unpack_dir(&a, d2); armed = 0; if (chdir(cwd)) VZ_BROKEN("cd"); VZ_CHECK(e <= 0, "result", "returned %zd", (ssize_t)e); VZ_CHECK(!escaped[0], "escape", "unpacking into '%s' called %s on '%s'", d2, how, vz_show(escaped, strlen(escaped)));
    zpl_file_close(&a); vz_undup(M); VZ_CHECK(nfds() == fds, "fd-leak", "%d descriptors left open", nfds() - fds); vz_stat("writes inside the destination", ninside); ninside = 0; vz_distinct(vz_hash(A, AL, 2)); { char o[700]; snprintf(o, sizeof o, "%s/o", vz_dir); wipe(o); } }
VZ_MAIN({"callback", t_proc, 3}, {"directory", t_dir, 2})
