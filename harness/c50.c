/* C50: every configuration listed by the runner answers the same workload the same way.
   cfg/list: "name sections approx" per line ("name !" when it did not build); cfg/<name> the binary; the first is the reference. */
#define _GNU_SOURCE
#include "vz.h"
#include <spawn.h>
#include <sys/wait.h>
#include <dlfcn.h>
extern char **environ;
typedef struct { char name[40]; unsigned have; int approx, built; char *txt; size_t len; } conf;
static conf C[64]; static int nC; static char dir[600];
typedef struct { const char *key, *val; } row;
static row *R; static size_t nR, cR;
static const struct { const char *sec; unsigned bit; } SECS[] = {
    { "chars", 1 }, { "cstr", 1 }, { "num", 1 }, { "utf8", 1 }, { "print", 1 }, { "string", 1 }, { "sort", 1 }, { "random", 1 }, { "misc", 1 }, { "path", 1 }, { "file", 1 }, { "hash", 2 }, { "opts", 4 },
    { "scalar", 8 }, { "libm", 8 }, { "vec", 8 }, { "mat", 8 }, { "quat", 8 }, { "geom", 8 }, { "json", 16 }, { "built", 16 }, { "csv", 16 }, { "uri", 16 }, { "number", 16 }, { "atomic", 32 }, { "thread", 32 }, { "jobs", 64 }, { "regex", 512 } };
static unsigned need(const char *key) { const char *s = strchr(key, ' ') + 1; size_t n = strcspn(s, "."), i; for (i = 0; i < sizeof SECS / sizeof *SECS; i++) if (strlen(SECS[i].sec) == n && !memcmp(SECS[i].sec, s, n)) return SECS[i].bit; return 0; }
static const char *seck(const char *key) { static char b[40]; const char *s = strchr(key, ' ') + 1; snprintf(b, sizeof b, "%.*s", (int)strcspn(s, "."), s); return b; }
static void load(void) {
    char p[700], l[200]; FILE *f; if (nC) return; snprintf(dir, sizeof dir, "%s/../cfg", vz_dir); snprintf(p, sizeof p, "%s/list", dir); f = fopen(p, "r"); if (!f) VZ_BROKEN("no list of configurations");
    while (fgets(l, sizeof l, f)) { conf *c = C + nC; char h[40]; if (sscanf(l, "%39s %39s %d", c->name, h, &c->approx) < 2) continue; c->built = h[0] != '!'; c->have = (unsigned)atoi(h); nC++; } fclose(f);
    if (nC < 2 || !C[0].built) VZ_BROKEN("no reference configuration");
}
static int run(conf *c, uint64_t seed, int lo, int hi, char *why, size_t wl) {
    char exe[700], so[700], se[700], a[3][40]; char *av[5]; pid_t p; int st; FILE *f; posix_spawn_file_actions_t fa; size_t n;
    snprintf(exe, sizeof exe, "%s/%s", dir, c->name); snprintf(so, sizeof so, "%s/out", vz_dir); snprintf(se, sizeof se, "%s/err", vz_dir); sprintf(a[0], "%llu", (unsigned long long)seed); sprintf(a[1], "%d", lo); sprintf(a[2], "%d", hi); av[0] = exe; av[1] = a[0]; av[2] = a[1]; av[3] = a[2]; av[4] = 0;
    posix_spawn_file_actions_init(&fa); posix_spawn_file_actions_addopen(&fa, 1, so, O_WRONLY | O_CREAT | O_TRUNC, 0666); posix_spawn_file_actions_addopen(&fa, 2, se, O_WRONLY | O_CREAT | O_TRUNC, 0666); posix_spawn_file_actions_addchdir_np(&fa, vz_dir);
    if (posix_spawn(&p, exe, &fa, 0, av, environ)) VZ_BROKEN("cannot start %s", exe); posix_spawn_file_actions_destroy(&fa);
    while (waitpid(p, &st, 0) < 0 && errno == EINTR) ;
    free(c->txt); c->txt = 0; c->len = 0; f = fopen(so, "r"); if (!f) VZ_BROKEN("no output"); c->txt = malloc(4u << 20); n = fread(c->txt, 1, (4u << 20) - 1, f); c->txt[n] = 0; c->len = n; fclose(f);
    if (WIFEXITED(st) && WEXITSTATUS(st) == 0 && n > 4 && !strcmp(c->txt + n - 4, "end\n")) return 1;
    { char b[900]; b[0] = 0; f = fopen(se, "r"); if (f) { n = fread(b, 1, sizeof b - 1, f); b[n] = 0; fclose(f); } snprintf(why, wl, "%s %s %s status %#x: %s", a[0], a[1], a[2], (unsigned)st, vz_show(b, strlen(b))); } return 0;
}
static row next(char **p) { row r = { 0, 0 }; char *l = *p, *e, *s; if (!*l || !strcmp(l, "end\n")) return r; e = strchr(l, '\n'); if (!e) return r; *e = 0; *p = e + 1; s = strchr(l, ' '); if (!s || !(s = strchr(s + 1, ' '))) return r; *s = 0; r.key = l; r.val = s + 1; return r; }
/* two lists of float patterns agree up to rounding relative to the largest on the line */
static int close_enough(const char *a, const char *b) {
    float x[20], y[20], m = 1; int n = 0, i; const char *p = strchr(a, ' '), *q = strchr(b, ' '); if (!p || !q || p - a != q - b || memcmp(a, b, (size_t)(p - a))) return 0;
    while (*p && *q && n < 20) { unsigned u, v; char *e, *g; p++; q++; if (!strncmp(p, "nan", 3) || !strncmp(q, "nan", 3)) { if (strncmp(p, q, 3)) return 0; p += 3; q += 3; continue; } u = (unsigned)strtoul(p, &e, 16); v = (unsigned)strtoul(q, &g, 16); if (e - p != 8 || g - q != 8) return 0; memcpy(x + n, &u, 4); memcpy(y + n, &v, 4); n++; p = e; q = g; }
    if (*p || *q) return 0; for (i = 0; i < n; i++) { float s = x[i] < 0 ? -x[i] : x[i]; if (s > m && s < 1e30f) m = s; } for (i = 0; i < n; i++) if (x[i] != y[i]) { float d = x[i] - y[i]; if (!((d < 0 ? -d : d) <= 4e-5f * m)) return 0; } return n > 0;
}
static void compare(conf *c) {
    char *p = c->txt; size_t i = 0; row r; uint64_t lines = 0;
    while ((r = next(&p)).key) {
        while (i < nR && strcmp(R[i].key, r.key)) { if (!(need(R[i].key) & ~c->have) && !(!(c->have & 128) && (!strcmp(seck(R[i].key), "json") || !strcmp(seck(R[i].key), "csv")))) break; i++; }
        { char key[60]; snprintf(key, sizeof key, "differs:%s", seck(r.key));
          VZ_CHECK(i < nR && !strcmp(R[i].key, r.key), key, "configuration %s answers '%s' '%s' where %s has '%s' '%s'", c->name, r.key, r.val, C[0].name, i < nR ? R[i].key : "-", i < nR ? R[i].val : "-");
          if (strcmp(R[i].val, r.val)) VZ_CHECK(c->approx && need(r.key) == 8 && close_enough(R[i].val, r.val), key, "in configuration %s, %s is '%.300s'; in %s it is '%.300s'", c->name, r.key, r.val, C[0].name, R[i].val); }
        i++; lines++;
    }
    while (i < nR && ((need(R[i].key) & ~c->have) || (!(c->have & 128) && (!strcmp(seck(R[i].key), "json") || !strcmp(seck(R[i].key), "csv"))))) i++;
    VZ_CHECK(i == nR, "missing", "configuration %s does not answer %s", c->name, i < nR ? R[i].key : "-");
    vz_stat("answers compared", lines); vz_stat("configurations compared", 1);
}
static void c_work(void) {
    int i, lo = (int)vz_u(1000000) * 8, n = 5; uint64_t seed = vz_r(); char why[1500], *p; row r; load();
    VZ_CHECK(run(C, seed, lo, lo + n, why, sizeof why), "end", "configuration %s: %s", C[0].name, why);
    vz_distinct(vz_hash(C[0].txt, C[0].len, 5)); p = C[0].txt; nR = 0; while ((r = next(&p)).key) { if (nR == cR) R = realloc(R, (cR = cR ? cR * 2 : 4096) * sizeof *R); R[nR++] = r; }
    for (i = 1; i < nC; i++) {
        char key[80]; if (!C[i].built) { char e[1200] = "", q[700]; FILE *f; snprintf(q, sizeof q, "%s/%s.err", dir, C[i].name); f = fopen(q, "r"); if (f) { e[fread(e, 1, 1199, f)] = 0; fclose(f); } snprintf(key, sizeof key, "build:%s", C[i].name); VZ_FAIL(key, "the library does not build in configuration %s: %.500s", C[i].name, vz_show(e, strlen(e))); }
        snprintf(key, sizeof key, "end:%s", C[i].name); VZ_CHECK(run(C + i, seed, lo, lo + n, why, sizeof why), key, "configuration %s: %s", C[i].name, why); compare(C + i);
    }
    vz_sample("workload %llu/%d: %zu answers, %d configurations", (unsigned long long)seed, lo, nR, nC);
}
/* whatever the C build of the implementation offers, the C++ build offers under the same name */
static void c_names(void) {
    char q[1500], l[400]; FILE *f; int n = 0; void *h; load(); snprintf(q, sizeof q, "%s/libcpp.so", dir); h = dlopen(q, RTLD_NOW | RTLD_LOCAL); VZ_CHECK(h, "build:libcpp", "the C++ implementation cannot be loaded: %s", dlerror());
    snprintf(q, sizeof q, "nm -D --defined-only %s/libc.so", dir); f = popen(q, "r"); if (!f) VZ_BROKEN("nm");
    while (fgets(l, sizeof l, f)) { char t, s[300]; if (sscanf(l, "%*s %c %299s", &t, s) != 2 || strncmp(s, "zpl_", 4) || !strncmp(s, "zpl__", 5)) continue; VZ_CHECK(dlsym(h, s), "names", "%s is offered by the C implementation but not by the C++ one", s); n++; }
    pclose(f); dlclose(h); if (n < 300) VZ_BROKEN("only %d names", n); vz_stat("names looked up", (uint64_t)n); vz_distinct(42);
}
VZ_MAIN({ "workload", c_work, 40 }, { "names", c_names, 1 })
