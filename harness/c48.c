/* C48: bit operations, byte swaps, environment variables, command output */
#include "vz.h"
#include <dirent.h>
#include <sys/wait.h>
extern char **environ;
static void t_bits(void) {
    int q, b; for (q = 0; q < 60; q++) {
        uint64_t x = vz_edge64(), y; uint32_t w = (uint32_t)x, r; uint16_t h = (uint16_t)x; int n = 0, i; unsigned char p[8], s[8];
        for (i = 0; i < 64; i++) n += (x >> i) & 1;
        VZ_CHECK(zpl_count_set_bits(x) == n, "count", "count_set_bits(%#llx) gives %lld", (unsigned long long)x, (long long)zpl_count_set_bits(x));
        y = zpl_endian_swap64(x); memcpy(p, &x, 8); memcpy(s, &y, 8); for (i = 0; i < 8; i++) VZ_CHECK(p[i] == s[7 - i], "swap64", "endian_swap64(%#llx) gives %#llx", (unsigned long long)x, (unsigned long long)y); VZ_CHECK(zpl_endian_swap64(y) == x, "swap64-back", "endian_swap64 twice");
        r = zpl_endian_swap32(w); memcpy(p, &w, 4); memcpy(s, &r, 4); for (i = 0; i < 4; i++) VZ_CHECK(p[i] == s[3 - i], "swap32", "endian_swap32(%#x) gives %#x", w, r);
        { uint16_t g = zpl_endian_swap16(h); VZ_CHECK(g == (uint16_t)(h >> 8 | h << 8), "swap16", "endian_swap16(%#x) gives %#x", h, g); }
        for (b = 0; b < 32; b++) {
            uint32_t want = w | (uint32_t)(1ull << b); VZ_CHECK(!!zpl_bit_get(w, (uint32_t)b) == (int)((w >> b) & 1), "get", "bit_get(%#x, %d) gives %d", w, b, zpl_bit_get(w, (uint32_t)b));
            r = w; zpl_bit_set(&r, (uint32_t)b); VZ_CHECK(r == want, "set", "bit_set(%#x, %d) gives %#x", w, b, r); VZ_CHECK(zpl_bit_get(r, (uint32_t)b), "get-set", "bit %d of %#x not seen after being set", b, r);
            r = w; zpl_bit_reset(&r, (uint32_t)b); want = (uint32_t)(w & ~(uint32_t)(1ull << b)); VZ_CHECK(r == want, "reset", "bit_reset(%#x, %d) gives %#x", w, b, r); VZ_CHECK(!zpl_bit_get(r, (uint32_t)b), "get-reset", "bit %d of %#x seen after being reset", b, r);
        }
        { int32_t v = (int32_t)(w & 0x7fffffff) % (1 << 30), g; uint32_t want = 1; if (vz_pct(40)) v = (int32_t)((1ll << vz_u(31)) + (int64_t)vz_u(5) - 2); if (v < 1) v = 1; if (v > 1 << 30) v = 1 << 30; while (want < (uint32_t)v) want *= 2; g = zpl_next_pow2(v); VZ_CHECK((uint32_t)g == want, "pow2", "next_pow2(%d) gives %d", v, g); if (want == (uint32_t)v) vz_stat("exact powers", 1); }
        vz_distinct(x); vz_stat("words", 1);
    }
    VZ_CHECK(ZPL_IS_LITTLE_ENDIAN == (*(const uint8_t *)&(const uint16_t){1} == 1) && ZPL_IS_BIG_ENDIAN == !ZPL_IS_LITTLE_ENDIAN, "endian", "byte order");
}
static void t_exhaustive(void) { /* a run of consecutive values: all 16-bit swaps, all powers over the run */
    uint32_t lo = (uint32_t)vz_u(1 << 18) << 12, i; uint32_t want = 1; if (lo == 0) lo = 1; while (want < lo) want *= 2;
    for (i = lo; i < lo + 4096 && i <= 1u << 30; i++) { if (i > want) want *= 2; VZ_CHECK((uint32_t)zpl_next_pow2((int32_t)i) == want, "pow2", "next_pow2(%u) gives %d", i, zpl_next_pow2((int32_t)i)); VZ_CHECK(zpl_count_set_bits(i) == __builtin_popcount(i), "count", "count_set_bits(%#x)", i); { uint16_t h = (uint16_t)i, g = zpl_endian_swap16(h); VZ_CHECK(g == (uint16_t)(h >> 8 | h << 8), "swap16", "endian_swap16(%#x) gives %#x", h, g); } }
    vz_distinct(lo); vz_stat("runs of 4096 values", 1);
}
/* ---- environment */
static int fds(void) { int n = 0; DIR *d = opendir("/proc/self/fd"); while (readdir(d)) n++; closedir(d); return n; }
#define NV 10
static char names[NV][80]; static char *vals[NV];
static void env_check(int i, const char *what) {
    const char *b, *g, *raw; zpl_string s; size_t before, after;
    b = zpl_get_env_buf(names[i]); raw = getenv(names[i]);
    VZ_CHECK(!b == !vals[i] && (!b || !strcmp(b, vals[i])), "get-buf", "after %s, variable %s reads %s through the buffer call, %s was set", what, names[i], b ? vz_show(b, strlen(b)) : "nothing", vals[i] ? vz_show(vals[i], strlen(vals[i])) : "nothing");
    VZ_CHECK(!raw == !vals[i] && (!raw || !strcmp(raw, vals[i])), "getenv", "after %s, the process sees %s in %s", what, raw ? vz_show(raw, strlen(raw)) : "nothing", names[i]);
    before = vz_heap_bytes();
    g = zpl_get_env(names[i]); VZ_CHECK(!g == !vals[i] && (!g || !strcmp(g, vals[i])), "get", "after %s, variable %s reads %s", what, names[i], g ? vz_show(g, strlen(g)) : "nothing");
    if (g) { VZ_CHECK(g != raw, "get-copy", "get_env returned the environment's own text of %s", names[i]); memset((void *)g, '!', strlen(g)); VZ_CHECK(!strcmp(getenv(names[i]), vals[i]), "get-copy", "writing to the returned copy changed %s", names[i]); zpl_mfree((void *)g); }
    s = zpl_get_env_str(names[i]); VZ_CHECK(!s == !vals[i], "get-str", "after %s, variable %s is %s as a string", what, names[i], s ? "there" : "missing");
    if (s) { VZ_CHECK((size_t)zpl_string_length(s) == strlen(vals[i]) && !memcmp(s, vals[i], strlen(vals[i]) + 1), "get-str", "variable %s reads %s as a string", names[i], vz_show(s, (size_t)zpl_string_length(s))); s = zpl_string_append_fmt(s, "%d", 7); zpl_string_free(s); }
    after = vz_heap_bytes(); VZ_CHECK(after <= before, "env-leak", "reading %s left %zu bytes allocated", names[i], after - before);
}
static uint64_t others(void) { uint64_t h = 0; char **e; for (e = environ; e && *e; e++) if (strncmp(*e, "VZ", 2) || !strchr(*e, '=')) h += vz_hash(*e, strlen(*e), 3); return h; }
static void t_env(void) {
    int i, n = 5 + (int)vz_u(40), k, nf = fds(); uint64_t h = 5, rest = others();
    for (i = 0; i < NV; i++) { /* names that are prefixes of each other, long, odd bytes */
        if (i && vz_pct(40)) { snprintf(names[i], 80, "%.60s%c", names[i - 1], (char)('A' + vz_u(26))); } else { int L = (int)vz_u(vz_pct(10) ? 60 : 8), j; strcpy(names[i], "VZ"); for (j = 0; j < L; j++) { char c; do c = (char)(vz_pct(90) ? 'A' + (int)vz_u(26) : 1 + (int)vz_u(254)); while (c == '=' || !c); names[i][2 + j] = c; } names[i][2 + j] = 0; snprintf(names[i] + strlen(names[i]), 8, "%d", i); }
        for (k = 0; k < i; k++) if (!strcmp(names[k], names[i])) { snprintf(names[i], 80, "VZdup%d", i); k = -1; } free(vals[i]); vals[i] = 0; unsetenv(names[i]); }
    for (k = 0; k < n; k++) {
        const char *what; int hits = 0; i = (int)vz_u(NV);
        if (vz_pct(60)) { size_t L = vz_pct(15) ? 0 : vz_pct(10) ? vz_u(70000) : vz_u(30), j; char *v = (char *)malloc(L + 1), *exact, *nm; for (j = 0; j < L; j++) v[j] = (char)(1 + vz_u(255)); if (vz_pct(20) && L > 1) v[0] = '='; v[L] = 0;
            exact = (char *)vz_dup(v, L + 1); nm = (char *)vz_dup(names[i], strlen(names[i]) + 1); zpl_set_env(nm, exact); memset(exact, '?', L); memset(nm, '?', strlen(names[i])); vz_undup(exact); vz_undup(nm); /* the environment keeps its own copy */
            what = vals[i] ? "replacing a value" : "setting a value"; vz_stat(vals[i] ? "values replaced" : "values set", 1); if (!L) vz_stat("empty values", 1); free(vals[i]); vals[i] = v; hits = 1; h = h * 31 + L * NV + (uint64_t)i; }
        else { vz_stat(vals[i] ? "values removed" : "absent values removed", 1); zpl_unset_env(names[i]); free(vals[i]); vals[i] = 0; what = "removing a value"; h = h * 37 + (uint64_t)i; }
        (void)hits; env_check(i, what); env_check((int)vz_u(NV), what);
    }
    for (i = 0; i < NV; i++) env_check(i, "the whole history"); { char **e; int m = 0, w = 0; for (i = 0; i < NV; i++) w += vals[i] != 0; for (e = environ; e && *e; e++) m += !strncmp(*e, "VZ", 2); VZ_CHECK(m == w, "env-count", "%d variables set, the environment lists %d", w, m); } VZ_CHECK(others() == rest, "env-others", "other variables changed");
    for (i = 0; i < NV; i++) { zpl_unset_env(names[i]); VZ_CHECK(!getenv(names[i]), "unset", "%s still set", names[i]); free(vals[i]); vals[i] = 0; }
    VZ_CHECK(fds() == nf, "env-fds", "descriptors left open"); vz_distinct(h); vz_stat("environment histories", 1);
}
/* ---- commands */
static void t_command(void) {
    static unsigned char out[300000]; char path[700], cmd[1600], *xc; size_t n, j; FILE *f; int how = (int)vz_u(6), nf, ex, str = vz_pct(50); vz_track t; zpl_string s; size_t hb;
    switch (vz_u(7)) { case 0: n = 0; break; case 1: n = 1; break; case 2: n = vz_u(40); break; case 3: n = 4090 + vz_u(12); break; case 4: n = 65530 + vz_u(12); break; case 5: n = vz_u(vz_pct(10) ? 300000 : 20000); break; default: n = vz_u(600); }
    if (str && n > 20000 && !vz_pct(4)) n = vz_u(9000); if (str && n > 70000) n = 65536; /* a string grows byte by byte */
    for (j = 0; j < n; j++) out[j] = how == 0 ? 0 : how == 1 ? 255 : how == 2 ? (unsigned char)("ab\n\r\t %\\"[vz_u(8)]) : (unsigned char)vz_r(); if (n && vz_pct(30)) out[n - 1] = vz_pct(50) ? '\n' : 0;
    snprintf(path, sizeof path, "%s/out", vz_dir); f = fopen(path, "wb"); if (!f || fwrite(out, 1, n, f) != n) VZ_BROKEN("scratch file"); fclose(f);
    switch (vz_u(5)) { case 0: snprintf(cmd, sizeof cmd, "cat '%s'", path); break; case 1: snprintf(cmd, sizeof cmd, "cat '%s'; exit 3", path); break; case 2: snprintf(cmd, sizeof cmd, "cat '%s'; echo oops >&2; cat /dev/null", path); strcat(cmd, " 2>/dev/null"); snprintf(cmd, sizeof cmd, "cat '%s'; echo oops 2>/dev/null >/dev/null", path); break; case 3: snprintf(cmd, sizeof cmd, "head -c %zu '%s'; sleep 0.00%d; tail -c +%zu '%s'", n / 2, path, 1 + (int)vz_u(4), n / 2 + 1, path); break; default: snprintf(cmd, sizeof cmd, "cat < '%s' | cat", path); }
    xc = (char *)vz_dup(cmd, strlen(cmd) + 1); nf = fds(); ex = (int)(n & 0xffff);
    if (str) {
        vz_track_init(&t); s = zpl_system_command_str(xc, vz_track_allocator(&t));
        VZ_CHECK(s != 0, "str", "%s gave no string", cmd); VZ_CHECK((size_t)zpl_string_length(s) == n && !memcmp(s, out, n) && s[n] == 0, "str", "%s wrote %zu bytes, %lld were captured%s", cmd, n, (long long)zpl_string_length(s), (size_t)zpl_string_length(s) == n ? " changed" : "");
        VZ_CHECK((size_t)zpl_string_capacity(s) >= n && t.nlive == 1, "str", "captured string has capacity %lld, %zu blocks live", (long long)zpl_string_capacity(s), t.nlive); zpl_string_free(s); VZ_TRACK_DONE(&t); vz_stat("captured strings", 1); if (n && memchr(out, 0, n)) vz_stat("outputs with zero bytes", 1);
    } else {
        size_t cap = vz_pct(40) ? n : vz_pct(50) ? vz_u(n + 40) : n + vz_u(100), k = cap < n ? cap : n; unsigned char *b = (unsigned char *)malloc(cap ? cap : 1); memset(b, 0x5c, cap); if (!cap) vz_poison(b, 1);
        VZ_CHECK(zpl_system_command(xc, cap, (char *)b) == 1, "run", "%s was not run", cmd);
        VZ_CHECK(!memcmp(b, out, k), "buffer", "%s wrote %zu bytes, a buffer of %zu did not receive them", cmd, n, cap); for (j = k; j < cap; j++) VZ_CHECK(b[j] == 0x5c || (j == k && !b[j]), "beyond", "%s wrote %zu bytes, byte %zu of a buffer of %zu was written", cmd, n, j, cap);
        if (cap) { free(b); } else { vz_unpoison(b, 1); free(b); } vz_stat("captured buffers", 1); if (cap < n) vz_stat("outputs cut to the buffer", 1);
    }
    VZ_CHECK(fds() == nf, "command-fds", "%s: %d descriptors before, %d after", cmd, nf, fds()); VZ_CHECK(waitpid(-1, 0, WNOHANG) < 0 && errno == ECHILD, "child", "%s: a child process is left", cmd); VZ_CHECK(!strcmp(xc, cmd), "command-text", "the command was changed"); vz_undup(xc); (void)ex;
    vz_sample("a command writing %zu bytes", n); vz_distinct(vz_hash(out, n, 1)); (void)hb;
}
VZ_MAIN({"bits", t_bits, 40}, {"runs", t_exhaustive, 20}, {"environment", t_env, 30}, {"command", t_command, 10})
