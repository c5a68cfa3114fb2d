/* C28 shared libraries built on the spot with known exports; mappings and descriptors watched */
#include "vz.h"
#define NL 4
static char lib[NL][600], bad[3][600]; static int nf[NL], tag[NL], made;
static void build(void) {
    int i, j; char src[700], cmd[1600]; FILE *f; made = 1;
    for (i = 0; i < NL; i++) {
        nf[i] = 3 + (int)vz_u(12); tag[i] = (int)vz_range(1000, 90000); snprintf(src, sizeof src, "%s/l%d.c", vz_dir, i); snprintf(lib[i], sizeof lib[i], "%s/libvz%d.so", vz_dir, i); f = fopen(src, "w");
        fprintf(f, "int vz_ctor_runs; static int secret(int x){return x;} __attribute__((visibility(\"hidden\"))) int vz_hidden(int x){return secret(x);} __attribute__((constructor)) static void up(void){vz_ctor_runs++;} int *vz_counter(void){static int c; return &c;} int vz_runs(void){return vz_ctor_runs;}\n");
        for (j = 0; j < nf[i]; j++) fprintf(f, "int vz_f%d(int x){ return x * %d + %d + vz_hidden(0); }\n", j, tag[i], j); if (i & 1) fprintf(f, "int vz_only_odd(void){return %d;}\n", tag[i]);
        fclose(f); snprintf(cmd, sizeof cmd, "gcc -w -shared -fPIC -nostdlib -Wl,-Bsymbolic -o %s %s", lib[i], src); if (system(cmd)) VZ_BROKEN("cannot build a library");
    }
    snprintf(bad[0], 600, "%s/nothing.so", vz_dir); snprintf(bad[1], 600, "%s/text.so", vz_dir); f = fopen(bad[1], "w"); fputs("this is no library", f); fclose(f);
    snprintf(bad[2], 600, "%s/cut.so", vz_dir); { char b[2000]; FILE *g = fopen(lib[0], "rb"); size_t n = fread(b, 1, 500, g); fclose(g); f = fopen(bad[2], "wb"); fwrite(b, 1, n, f); fclose(f); }
}
static int mapped(const char *p) { FILE *f = fopen("/proc/self/maps", "r"); char l[1000]; int n = 0; if (!f) VZ_BROKEN("maps"); while (fgets(l, sizeof l, f)) if (strstr(l, p)) n++; fclose(f); return n; }
static int fds(void) { int i, n = 0; for (i = 0; i < 200; i++) if (fcntl(i, F_GETFD) >= 0) n++; return n; }
static void t_history(void) {
    zpl_dll_handle h[NL][6]; int n[NL] = {0}, cnt[NL] = {0}, ops = 10 + (int)vz_u(60), k, i, before; uint64_t hs = 3; if (!made) build(); before = fds();
    for (k = 0; k < ops; k++) { int o = (int)vz_u(100), j; i = (int)vz_u(NL); hs = hs * 31 + (uint64_t)(o / 10) * 8 + (uint64_t)i;
        if (o < 30 && n[i] < 6) { zpl_dll_handle x = zpl_dll_load(lib[i]); VZ_CHECK(x, "load", "library %d not loaded", i); if (n[i]) VZ_CHECK(x == h[i][0], "load", "a second load gives another handle"); h[i][n[i]++] = x; VZ_CHECK(mapped(lib[i]), "load", "not mapped"); vz_stat("loads", 1); }
        else if (o < 55 && n[i]) { n[i]--; zpl_dll_unload(h[i][n[i]]); if (!n[i]) { cnt[i] = 0; VZ_CHECK(!mapped(lib[i]), "unload", "library %d is still mapped after its last unload", i); vz_stat("last unloads", 1); } else VZ_CHECK(mapped(lib[i]), "unload", "library %d gone while still loaded", i); }
        else if (o < 90 && n[i]) { char s[60]; int x = (int)vz_range(-1000, 1000); zpl_dll_proc p; j = (int)vz_u((uint64_t)nf[i]); sprintf(s, "vz_f%d", j); p = zpl_dll_proc_address(h[i][n[i] - 1], s); VZ_CHECK(p, "resolve", "%s not found", s); VZ_CHECK(((int (*)(int))p)(x) == x * tag[i] + j, "resolve", "%s of library %d is another function", s, i);
            sprintf(s, "vz_f%d", nf[i] + (int)vz_u(5)); VZ_CHECK(!zpl_dll_proc_address(h[i][0], s), "resolve-missing", "%s found though the library has no such symbol", s); VZ_CHECK(!zpl_dll_proc_address(h[i][0], "vz_hidden") && !zpl_dll_proc_address(h[i][0], "secret") && !zpl_dll_proc_address(h[i][0], ""), "resolve-missing", "a symbol that is not exported was found");
            p = zpl_dll_proc_address(h[i][0], "vz_only_odd"); VZ_CHECK(!p == !(i & 1), "resolve", "a symbol of another library"); if (p) VZ_CHECK(((int (*)(void))p)() == tag[i], "resolve", "symbol of another library");
            p = zpl_dll_proc_address(h[i][0], "vz_runs"); VZ_CHECK(p && ((int (*)(void))p)() == 1, "load", "initialised other than once"); p = zpl_dll_proc_address(h[i][0], "vz_counter"); VZ_CHECK(p && ++*((int *(*)(void))p)() == ++cnt[i], "load", "state of the library lost between loads"); vz_stat("symbols resolved", 3); }
        else { const char *b = bad[vz_u(3)]; VZ_CHECK(!zpl_dll_load(b), "load-missing", "%s was loaded", b); vz_stat("refused loads", 1); } }
    for (i = 0; i < NL; i++) { while (n[i]) zpl_dll_unload(h[i][--n[i]]); VZ_CHECK(!mapped(lib[i]), "unload", "still mapped at the end"); } VZ_CHECK(fds() == before, "descriptor-leak", "%d before, %d after", before, fds()); vz_distinct(hs); vz_sample("%d operations", ops);
}
VZ_MAIN({"history", t_history, 1})
