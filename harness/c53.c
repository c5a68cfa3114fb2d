/* C53: a failed assertion ends the program with a report of what failed and where; detected
 * misuse of the library is stopped that way before it can damage memory, proper use just
 * inside the limits never is. Every probe runs in a child process of its own. */
#include "vz.h"
#include <sys/mman.h>
#include <sys/wait.h>
#include <sys/resource.h>
#include <fcntl.h>
typedef struct { int die; char what[200]; char want[4][400]; int line; int steps; } shared;
static shared *sh; static char errp[600], scratch[600];
static char errtext[20000]; static int status_;
#define MUST(c, ...) (sh->die = !!(c), snprintf(sh->what, sizeof sh->what, __VA_ARGS__), sh->steps++)
#define OK(...) MUST(0, __VA_ARGS__)
#define SAME(c, ...) do { if (!(c)) { fprintf(stderr, "WRONG: " __VA_ARGS__); _exit(43); } } while (0)
static volatile long sink;

static void run(void (*fn)(void)) { /* fn in a child; status_ and errtext tell how it ended */
    pid_t p; FILE *f; size_t n;
    fflush(0);
    p = fork(); if (p < 0) VZ_BROKEN("fork");
    if (!p) {
        struct rlimit r = {0, 0}; int fd = open(errp, O_CREAT | O_TRUNC | O_WRONLY | O_APPEND, 0600), i; 
        setrlimit(RLIMIT_CORE, &r); signal(SIGPROF, SIG_DFL); for (i = 1; i < 32; i++) if (i == SIGILL || i == SIGTRAP || i == SIGABRT || i == SIGALRM) signal(i, SIG_DFL);
        dup2(fd, 2); close(fd); alarm(30); fn(); fflush(0); _exit(42);
    }
    while (waitpid(p, &status_, 0) < 0 && errno == EINTR) {}
    f = fopen(errp, "rb"); n = f ? fread(errtext, 1, sizeof errtext - 1, f) : 0; errtext[n] = 0; if (f) fclose(f);
}
static void outcome(const char *area) {
    int died = WIFSIGNALED(status_) && (WTERMSIG(status_) == SIGILL || WTERMSIG(status_) == SIGTRAP || WTERMSIG(status_) == SIGABRT);
    VZ_CHECK(!(WIFSIGNALED(status_) && WTERMSIG(status_) == SIGALRM), "hang", "%s: %s did not return", area, sh->what);
    VZ_CHECK(!strstr(errtext, "Sanitizer") && !strstr(errtext, "runtime error"), "damage", "%s: %s: %.1500s", area, sh->what, errtext);
    VZ_CHECK(!strstr(errtext, "WRONG: "), "wrong", "%s: %s: %.600s", area, sh->what, errtext);
    if (sh->die) {
        VZ_CHECK(!(WIFEXITED(status_)), "not-stopped", "%s: %s went on", area, sh->what);
        VZ_CHECK(died, "not-stopped", "%s: %s ended with signal %d instead of a failed assertion", area, sh->what, WTERMSIG(status_));
        VZ_CHECK(strstr(errtext, "Assert Failure: "), "no-report", "%s: %s ended without a report: '%.300s'", area, sh->what, errtext);
        vz_stat("misuses stopped", 1);
    } else {
        VZ_CHECK(WIFEXITED(status_) && WEXITSTATUS(status_) == 42, "stopped", "%s: %s was stopped: status %x, '%.300s'", area, sh->what, status_, errtext);
        VZ_CHECK(!*errtext, "noise", "%s: %s wrote '%.300s'", area, sh->what, errtext);
        vz_stat("proper uses let through", 1);
    }
}

/* ------------------------------------------------------------ the macros themselves */
static int evals_; static int once(int v) { evals_++; return v; }
static char text_[300]; static int num_, cond_, shape_; static double dbl_;
#define WANT(i, ...) snprintf(sh->want[i], sizeof sh->want[i], __VA_ARGS__)
static void fill_text(void) { int n = (int)vz_u(12), i; static const char *bits[] = {"%", "%s", "%d", "%n", "%*d", "a", "'", "\\", "%%", "%lld", " ", "{", "\xc3\xa9", "%.*s"}; text_[0] = 0; for (i = 0; i < n; i++) strcat(text_, bits[vz_u(sizeof bits / sizeof *bits)]); }
static int *pct_[4];
static void user(void) {
    const char *nul = 0; int i = cond_, k = 7; int *p = cond_ ? &k : 0, n = 5; pct_[1] = p; evals_ = 0; sh->die = !cond_; sh->line = 0;
    WANT(0, "%s", ""); WANT(1, "%s", ""); WANT(2, "%s", ""); WANT(3, "%s", __FILE__);
    switch (shape_) {
        case 0: WANT(0, "`once(i) == 1`"); sh->line = __LINE__; ZPL_ASSERT(once(i) == 1); break;
        case 1: WANT(0, "`once(i)`"); WANT(1, "value %d of %s", num_, text_); sh->line = __LINE__; ZPL_ASSERT_MSG(once(i), "value %d of %s", num_, text_); break;
        case 2: WANT(0, "`once(i) && n == 5`"); WANT(1, "fixed words"); sh->line = __LINE__; ZPL_ASSERT_MSG(once(i) && n == 5, "fixed words"); break;
        case 3: WANT(1, "pct_[n %% 2] must not be NULL"); sh->line = __LINE__; ZPL_ASSERT_NOT_NULL(pct_[n % 2]); evals_ = 1; break;
        case 4: WANT(1, "pct_[n %% sizeof (int)] must not be NULL"); sh->line = __LINE__; ZPL_ASSERT_NOT_NULL(pct_[n % sizeof (int)]); evals_ = 1; break;
        case 5: if (!once(i)) { WANT(1, "out of %s at %d%%", text_, num_); sh->line = __LINE__; ZPL_PANIC("out of %s at %d%%", text_, num_); } break;
        case 6: if (!once(i)) { WANT(1, "not implemented"); sh->line = __LINE__; ZPL_NOT_IMPLEMENTED; } break;
        case 7: if (!once(i)) { WANT(1, "%s", text_); WANT(3, "%s", ""); zpl_assert_crash(text_); } break;
        case 8: if (!once(i)) { WANT(0, "`%s`", text_); WANT(1, "at %d", num_); WANT(2, "some/file.c:(%d): Assert Failure: ", num_); WANT(3, "%s", ""); zpl_assert_handler(text_, "some/file.c", num_, "at %d", num_); sh->die = 0; /* only reports */ } break;
        case 9: if (!once(i)) { WANT(2, "x.c:(3): Assert Failure: "); WANT(1, "just %s", text_); WANT(3, "%s", ""); zpl_assert_handler(nul, "x.c", 3, "just %s", text_); sh->die = 0; } break;
        case 10: sh->line = __LINE__ + 1; if (num_ & 1)
            ZPL_ASSERT(once(i));
          else
            { sh->line = __LINE__; ZPL_ASSERT_MSG(once(i), "other branch"); } break;
        case 11: WANT(0, "`once(i) ? \"yes\" : nul`"); sh->line = __LINE__; ZPL_ASSERT(once(i) ? "yes" : nul); break;
    }
    if (!cond_ && (shape_ == 8 || shape_ == 9)) _exit(41);
    SAME(evals_ == 1, "the condition was worked out %d times", evals_);
}
static void t_user(void) {
    int times = 6;
    while (times--) {
        char line[60]; int i; shape_ = (int)vz_u(12); cond_ = vz_pct(40); num_ = (int)vz_r(); dbl_ = vz_unit(); fill_text(); memset(sh, 0, sizeof *sh); snprintf(sh->what, sizeof sh->what, "assertion shape %d, condition %d, text '%s'", shape_, cond_, text_);
        run(user);
        if (!cond_ && (shape_ == 8 || shape_ == 9)) VZ_CHECK(WIFEXITED(status_) && WEXITSTATUS(status_) == 41, "handler", "reporting ended the program: status %x %s", status_, errtext);
        else outcome("assertions");
        if (!cond_) {
            for (i = 0; i < 4; i++) VZ_CHECK(strstr(errtext, sh->want[i]), "report", "shape %d: the report '%.500s' lacks '%s'", shape_, errtext, sh->want[i]);
            if (sh->line && sh->want[3][0]) { snprintf(line, sizeof line, ":(%d): Assert Failure: ", sh->line); VZ_CHECK(strstr(errtext, line), "report", "shape %d: the report '%.500s' lacks '%s'", shape_, errtext, line); }
            VZ_CHECK(errtext[0] && errtext[strlen(errtext) - 1] == '\n' && !strchr(text_, '\n'), "report", "the report '%.500s' does not end its line", errtext);
            vz_stat("reports compared", 1);
        }
        vz_distinct(vz_hash(text_, strlen(text_), (uint64_t)(shape_ * 2 + cond_)));
    }
}

/* ------------------------------------------------------------ leaving */
static int code_; static char outp[600];
static void bye1(void) { (void)!write(2, "one\n", 4); } static void bye2(void) { (void)!write(2, "two\n", 4); }
static void leave(void) { int fd = open(outp, O_CREAT | O_TRUNC | O_WRONLY, 0600); dup2(fd, 1); close(fd); atexit(bye1); atexit(bye2); printf("buffered %d", code_); zpl_exit((zpl_u32)code_); (void)!write(2, "went on\n", 8); }
static void t_exit(void) {
    char b[100] = {0}, w[100]; FILE *f; code_ = vz_pct(50) ? (int)vz_u(256) : (int)vz_r(); memset(sh, 0, sizeof *sh); snprintf(outp, sizeof outp, "%s/out", vz_dir);
    run(leave);
    VZ_CHECK(WIFEXITED(status_) && WEXITSTATUS(status_) == (code_ & 255), "exit", "zpl_exit(%d) ended with status %x, '%.300s'", code_, status_, errtext);
    VZ_CHECK(!strcmp(errtext, "two\none\n"), "exit", "zpl_exit(%d) left '%.300s' behind", code_, errtext);
    f = fopen(outp, "rb"); VZ_CHECK(f, "exit", "no output"); (void)!fread(b, 1, sizeof b - 1, f); fclose(f); snprintf(w, sizeof w, "buffered %d", code_);
    VZ_CHECK(!strcmp(b, w), "exit", "the pending output is '%s' instead of '%s'", b, w); vz_stat("programs left", 1); vz_distinct((uint64_t)code_);
}

/* ------------------------------------------------------------ misuse */
static int pow2(int64_t a) { return a > 0 && !(a & (a - 1)); }
static int64_t any_align(void) { return vz_pct(50) ? (int64_t)1 << vz_u(13) : vz_pct(30) ? 0 : vz_range(1, 200); }
static void m_align(void) { int64_t a = any_align(); char *p = malloc(64), *q; MUST(!pow2(a), "zpl_align_forward by %lld", (long long)a); q = zpl_align_forward(p + 3, a); SAME(q >= p + 3 && (uintptr_t)q % (uintptr_t)a == 0, "gave %p for %p by %lld", (void *)q, (void *)(p + 3), (long long)a); }
static void m_arena(void) {
    static char mem[4000]; zpl_arena a; zpl_arena_snapshot s[200]; int64_t was[200]; int n = 0, k = 40; zpl_allocator A; OK("zpl_arena_init_from_memory"); zpl_arena_init_from_memory(&a, mem, sizeof mem); A = zpl_arena_allocator(&a);
    while (k--) switch (vz_u(6)) {
        case 0: was[n] = a.total_allocated; OK("zpl_arena_snapshot_begin"); s[n++] = zpl_arena_snapshot_begin(&a); break;
        case 1: if (n) { int i = vz_pct(85) ? n - 1 : (int)vz_u((uint64_t)n); MUST(a.total_allocated < was[i], "ending snapshot %d of %d, taken at %lld, at %lld", i, n, (long long)was[i], (long long)a.total_allocated); zpl_arena_snapshot_end(s[i]); if (i != n - 1) memmove(s + i, s + i + 1, sizeof *s * (size_t)(n - 1 - i)), memmove(was + i, was + i + 1, sizeof *was * (size_t)(n - 1 - i)); n--; SAME(a.total_allocated <= (zpl_isize)sizeof mem, "total"); }
          else if (vz_pct(20)) { zpl_arena_snapshot t; t.arena = &a; t.original_count = 0; MUST(1, "ending a snapshot with none open"); zpl_arena_snapshot_end(t); } break;
        case 2: if (vz_pct(30)) { MUST(n, "zpl_arena_check with %d snapshots open", n); zpl_arena_check(&a); } break;
        case 3: { int64_t al = any_align(); if (vz_pct(60) && !pow2(al)) al = 8; MUST(!pow2(al), "zpl_arena_alignment_of %lld", (long long)al); sink += zpl_arena_alignment_of(&a, al); } break;
        default: OK("zpl_arena alloc"); { void *p = zpl_alloc(A, vz_range(1, 100)); sink += !!p; }
    }
}
static void m_pool(void) {
    zpl_pool p; int nb = (int)vz_range(1, 6), bs = 8 * (int)vz_range(1, 5), al = 1 << vz_range(3, 5), live = 0, k = 20; void *b[10]; zpl_allocator A; OK("zpl_pool_init_align"); zpl_pool_init_align(&p, zpl_heap(), nb, bs, al); A = zpl_pool_allocator(&p);
    while (k--) switch (vz_u(8)) {
        case 0: if (live) { OK("freeing a pool block"); zpl_free(A, b[--live]); } break;
        case 1: if (vz_pct(30)) { int s = bs + (vz_pct(50) ? 0 : (int)vz_range(-4, 4)); MUST(s != bs || live == nb, "%d bytes from a pool of %d with %d of %d taken", s, bs, live, nb); b[live] = zpl_alloc_align(A, s, al); live++; } break;
        case 2: if (vz_pct(30)) { int x = 1 << vz_u(8); MUST(x != al || live == nb, "alignment %d from a pool of %d with %d of %d taken", x, al, live, nb); b[live] = zpl_alloc_align(A, bs, x); live++; } break;
        case 3: if (live && vz_pct(30)) { MUST(1, "resizing a pool block"); b[0] = zpl_resize_align(A, b[0], bs, bs * 2, al); } break;
        case 4: if (vz_pct(20)) { OK("zpl_free_all on a pool"); zpl_free_all(A); live = 0; } break;
        default: MUST(live == nb, "block %d of a pool of %d", live + 1, nb); b[live] = zpl_alloc_align(A, bs, al); SAME(b[live], "no block"); memset(b[live], 0xa5, (size_t)bs); live++;
    }
    OK("zpl_pool_free"); zpl_pool_free(&p);
}
static void m_scratch(void) {
    static char whole[4200], *mem = whole + 64; zpl_scratch_memory s; void *b[64]; int n = 0, k = 20; zpl_allocator A; char other[64]; OK("zpl_scratch_memory_init"); zpl_scratch_memory_init(&s, mem, 4096); A = zpl_scratch_allocator(&s);
    while (k--) switch (vz_u(6)) {
        case 0: { int64_t al = vz_pct(70) ? 4 << vz_u(4) : vz_range(1, 33); if (al % 4 == 0 && !pow2(al)) al = 16; MUST(al % 4, "alignment %lld from scratch memory", (long long)al); b[n] = zpl_alloc_align(A, vz_range(1, 60), al); n += !!b[n]; if (n > 40) return; } break;
        case 1: if (n) { OK("freeing a scratch block"); zpl_free(A, b[--n]); } break;
        case 2: if (vz_pct(15)) { char *q = vz_pct(50) ? other : vz_pct(50) ? mem + 4096 : mem - 1; MUST(1, "freeing memory that is not the scratch memory's"); zpl_free(A, q); } break;
        case 3: if (n > 2 && vz_pct(15)) { /* with an older block still held, so nothing is reused */ MUST(0, "freeing"); zpl_free(A, b[n - 1]); MUST(1, "freeing a scratch block twice"); zpl_free(A, b[n - 1]); } break;
        default: OK("scratch alloc"); b[n] = zpl_alloc(A, vz_range(1, 60)); n += !!b[n]; if (n > 40) return;
    }
}
static void m_stack(void) {
    static char mem[600]; zpl_stack_memory s; zpl_allocator A; void *b[80]; int n = 0, k = 12; size_t used = 0, was[80], cap = sizeof mem; OK("zpl_stack_memory_init_from_memory"); zpl_stack_memory_init_from_memory(&s, mem, (zpl_isize)cap); A = zpl_stack_allocator(&s);
    while (k--) switch (vz_u(5)) {
        case 0: if (n) { OK("freeing a stack block"); zpl_free(A, b[--n]); used = was[n]; } break;
        case 1: if (n && vz_pct(10)) { MUST(1, "resizing a stack block"); b[0] = zpl_resize(A, b[0], 8, 900); } break;
        default: { size_t w = (size_t)vz_range(1, 200); size_t lo = used + w + 8, hi = used + w + 8 + 64; if (hi > cap && lo <= cap) break; MUST(lo > cap, "%zu bytes from a fixed stack of %zu with %zu taken", w, cap, used); b[n] = zpl_alloc_align(A, (zpl_isize)w, 8); SAME(b[n], "no block"); memset(b[n], 1, w); was[n++] = used; used = (size_t)((char *)b[n - 1] - mem) + w; }
    }
}
ZPL_TABLE(static, tab, tab_, int);
static void tabproc(zpl_u64 k, int v) { sink = sink ^ (long)k ^ v; } static void tabproc2(zpl_u64 k, int *v) { sink = sink ^ (long)k; ++*v; }
static void m_table(void) { tab t; int i, n = (int)vz_u(9); tab_init(&t, zpl_heap()); for (i = 0; i < n; i++) tab_set(&t, vz_r(), i); switch (vz_u(5)) { case 0: OK("table map"); tab_map(&t, tabproc); tab_map_mut(&t, tabproc2); break; case 1: MUST(1, "mapping a table with no function, %d entries", n); tab_map(&t, 0); break; case 2: MUST(1, "mapping a table with no function, %d entries", n); tab_map_mut(&t, 0); break; case 3: MUST(1, "mapping no table"); tab_map(0, tabproc); break; default: MUST(1, "mapping no table"); tab_map_mut(0, tabproc2); } tab_destroy(&t); }
static void m_buffer(void) {
    zpl_buffer(int) b = 0; int cap = (int)vz_u(20), n = 0, k = 14, items[64] = {0}; short shorts[64] = {0}; OK("zpl_buffer_init"); zpl_buffer_init(b, zpl_heap(), cap);
    while (k--) switch (vz_u(5)) {
        case 0: if (n || vz_pct(20)) { MUST(!n, "taking one off a buffer of %d", n); zpl_buffer_pop(b); n--; } break;
        case 1: if (vz_pct(15)) { int w = (int)vz_u(2); MUST(1, "adding items of another size to a buffer"); zpl_buffer_appendv(b, shorts, w); } break;
        case 2: if (n < cap) { OK("zpl_buffer_append"); zpl_buffer_append(b, k); n++; } break;
        default: { int w = (int)vz_u(vz_pct(50) ? 4 : (uint64_t)(cap - n) + 3); MUST(n + w > cap, "adding %d to a buffer of %d of %d", w, n, cap); if (vz_pct(50)) zpl_buffer_appendv(b, items, w); else zpl_buffer_appendv(b, items, w ? w : 0); n += w; SAME(zpl_buffer_count(b) == n, "the buffer counts %lld instead of %d", (long long)zpl_buffer_count(b), n); }
    }
    OK("zpl_buffer_free"); zpl_buffer_free(b);
}
static void m_array(void) {
    zpl_array(int) a = 0; int n = 0, k = 14, items[64] = {0}; short shorts[64] = {0}; zpl_i64 wide = 5; OK("zpl_array_init"); zpl_array_init(a, zpl_heap());
    while (k--) switch (vz_u(9)) {
        case 0: if (n || vz_pct(20)) { MUST(!n, "taking one off an array of %d", n); zpl_array_pop(a); n--; } break;
        case 1: if (vz_pct(15)) { MUST(1, "adding items of another size to an array"); zpl_array_appendv(a, shorts, vz_range(0, 3)); } break;
        case 2: if (vz_pct(15)) { MUST(1, "inserting items of another size into an array"); zpl_array_appendv_at(a, shorts, vz_range(0, 3), vz_u((uint64_t)n + 2)); } break;
        case 3: { int at = (int)vz_u((uint64_t)n + 2 - (n && vz_pct(80))); if (!n && vz_pct(80)) break; MUST(at >= n, "removing item %d of %d", at, n); zpl_array_remove_at(a, at); n--; } break;
        case 4: { int e = (int)vz_u((uint64_t)n + 2), f = (int)vz_u((uint64_t)e + 1) - vz_pct(5); MUST(f < 0 || e > n, "filling %d to %d of an array of %d", f, e, n); zpl_array_fill(a, f, e, 9); } break;
        case 5: if (vz_pct(15)) { MUST(1, "filling an array of %d with items of another size", n); zpl_array_fill(a, 0, n, wide); } break;
        case 6: { int w = (int)vz_u(5); OK("zpl_array_appendv"); zpl_array_appendv(a, items, w); n += w; } break;
        case 7: { int w = (int)vz_u(5); OK("zpl_array_appendv_at"); zpl_array_appendv_at(a, items, w, vz_u((uint64_t)n + 3)); n += w; } break;
        default: OK("zpl_array_append"); zpl_array_append(a, k); n++;
    }
    SAME(zpl_array_count(a) == n, "the array counts %lld instead of %d", (long long)zpl_array_count(a), n); OK("zpl_array_free"); zpl_array_free(a);
}
static void m_string(void) {
    char b[64] = "ab", c[64]; int nul = vz_pct(50); char *d = nul ? 0 : b;
    switch (vz_u(9)) {
        case 0: MUST(nul, "zpl_strcpy"); sink += zpl_strcpy(d, "text")[1]; break;
        case 1: MUST(nul, "zpl_strcat"); sink += zpl_strcat(d, "text")[1]; break;
        case 2: MUST(nul, "zpl_strncpy"); sink += zpl_strncpy(d, "text", 3)[1]; break;
        case 3: MUST(nul, "zpl_strlcpy"); sink += zpl_strlcpy(d, "text", 3); break;
        case 4: { int n = (int)vz_range(-1, 4); MUST(n <= 0, "zpl_strntok with room for %d", n); sink += *zpl_strntok(b, n, "one,two", ","); } break;
        case 5: { int la = (int)vz_u(20), lb = (int)vz_u(20), dl = la + lb + 1 + (int)vz_range(-2, 2); char *o; if (dl < 0) dl = 0; o = malloc((size_t)dl + !dl); memset(c, 'x', sizeof c); MUST(dl < la + lb + 1, "zpl_str_concat of %d and %d into %d", la, lb, dl); zpl_str_concat(o, dl, c, la, c + 20, lb); SAME((int)strlen(o) == la + lb, "joined to %d", (int)strlen(o)); } break;
        case 6: { char *r; MUST(nul, "zpl_strdup"); r = zpl_strdup(zpl_heap(), d, 2); SAME(!strcmp(r, "ab"), "copy '%s'", r); } break;
        case 7: { char *o = 0; MUST(nul, "zpl_asprintf"); sink += zpl_asprintf(zpl_heap(), nul ? 0 : &o, "%d", 5); } break;
        default: { const char *p = nul ? 0 : "a/b.c"; MUST(nul, "path functions"); switch (vz_u(4)) { case 0: sink += zpl_path_is_absolute(p); break; case 1: sink += *zpl_path_base_name(p); break; case 2: sink += !zpl_path_extension(p); break; default: sink += zpl_path_is_root(p); } }
    }
}
static zpl_adt_node *tree(void) { static zpl_adt_node r; static char txt[] = "{a=1,b=[1,2,{c=3}],d=\"x\",e={f=null}}"; zpl_u8 e = zpl_json_parse(&r, txt, zpl_heap()); SAME(e == 0, "parse %d", e); return &r; }
static void m_adt(void) {
    zpl_adt_node *r = tree(), *b = zpl_adt_query(r, "b"), *d = zpl_adt_query(r, "d"), *e = zpl_adt_query(r, "e"), *x; int nul = vz_pct(50);
    switch (vz_u(12)) {
        case 0: MUST(nul, "zpl_adt_query without a path"); x = zpl_adt_query(r, nul ? 0 : "b/1"); SAME(x == b->nodes + 1, "other node"); break;
        case 1: MUST(nul, "zpl_adt_remove_node of %s", nul ? "nothing" : "a node"); zpl_adt_remove_node(nul ? 0 : d); break;
        case 2: MUST(nul, "zpl_adt_remove_node of %s", nul ? "a root" : "a node"); zpl_adt_remove_node(nul ? r : b); break;
        case 3: MUST(nul, "zpl_adt_move_node into a %s", nul ? "leaf" : "branch"); x = zpl_adt_move_node(b->nodes, nul ? d : e); SAME(x, "not moved"); break;
        case 4: MUST(nul, "zpl_adt_move_node with an argument missing"); zpl_adt_move_node(nul && vz_pct(50) ? 0 : b->nodes, nul ? 0 : e); break;
        case 5: MUST(nul, "zpl_adt_move_node_at with an argument missing"); zpl_adt_move_node_at(nul ? 0 : b->nodes, e, 0); break;
        case 6: MUST(nul, "zpl_adt_swap_nodes with an argument missing"); { int w = (int)vz_u(2); zpl_adt_swap_nodes(nul && w ? 0 : b->nodes, nul && !w ? 0 : b->nodes + 2); } break;
        case 7: MUST(nul, "zpl_adt_destroy_branch of %s", nul ? "nothing" : "a tree"); zpl_adt_destroy_branch(nul ? 0 : r); break;
        case 8: { zpl_u8 t = vz_pct(50) ? ZPL_ADT_TYPE_STRING : vz_pct(50) ? ZPL_ADT_TYPE_OBJECT : ZPL_ADT_TYPE_ARRAY; zpl_adt_node n = {0}; MUST(t == ZPL_ADT_TYPE_OBJECT || t == ZPL_ADT_TYPE_ARRAY, "zpl_adt_make_leaf of type %d", t); zpl_adt_make_leaf(&n, "n", t); } break;
        case 9: { zpl_adt_node n = {0}; char t[] = "12"; int w = (int)vz_u(4); MUST(nul, "parsing a number with an argument missing"); if (w & 1) zpl_adt_parse_number(nul && w & 2 ? 0 : &n, nul && !(w & 2) ? 0 : t); else zpl_adt_parse_number_strict(nul && w & 2 ? 0 : &n, nul && !(w & 2) ? 0 : t); if (!nul) SAME(n.integer == 12, "parsed"); } break;
        case 10: { zpl_file f; int w = (int)vz_u(2); zpl_file_stream_new(&f, zpl_heap()); MUST(nul, "zpl_adt_print_number with an argument missing"); zpl_adt_print_number(nul && w ? 0 : &f, nul && !w ? 0 : zpl_adt_query(r, "a")); zpl_file_close(&f); } break;
        default: { zpl_file f; int w = (int)vz_u(4); zpl_file_stream_new(&f, zpl_heap()); MUST(nul, "zpl_adt_print_string with an argument missing"); zpl_adt_print_string(nul && !w ? 0 : &f, nul && w == 1 ? 0 : d, nul && w >= 2 ? 0 : "\"", "\\"); zpl_file_close(&f); }
    }
}
static void m_text(void) {
    zpl_adt_node n = {0}, *r; int nul = vz_pct(50), w = (int)vz_u(2); char t[] = "a,b\n1,2\n", u[] = "?a=1&b=2", j[] = "{\"a\":1}"; zpl_file f; zpl_file_stream_new(&f, zpl_heap());
    switch (vz_u(8)) {
        case 0: MUST(nul, "zpl_csv_parse with an argument missing"); sink += zpl_csv_parse(nul && w ? 0 : &n, nul && !w ? 0 : t, zpl_heap(), true); break;
        case 1: MUST(nul, "zpl_json_parse with an argument missing"); sink += zpl_json_parse(nul && w ? 0 : &n, nul && !w ? 0 : j, zpl_heap()); break;
        case 2: MUST(nul, "zpl_uri_parse with an argument missing"); sink += zpl_uri_parse(nul && w ? 0 : &n, nul && !w ? 0 : u, zpl_heap()); break;
        case 3: zpl_csv_parse(&n, t, zpl_heap(), true); MUST(nul, "zpl_csv_write with an argument missing"); zpl_csv_write(nul && w ? 0 : &f, nul && !w ? 0 : &n); break;
        case 4: zpl_uri_parse(&n, u, zpl_heap()); MUST(nul, "zpl_uri_write with an argument missing"); zpl_uri_write(nul && w ? 0 : &f, nul && !w ? 0 : &n); break;
        case 5: r = tree(); MUST(nul, "zpl_json_write of a %s", nul ? "number" : "tree"); sink += zpl_json_write(&f, nul ? zpl_adt_query(r, "a") : r, 0); break;
        case 6: r = tree(); MUST(nul, "zpl_uri_write of a %s", nul ? "list" : "table"); zpl_uri_write(&f, nul ? zpl_adt_query(r, "b") : r); break;
        default: { const char *p[3] = {0, scratch, 0}; int np = (int)vz_u(4), gap = np == 1 || np == 3; close(open(scratch, O_CREAT | O_WRONLY, 0600)); MUST(nul || gap, "zpl_tar_pack of %s", nul ? "no list" : gap ? "a list with a gap" : "files"); if (np == 2) { p[0] = scratch; } else if (np == 3) { p[0] = scratch; } sink += zpl_tar_pack(&f, nul ? 0 : p, np); }
    }
}
static zpl_sync sy; static zpl_isize waits(zpl_thread *t) { (void)t; zpl_sync_reach_and_wait(&sy); return 0; }
static zpl_isize idles(zpl_thread *t) { (void)t; for (;;) zpl_sleep_ms(5); return 0; } static zpl_isize quick(zpl_thread *t) { (void)t; return 3; }
static void job(void *p) { (void)p; }
static void m_threads(void) {
    zpl_thread t, u; int bad = vz_pct(50); zpl_jobs_system js; int i;
    switch (vz_u(6)) {
        case 0: zpl_thread_init(&t); OK("zpl_thread_start"); zpl_thread_start(&t, bad ? idles : quick, 0); if (!bad) zpl_thread_join(&t); MUST(bad, "starting a thread %s", bad ? "that runs" : "again"); zpl_thread_start(&t, quick, 0); zpl_thread_join(&t); SAME(t.return_value == 3, "returned"); zpl_thread_destroy(&t); break;
        case 1: zpl_thread_init(&t); MUST(bad, "starting a thread %s", bad ? "without a function" : ""); zpl_thread_start(&t, bad ? 0 : quick, 0); zpl_thread_destroy(&t); break;
        case 2: zpl_sync_init(&sy); if (bad && vz_pct(50)) { MUST(1, "reaching a barrier with no target"); if (vz_pct(50)) zpl_sync_reach(&sy); else zpl_sync_reach_and_wait(&sy); }
            { int n = (int)vz_range(1, 5); OK("zpl_sync_set_target"); zpl_sync_set_target(&sy, n); for (i = 0; i < n; i++) { OK("zpl_sync_reach %d of %d", i + 1, n); zpl_sync_reach(&sy); } if (bad) { MUST(1, "reaching a barrier of %d once more", n); if (vz_pct(50)) zpl_sync_reach(&sy); else zpl_sync_reach_and_wait(&sy); } OK("zpl_sync_destroy"); zpl_sync_destroy(&sy); } break;
        case 3: zpl_sync_init(&sy); OK("zpl_sync_set_target"); zpl_sync_set_target(&sy, 2); zpl_thread_init(&u); zpl_thread_start(&u, waits, 0); for (;;) { int k; zpl_mutex_lock(&sy.mutex); k = sy.waiting; zpl_mutex_unlock(&sy.mutex); if (k) break; zpl_sleep_ms(1); }
            if (!bad) { zpl_sync_reach(&sy); zpl_thread_join(&u); } MUST(bad, "destroying a barrier %s", bad ? "with a thread waiting" : "nobody waits at"); zpl_sync_destroy(&sy); break;
        case 4: { int p = (int)vz_range(-1, ZPL_JOBS_MAX_PRIORITIES); int out = p < 0 || p >= ZPL_JOBS_MAX_PRIORITIES; OK("zpl_jobs_init"); zpl_jobs_init(&js, zpl_heap(), 1); MUST(out, "job priority %d", p); switch (vz_u(3)) { case 0: zpl_jobs_enqueue_with_priority(&js, job, 0, (zpl_jobs_priority)p); break; case 1: sink += zpl_jobs_empty(&js, (zpl_jobs_priority)p); break; default: sink += zpl_jobs_full(&js, (zpl_jobs_priority)p); } zpl_jobs_free(&js); } break;
        default: OK("zpl_jobs_init"); zpl_jobs_init(&js, zpl_heap(), 1); MUST(bad, "a job %s", bad ? "without a function" : ""); zpl_jobs_enqueue(&js, bad ? 0 : job, 0); while (!zpl_jobs_empty(&js, ZPL_JOBS_PRIORITY_NORMAL)) zpl_jobs_process(&js); zpl_jobs_free(&js);
    }
}
static void m_system(void) {
    zpl_file f; int bad = vz_pct(50);
    switch (vz_u(7)) {
        case 0: { int64_t n = vz_pct(50) ? vz_range(-3, 1) : vz_range(1, 90000); zpl_virtual_memory v; MUST(n <= 0, "%lld bytes of virtual memory", (long long)n); v = zpl_vm_alloc(0, n); SAME(v.data, "none"); zpl_vm_free(v); } break;
        case 1: { int64_t pg = zpl_virtual_memory_page_size(0), all = pg * vz_range(1, 6), lead = pg * (int64_t)vz_u(5), n = pg * (int64_t)vz_range(1, 5); zpl_virtual_memory v = zpl_vm_alloc(0, all); MUST(lead + n > all, "keeping %lld after %lld of %lld bytes", (long long)n, (long long)lead, (long long)all); v = zpl_vm_trim(v, lead, n); SAME(v.size == n, "size"); memset(v.data, 1, (size_t)n); zpl_vm_free(v); } break;
        case 2: { static const zpl_u32 m[] = {0, ZPL_FILE_MODE_RW, ZPL_FILE_MODE_READ | ZPL_FILE_MODE_WRITE, ZPL_FILE_MODE_READ | ZPL_FILE_MODE_APPEND, ZPL_FILE_MODE_WRITE | ZPL_FILE_MODE_APPEND, ZPL_FILE_MODE_READ | ZPL_FILE_MODE_WRITE | ZPL_FILE_MODE_RW, ZPL_FILE_MODE_READ, ZPL_FILE_MODE_READ | ZPL_FILE_MODE_RW, ZPL_FILE_MODE_WRITE, ZPL_FILE_MODE_WRITE | ZPL_FILE_MODE_RW, ZPL_FILE_MODE_APPEND, ZPL_FILE_MODE_APPEND | ZPL_FILE_MODE_RW}; int i = (int)vz_u(12); close(open(scratch, O_CREAT | O_WRONLY, 0600)); MUST(i < 6, "opening a file in mode %u", m[i]); SAME(zpl_file_open_mode(&f, m[i], scratch) == ZPL_FILE_ERROR_NONE, "refused"); zpl_file_close(&f); } break;
        case 3: { zpl_file_contents c; FILE *o = fopen(scratch, "wb"); fputs("hello", o); fclose(o); c = zpl_file_read_contents(zpl_heap(), true, scratch); SAME(c.data && c.size == 5, "contents"); if (bad && vz_pct(50)) zpl_file_free_contents(&c); else if (bad) { zpl_free(zpl_heap(), c.data); c.data = 0; } MUST(bad, "freeing the contents of a file %s", bad ? "already freed" : ""); zpl_file_free_contents(&c); } break;
        case 4: MUST(bad, "a folder listing %s", bad ? "into nothing" : ""); { zpl_dir_info d; zpl_dirinfo_init(bad ? 0 : &d, vz_dir); zpl_dirinfo_free(&d); } break;
        case 5: MUST(bad, "a memory file %s", bad ? "into nothing" : ""); { zpl_u8 b[10] = {0}; if (vz_pct(50)) sink += zpl_file_stream_new(bad ? 0 : &f, zpl_heap()); else sink += zpl_file_stream_open(bad ? 0 : &f, zpl_heap(), b, 10, ZPL_FILE_STREAM_WRITABLE); zpl_file_close(&f); } break;
        default: { zpl_isize n; zpl_file_stream_new(&f, zpl_heap()); zpl_file_write(&f, "abc", 3); if (bad) { zpl_u64 *m = f.fd.p; static char fake[400]; (void)m; if (vz_pct(50)) f.fd.p = fake; else { MUST(1, "the contents of no memory file"); zpl_file_stream_buf(0, &n); } } MUST(bad, "the contents of something that is no memory file"); sink += *zpl_file_stream_buf(&f, &n); SAME(n == 3, "size"); zpl_file_close(&f); }
    }
}
#ifdef ZPL_HEAP_ANALYSIS
static void m_heap(void) {
    void *b[40]; int n = 0, k = 20; zpl_isize used = 0, sz[40];
    if (vz_pct(10)) { MUST(1, "heap statistics before they are set up"); switch (vz_u(3)) { case 0: sink += zpl_heap_stats_used_memory(); break; case 1: sink += zpl_heap_stats_alloc_count(); break; default: zpl_heap_stats_check(); } }
    OK("zpl_heap_stats_init"); zpl_heap_stats_init();
    while (k--) switch (vz_u(5)) {
        case 0: case 1: sz[n] = vz_range(1, 500); OK("heap alloc"); b[n] = zpl_alloc(zpl_heap(), sz[n]); used += sz[n]; n++; break;
        case 2: if (n) { OK("heap free"); n--; used -= sz[n]; zpl_free(zpl_heap(), b[n]); } break;
        case 3: if (n && vz_pct(50)) { int i = (int)vz_u((uint64_t)n); zpl_isize w = vz_range(1, 700); OK("heap resize"); b[i] = zpl_resize(zpl_heap(), b[i], sz[i], w); used += w - sz[i]; sz[i] = w; } break;
        default: SAME(zpl_heap_stats_alloc_count() == n && zpl_heap_stats_used_memory() >= used, "%lld blocks and %lld bytes, expected %d and %lld", (long long)zpl_heap_stats_alloc_count(), (long long)zpl_heap_stats_used_memory(), n, (long long)used); if (vz_pct(40)) { MUST(n, "checking the heap with %d blocks in use", n); zpl_heap_stats_check(); }
    }
    while (n) { OK("heap free"); zpl_free(zpl_heap(), b[--n]); } OK("zpl_heap_stats_check"); zpl_heap_stats_check();
}
#endif
static void t_misuse(void) {
    static const struct { const char *n; void (*f)(void); } m[] = {{"alignment", m_align}, {"arena", m_arena}, {"pool", m_pool}, {"scratch memory", m_scratch}, {"stack memory", m_stack}, {"table", m_table}, {"buffer", m_buffer}, {"array", m_array}, {"text", m_string}, {"tree", m_adt}, {"parsers", m_text}, {"threads", m_threads}, {"system", m_system},
#ifdef ZPL_HEAP_ANALYSIS
      {"heap", m_heap}, {"heap", m_heap}, {"heap", m_heap},
#endif
    };
    int times = 6;
    while (times--) { unsigned i = (unsigned)vz_u(sizeof m / sizeof *m); memset(sh, 0, sizeof *sh); vz_r(); vz_cur = m[i].n; run(m[i].f); outcome(m[i].n); vz_distinct(vz_hash(sh->what, strlen(sh->what), i)); vz_stat("library calls tried", (uint64_t)sh->steps); }
}
static void setup(void) { if (!sh) { sh = mmap(0, sizeof *sh, PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0); } snprintf(errp, sizeof errp, "%s/err", vz_dir); snprintf(scratch, sizeof scratch, "%s/file", vz_dir); }
static void s_user(void) { setup(); t_user(); } static void s_exit(void) { setup(); t_exit(); } static void s_misuse(void) { setup(); t_misuse(); }
VZ_MAIN({"assertions", s_user, 3}, {"leaving", s_exit, 1}, {"misuse", s_misuse, 6})
