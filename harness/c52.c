/* C52: threads that use objects of their own, or only read shared ones, get the answers they would get alone. */
#define _GNU_SOURCE
#include "vzt.h"
static __thread char *ob; static __thread size_t on, oc; static __thread int who;
#define W_TLS __thread
#define W_NOMAIN
#define C50_CONSUMER
#define C50_HAVE (1 | 2 | 4 | 8 | 16 | 128 | 256 | 512)
#define W_EMIT(f, va) emit(I_SEC_K, f, va)
static void emit(int i, const char *s, int k, const char *f, va_list va) { if (oc - on < 20000) ob = realloc(ob, oc = oc * 2 + 60000); on += (size_t)sprintf(ob + on, "%d %s.%d ", i, s, k); on += (size_t)vsnprintf(ob + on, 19000, f, va); ob[on++] = '\n'; ob[on] = 0; vt_step(); if ((k & 7) == 0) sched_yield(); }
#define I_SEC_K I, SEC, K++
#define W_TMP(b, n) (void)(n), sprintf(b, "%s/t%d.tmp", vz_dir, who)
#include "c50w.c"
#define MAXT 8
static u64t tseed[MAXT]; static int lo_, hi_; static char *want[MAXT]; static size_t wantn[MAXT];
static char *answers(u64t seed, size_t *n) { char *r; int i; on = 0; for (i = lo_; i < hi_; i++) { I = i; w_round(seed); } r = ob; *n = on; ob = 0; on = oc = 0; return r; }
static void w_thread(int no, void *u) {
    char *a; size_t n, i; (void)u; who = no + 1; vt_delay(1); a = answers(tseed[no], &n);
    for (i = 0; i < n && i < wantn[no] && a[i] == want[no][i]; i++) ;
    if (n != wantn[no] || i < n) { size_t b = i; const char *e; while (b && a[b - 1] != '\n') b--; e = strchr(a + b, '\n'); VT_CHECK(0, "disturbed", "thread %d answered '%.*s', alone it answers '%.*s'", no, (int)(e ? e - (a + b) > 150 ? 150 : e - (a + b) : 0), a + b, 150, want[no] + b); }
    free(a);
}
static void t_workload(void) {
    int n = (int)vz_range(2, 6), i; uint64_t h = 1; lo_ = (int)vz_u(100000); hi_ = lo_ + (int)vz_range(1, 2);
    for (i = 0; i < n; i++) { tseed[i] = vz_r(); who = 0; want[i] = answers(tseed[i], &wantn[i]); h = vz_hash(want[i], wantn[i], h); }
    vt_begin("workload"); vt_threads(n, w_thread, 0);
    for (i = 0; i < n; i++) { size_t j; uint64_t c = 0; for (j = 0; j < wantn[i]; j++) c += want[i][j] == '\n'; vz_stat("answers compared", c); free(want[i]); }
    vt_end(); vz_distinct(h);
}
/* ---------------------------------------------------------------- hidden state */
typedef struct { zpl_i32 a; zpl_f32 f; zpl_i32 b; zpl_u8 c, d; zpl_i16 e, g; zpl_i64 x; zpl_f64 y; const char *s, *t; zpl_isize z, w; zpl_i32 k; zpl_f32 f2; zpl_f64 y2; zpl_i64 x2; } rec;
static void mkrec(rec *r) { int i; char *p = (char *)r; static const char *const W[] = { "fig", "apple", "", "pear", "figs", "zoo", "kiwi", "Kiwi" }; for (i = 0; i < (int)sizeof *r; i++) p[i] = 0; r->a = (zpl_i32)vz_range(-50, 50); r->b = (zpl_i32)vz_r(); r->k = (zpl_i32)vz_range(0, 3); r->f = (float)vz_range(-100, 100) / 4; r->f2 = (float)vz_range(-9, 9); r->c = (zpl_u8)vz_r(); r->d = (zpl_u8)vz_u(4); r->e = (zpl_i16)vz_r(); r->g = (zpl_i16)vz_range(-3, 3); r->x = (zpl_i64)vz_r(); r->x2 = vz_range(-9, 9); r->y = (double)vz_range(-1000, 1000) / 8; r->y2 = -r->y; r->s = W[vz_u(8)]; r->t = W[vz_u(8)]; r->z = (zpl_isize)vz_r(); r->w = -r->z; }
static uint64_t rsum(const rec *r, int n) { uint64_t s = 0; while (n--) s += vz_hash(r++, sizeof *r, 0); return s; }
#define FIELD(CMP, F) { cmp = CMP(zpl_offset_of(rec, F)); nm = #CMP "(" #F ")"; zpl_sort(r, n, sizeof *r, cmp); for (i = 1; i < n; i++) ok &= !(r[i - 1].F > r[i].F); { int at = (int)vz_u((uint64_t)n); zpl_isize p = zpl_binary_search(r, n, sizeof *r, r + at, cmp); ok2 = p >= 0 && p < n && r[p].F == r[at].F; } }
static void op_sort(int no) {
    int n = (int)vz_range(2, 60), i, ok = 1, ok2 = 1; rec r[60]; uint64_t s; const char *nm = ""; zpl_compare_proc *cmp;
    for (i = 0; i < n; i++) mkrec(r + i);
    s = rsum(r, n);
    switch (vz_u(16)) {
        case 0: FIELD(zpl_i32_cmp, a) break; case 1: FIELD(zpl_i32_cmp, b) break; case 2: FIELD(zpl_i32_cmp, k) break; case 3: FIELD(zpl_f32_cmp, f) break; case 4: FIELD(zpl_f32_cmp, f2) break; case 5: FIELD(zpl_u8_cmp, c) break; case 6: FIELD(zpl_u8_cmp, d) break; case 7: FIELD(zpl_i16_cmp, e) break; case 8: FIELD(zpl_i16_cmp, g) break;
        case 9: FIELD(zpl_i64_cmp, x) break; case 10: FIELD(zpl_i64_cmp, x2) break; case 11: FIELD(zpl_f64_cmp, y) break; case 12: FIELD(zpl_f64_cmp, y2) break; case 13: FIELD(zpl_isize_cmp, z) break; case 14: FIELD(zpl_isize_cmp, w) break;
        default: { int t = vz_pct(50); cmp = zpl_str_cmp(t ? zpl_offset_of(rec, t) : zpl_offset_of(rec, s)); nm = "zpl_str_cmp"; zpl_sort(r, n, sizeof *r, cmp); for (i = 1; i < n; i++) ok &= strcmp(t ? r[i - 1].t : r[i - 1].s, t ? r[i].t : r[i].s) <= 0; }
    }
    VT_CHECK(ok, "sort", "thread %d sorted %d records by %s and they are out of order", no, n, nm); VT_CHECK(ok2, "search", "thread %d searched %d records by %s and missed", no, n, nm);
    VT_CHECK(rsum(r, n) == s, "sort", "thread %d sorted by %s and lost records", no, nm);
}
static int usejobs;
static void jb_add(void *p) { vt_add((int *)p, 1); }
static int own_ops;
static void op_one(int no) {
    char a[600], b[600]; int i, n = (int)vz_u(40); unsigned x = (unsigned)vz_r();
    switch (vz_u(14)) {
        case 0: case 1: case 2: op_sort(no); break;
        case 3: { char *r; snprintf(a, sizeof a, "%d:%u:%s", no, x, "text"); r = zpl_bprintf("%d:%u:%s", no, x, "text"); vt_delay(1); VT_CHECK(!strcmp(r, a), "text", "thread %d: zpl_bprintf's text '%s' became '%.60s'", no, a, r); } break;
        case 4: { zpl_u16 w[60], *p; for (i = 0; i < n; i++) { a[i] = (char)('a' + vz_u(26)); w[i] = (zpl_u16)a[i]; } a[n] = 0; w[n] = 0; p = zpl_utf8_to_ucs2_buf((zpl_u8 *)a); vt_delay(1); VT_CHECK(p && !memcmp(p, w, (size_t)(n + 1) * 2), "text", "thread %d: text widened into the library's buffer changed", no); } break;
        case 5: { zpl_u16 w[60]; char *p; for (i = 0; i < n; i++) { a[i] = (char)('A' + vz_u(26)); w[i] = (zpl_u16)a[i]; } a[n] = 0; w[n] = 0; p = (char *)zpl_ucs2_to_utf8_buf(w); vt_delay(1); VT_CHECK(p && !strcmp(p, a), "text", "thread %d: text narrowed into the library's buffer is '%.60s', not '%s'", no, p ? p : "", a); } break;
        case 6: { zpl_string s = zpl_string_make(zpl_heap(), "<"); snprintf(a, sizeof a, "<%u-%d>", x, n); s = zpl_string_append_fmt(s, "%u-%d>", x, n); VT_CHECK(!strcmp(s, a), "text", "thread %d appended '%s' instead of '%s'", no, s, a); zpl_string_free(s); } break;
        case 7: { const char *e; snprintf(a, sizeof a, "VZ_T%d", no); snprintf(b, sizeof b, "value of %d", no); e = zpl_get_env_buf(a); vt_delay(0); VT_CHECK(e && !strcmp(e, b), "environment", "thread %d read '%s'", no, e ? e : "(nothing)"); { const char *c = zpl_get_env(a); VT_CHECK(c && !strcmp(c, b), "environment", "thread %d read '%s'", no, c ? c : "(nothing)"); zpl_mfree((void *)c); } } break;
        case 8: { zpl_file f; zpl_file_error e = zpl_file_temp(&f); VT_CHECK(e == 0, "temporary", "thread %d could not create a temporary file: %d", no, e); if (e) break; snprintf(a, sizeof a, "%d %u", no, x); zpl_file_write(&f, a, (zpl_isize)strlen(a)); vt_delay(0); memset(b, 0, sizeof b); zpl_file_read_at(&f, b, 100, 0); VT_CHECK(!strcmp(a, b), "temporary", "thread %d read back '%.60s'", no, b); zpl_file_close(&f); } break;
        case 9: { zpl_random r1, r2; zpl_random_init(&r1); r2 = r1; for (i = 0; i < 20; i++) { zpl_u64 u = zpl_random_gen_u64(&r1); vt_delay(0); VT_CHECK(u == zpl_random_gen_u64(&r2), "random", "thread %d: equal states drew differently", no); } } break;
        case 10: { zpl_f64 t = zpl_time_rel(), t2; zpl_u64 m = zpl_time_rel_ms(); vt_delay(0); t2 = zpl_time_rel(); VT_CHECK(t2 >= t && zpl_time_rel_ms() >= m, "time", "thread %d saw time go back", no); } break;
        case 11: { char *p; zpl_file_contents c; snprintf(a, sizeof a, "%s/own%d", vz_dir, no); snprintf(b, sizeof b, "%d %u %d", no, x, n); VT_CHECK(zpl_file_write_contents(a, b, (zpl_isize)strlen(b), NULL), "file", "thread %d could not write", no); c = zpl_file_read_contents(zpl_heap(), 1, a); VT_CHECK(c.data && !strcmp((char *)c.data, b), "file", "thread %d read other contents", no); if (c.data) zpl_file_free_contents(&c); p = zpl_path_get_full_name(zpl_heap(), a); VT_CHECK(p && strstr(p, a + strlen(vz_dir)), "path", "thread %d: full name '%s'", no, p ? p : ""); if (p) zpl_mfree(p); } break;
        case 12: { zpl_dir_info d; int found = 0; snprintf(a, sizeof a, "%s/dir%d", vz_dir, no); zpl_dirinfo_init(&d, a); for (i = 0; i < zpl_array_count(d.entries); i++) { const char *q = strrchr(d.entries[i].filename, '/'); q = q ? q + 1 : d.entries[i].filename; snprintf(b, sizeof b, "mine%d", no); found += !strncmp(q, b, strlen(b)); } VT_CHECK(found == 3 && zpl_array_count(d.entries) == 3, "listing", "thread %d listed %d of its 3 files among %d", no, found, (int)zpl_array_count(d.entries)); zpl_dirinfo_free(&d); } break;
        default: if (usejobs && vz_pct(15)) { zpl_jobs_system p; int sum = 0, m = (int)vz_range(1, 20); zpl_jobs_init_with_limit(&p, zpl_heap(), 2, 32); for (i = 0; i < m; i++) zpl_jobs_enqueue(&p, jb_add, &sum); while (!zpl_jobs_done(&p)) zpl_jobs_process(&p); VT_CHECK(vt_ld(&sum) == m, "jobs", "thread %d's own job system ran %d of %d jobs", no, vt_ld(&sum), m); zpl_jobs_free(&p); }
            else { VT_CHECK(zpl_thread_current_id() != 0, "thread", "no id"); } break;
    }
    vt_add(&own_ops, 1); vt_step();
}
static void s_thread(int no, void *u) { int i, n = *(int *)u; for (i = 0; i < n; i++) { op_one(no); vt_delay(0); } }
static void t_hidden(void) {
    int n = (int)vz_range(2, 6), k = (int)vz_range(5, 60), i, j; char a[800], b[60];
    for (i = 0; i < MAXT; i++) { FILE *f; snprintf(a, sizeof a, "VZ_T%d", i); snprintf(b, sizeof b, "value of %d", i); setenv(a, b, 1); snprintf(a, sizeof a, "%s/dir%d", vz_dir, i); if (mkdir(a, 0700) == 0) for (j = 0; j < 3; j++) { snprintf(a, sizeof a, "%s/dir%d/mine%d-%d", vz_dir, i, i, j); f = fopen(a, "w"); if (f) fclose(f); } }
    usejobs = vz_pct(40); own_ops = 0;
    vt_begin("hidden state"); vt_threads(n, s_thread, &k); vt_end(); vz_stat("operations on own objects", (uint64_t)own_ops); vz_distinct(vz_r());
}
/* ---------------------------------------------------------------- shared, only read */
static zpl_adt_node root; static w_tbl tbl; static zpl_re re; static zpl_opts op; static zpl_string ss; static char *sj; static zpl_array(zpl_i32) arr; static char jtxt[6000]; static zpl_mat4 mat; static int nkeys; static zpl_i64 *keyv;
static char *rwant[MAXT]; static int shared_ops;
static char *look(uint64_t seed, int slow) { /* answers to a fixed series of questions */
    char *o = malloc(60000); size_t k = 0; int i; uint64_t sv = vz_s; vz_s = seed; o[0] = 0;
    for (i = 0; i < 25 && k < 50000; i++) {
        unsigned q = (unsigned)vz_u(12), w = (unsigned)vz_u((uint64_t)nkeys); char key[40];
        switch (q) {
            case 0: { zpl_adt_node *n; snprintf(key, sizeof key, "k%u", w); n = zpl_adt_find(&root, key, 0); k += (size_t)sprintf(o + k, "f%u %d\n", w, n ? n->type : -1); } break;
            case 1: { zpl_adt_node *n; snprintf(key, sizeof key, "k%u/in", w); n = zpl_adt_query(&root, key); k += (size_t)sprintf(o + k, "q%u %lld\n", w, n ? (long long)n->integer : -1); } break;
            case 2: { zpl_adt_node *n; snprintf(key, sizeof key, "list/[id=%u]", w); n = zpl_adt_query(&root, key); k += (size_t)sprintf(o + k, "s%u %d\n", w, n ? (int)n->type : -1); } break;
            case 3: { zpl_string s = zpl_json_write_string(zpl_heap(), &root, 0); k += (size_t)sprintf(o + k, "w%016llx\n", (unsigned long long)vz_hash(s, strlen(s), 0)); zpl_string_free(s); } break;
            case 4: { zpl_i64 *v = w_tbl_get(&tbl, (zpl_u64)w * 3); k += (size_t)sprintf(o + k, "t%u %lld\n", w, v ? (long long)*v : -1); } break;
            case 5: { zpl_re_capture c[4]; zpl_isize off = -1; int m; snprintf(key, sizeof key, "xx%uab%u", w, w % 7); memset(c, 0, sizeof c); m = zpl_re_match(&re, key, (zpl_isize)strlen(key), c, 4, &off); k += (size_t)sprintf(o + k, "r%u %d %ld %ld\n", w, m, (long)off, c[0].str ? (long)(c[0].str - key) : -1L); } break;
            case 6: k += (size_t)sprintf(o + k, "o %lld %s %d\n", (long long)zpl_opts_integer(&op, "num", 0), zpl_opts_has_arg(&op, "foo") ? zpl_opts_string(&op, "foo", "") : "-", (int)zpl_opts_has_arg(&op, "verbose")); break;
            case 7: { zpl_string d = zpl_string_duplicate(zpl_heap(), ss); k += (size_t)sprintf(o + k, "d %d %ld\n", (int)zpl_string_are_equal(d, ss), (long)zpl_string_length(d)); zpl_string_free(d); } break;
            case 8: { zpl_i32 v = (zpl_i32)w; zpl_isize p = zpl_binary_search(arr, zpl_array_count(arr), sizeof *arr, &v, zpl_i32_cmp(0)); k += (size_t)sprintf(o + k, "b%u %ld\n", w, (long)(p >= 0 ? arr[p] : -1)); } break;
            case 9: { zpl_mat4 inv; zpl_mat4_inverse(&inv, &mat); k += (size_t)sprintf(o + k, "m %016llx\n", (unsigned long long)vz_hash(&inv, sizeof inv, 0)); } break;
            case 10: { zpl_u8 *p = zpl_base64_encode(zpl_heap(), jtxt, 60); k += (size_t)sprintf(o + k, "e %s %x %x\n", (char *)p, zpl_crc32(jtxt, 99), zpl_murmur32(jtxt, 99)); zpl_mfree(p); } break;
            default: { zpl_string s = zpl_adt_query(&root, "list") ? zpl_string_make(zpl_heap(), "") : NULL; zpl_file f; zpl_u8 *bb; zpl_isize sz; memset(&f, 0, sizeof f); zpl_file_stream_new(&f, zpl_heap()); zpl_adt_print_number(&f, zpl_adt_query(&root, "num")); bb = zpl_file_stream_buf(&f, &sz); k += (size_t)sprintf(o + k, "p %.*s\n", (int)sz, (char *)bb); zpl_file_close(&f); if (s) zpl_string_free(s); } break;
        }
        if (slow) { uint64_t mine = vz_s; vt_delay(0); vz_s = mine; vt_step(); vt_add(&shared_ops, 1); }
    }
    vz_s = sv; return o;
}
static void r_thread(int no, void *u) { int k = *(int *)u, i; for (i = 0; i < k; i++) { char *o = look(tseed[no], 1); if (strcmp(o, rwant[no])) { size_t j = 0, b; while (o[j] == rwant[no][j]) j++; b = j; while (b && o[b - 1] != '\n') b--; VT_CHECK(0, "shared-read", "thread %d reading shared objects found '%.*s' instead of '%.*s'", no, (int)strcspn(o + b, "\n"), o + b, (int)strcspn(rwant[no] + b, "\n"), rwant[no] + b); } free(o); } }
static void t_shared(void) {
    int n = (int)vz_range(2, 6), k = (int)vz_range(1, 5), i; size_t l = 0; char *av[5]; char a1[] = "--num=42", a2[] = "--foo=text", a3[] = "-v", a0[] = "app"; uint64_t h = 1;
    nkeys = (int)vz_range(2, 40); l = (size_t)sprintf(jtxt, "{\"num\": %d, \"list\": [", (int)vz_range(-999, 999)); for (i = 0; i < nkeys; i++) l += (size_t)sprintf(jtxt + l, "%s{\"id\": %d, \"v\": %d.5}", i ? "," : "", (int)vz_u((uint64_t)nkeys), i); l += (size_t)sprintf(jtxt + l, "]"); for (i = 0; i < nkeys; i++) l += (size_t)sprintf(jtxt + l, ", \"k%d\": {\"in\": %d, \"s\": \"a\\n%d\"}", i, i * 7, i); sprintf(jtxt + l, "}");
    sj = strdup(jtxt); VZ_CHECK(zpl_json_parse(&root, sj, zpl_heap()) == ZPL_JSON_ERROR_NONE, "parse", "failed on %s", jtxt);
    w_tbl_init(&tbl, zpl_heap()); for (i = 0; i < nkeys; i++) w_tbl_set(&tbl, (zpl_u64)vz_u((uint64_t)nkeys) * 3, i);
    VZ_CHECK(zpl_re_compile(&re, zpl_heap(), "([0-9]+)ab?", 11) == 0, "regex", "failed");
    zpl_opts_init(&op, zpl_heap(), "app"); zpl_opts_add(&op, "f", "foo", "x", ZPL_OPTS_STRING); zpl_opts_add(&op, "n", "num", "x", ZPL_OPTS_INT); zpl_opts_add(&op, "v", "verbose", "x", ZPL_OPTS_FLAG); av[0] = a0; av[1] = a1; av[2] = a2; av[3] = a3; av[4] = 0; zpl_opts_compile(&op, 4, av);
    ss = zpl_string_make(zpl_heap(), jtxt); zpl_array_init(arr, zpl_heap()); for (i = 0; i < nkeys; i++) if (vz_pct(60)) zpl_array_append(arr, i); zpl_mat4_look_at(&mat, zpl_vec3f(1, 2, (float)nkeys), zpl_vec3f(0, 0, 0), zpl_vec3f(0, 1, 0));
    for (i = 0; i < n; i++) { tseed[i] = vz_r(); rwant[i] = look(tseed[i], 0); h = vz_hash(rwant[i], strlen(rwant[i]), h); }
    shared_ops = 0; vt_begin("shared reads"); vt_threads(n, r_thread, &k); for (i = 0; i < n; i++) free(rwant[i]);
    zpl_json_free(&root); free(sj); w_tbl_destroy(&tbl); zpl_re_destroy(&re); zpl_opts_free(&op); zpl_string_free(ss); zpl_array_free(arr);
    vt_end(); vz_stat("reads of shared objects", (uint64_t)shared_ops); vz_distinct(h);
}
VZ_MAIN({"workload", t_workload, 2}, {"hidden state", t_hidden, 4}, {"shared reads", t_shared, 3})
