/* C49: every allocation of an operation fails in turn, once or from there on.
 * The operation must report the failure or complete exactly as without it. */
#include "vz.h"
#include "jsongen.h"
#include <sys/wait.h>
static vz_track T; static zpl_allocator A; static char *res; static size_t rl, rc; static uint64_t plan; static int failing; static int once; static const char *opname = "";
static void rput(const void *p, size_t n) { if (rl + n + 1 > rc) { rc = (rl + n + 1) * 2; res = (char *)realloc(res, rc); } memcpy(res + rl, p, n); rl += n; res[rl] = 0; }
static void rfmt(const char *f, ...) { char b[400]; va_list v; va_start(v, f); vsnprintf(b, sizeof b, f, v); va_end(v); rput(b, strlen(b) + 1); }
#define WHERE "%s, request %llu failing%s: "
#define AT opname, (unsigned long long)T.fail_at, once ? "" : " and all after it"
static void dump(zpl_adt_node *n) { /* everything a reader of the tree sees */
    rfmt("%d|%s|%d|", n->type, n->name ? n->name : "\001", (int)n->props); if (n->name) rput(n->name, strlen(n->name) + 1);
    switch (n->type) { case ZPL_ADT_TYPE_OBJECT: case ZPL_ADT_TYPE_ARRAY: { zpl_isize i; rfmt("%lld", (long long)zpl_array_count(n->nodes)); for (i = 0; i < zpl_array_count(n->nodes); i++) { VZ_CHECK(n->nodes[i].parent == n, "parent", WHERE "a node does not point at its parent", AT); dump(n->nodes + i); } break; }
        case ZPL_ADT_TYPE_STRING: case ZPL_ADT_TYPE_MULTISTRING: rput(n->string, strlen(n->string) + 1); break; case ZPL_ADT_TYPE_INTEGER: rput(&n->integer, 8); break; case ZPL_ADT_TYPE_REAL: rput(&n->real, 8); break; default: break; } }
/* a step whose failure is reported must be due to a failed request; it can be tried again unless requests go on failing */
#define TRY(call, okexpr, unchanged) do { uint64_t f_ = T.failed; call; if (!(okexpr)) { VZ_CHECK(T.failed > f_, "refused", WHERE "a step was refused although no request failed in it", AT); unchanged; vz_stat("failures reported", 1); if (!once) { failing = 1; break; } f_ = T.failed; call; VZ_CHECK(okexpr, "again", WHERE "a step failed again although memory is back", AT); } } while (0)

/* ---------------------------------------------------------------- documents */
static char *text; static size_t textn;
static int parse(int kind, zpl_adt_node *root, char *t, zpl_allocator a, int hdr, char delim) { return kind == 0 ? zpl_json_parse(root, t, a) : kind == 1 ? zpl_csv_parse_delimiter(root, t, a, hdr, delim) : zpl_uri_parse(root, t, a); }
static void drop(int kind, zpl_adt_node *root) { if (kind == 0) zpl_json_free(root); else if (kind == 1) zpl_csv_free(root); else zpl_uri_free(root); }
static int gkind, ghdr; static char gdelim;
static void gen_text(void) {
    int i, j, n; jl = 0; jput("", 0);
    gkind = (int)vz_u(3); ghdr = vz_pct(50); gdelim = ",;\t|"[vz_u(4)];
    if (gkind == 0) { int bare; jv *v; do { v = jdoc(vz_pct(40), &bare); jfree(v); } while (jl > 20000); }
    else if (gkind == 1) { int rows = 1 + (int)vz_u(vz_pct(80) ? 6 : 60), cols = 1 + (int)vz_u(vz_pct(80) ? 5 : 40); if (rows * cols > 400) rows = 400 / cols + 1; for (i = 0; i < rows; i++) for (j = 0; j < cols; j++) { int k = (int)vz_u(5), m; char b[40]; if (j) jputc(gdelim); if (k == 0) { sprintf(b, "%d", (int)vz_range(-5000, 5000)); jputs(b); } else if (k == 1) { jputc('"'); for (m = (int)vz_u(12); m--; ) jputs(vz_pct(20) ? "\"\"" : vz_pct(20) ? "\n" : "q"); jputc('"'); } else if (k == 2) { sprintf(b, "%d.%d", (int)vz_range(-50, 50), (int)vz_u(1000)); jputs(b); } else { jputc('x'); for (m = (int)vz_u(10); m--; ) jputc((char)('a' + vz_u(26))); } if (j == cols - 1) jputc('\n'); } }
    else { n = 1 + (int)vz_u(vz_pct(70) ? 8 : 60); if (vz_pct(70)) jputs("http://host/path"); jputc('?'); for (i = 0; i < n; i++) { char b[60]; if (i) jputc('&'); sprintf(b, "f%d", (int)vz_u(1000)); jputs(b); if (vz_pct(80)) { jputc('='); if (vz_pct(30)) { sprintf(b, "%d", (int)vz_u(9999)); jputs(b); } else for (j = (int)vz_u(12); j--; ) jputs(vz_pct(20) ? "%20" : vz_pct(10) ? "+" : "w"); } } }
    free(text); text = (char *)malloc(jl + 1); memcpy(text, jt, jl + 1); textn = jl;
}
static int op_parse(void) {
    zpl_adt_node root; char *t = (char *)vz_dup(text, textn + 1); int e;
    opname = gkind == 0 ? "JSON parsing" : gkind == 1 ? "CSV parsing" : "URI parsing"; memset(&root, 0x5a, sizeof root);
    e = parse(gkind, &root, t, A, ghdr, gdelim);
    if (!e) { dump(&root); drop(gkind, &root); } else { size_t live = T.nlive; VZ_CHECK(T.failed, "parse", "%s of a good text reports %d", opname, e); if (gkind != 0 && live) drop(gkind, &root); vz_stat("failures reported", 1); }
    VZ_CHECK(T.nlive == 0, "leak", WHERE "%zu blocks kept", AT, T.nlive); vz_undup(t); return !e;
}
static zpl_adt_node DOC; static char *doctext; static int have;
static int op_write(void) {
    zpl_string s; int ok; opname = gkind == 0 ? "JSON writing" : gkind == 1 ? "CSV writing" : "URI writing";
    s = gkind == 0 ? zpl_json_write_string(A, &DOC, ghdr ? 4 : 0) : gkind == 1 ? zpl_csv_write_string_delimiter(A, &DOC, gdelim) : zpl_uri_write_string(A, &DOC);
    ok = s != 0; if (s) { VZ_CHECK(strlen(s) == (size_t)zpl_string_length(s), "written", WHERE "the text has a length of %lld and ends after %zu", AT, (long long)zpl_string_length(s), strlen(s)); rput(s, (size_t)zpl_string_length(s)); VZ_CHECK(T.nlive == 1, "leak", WHERE "%zu blocks live besides the text", AT, T.nlive - 1); zpl_string_free(s); }
    else { VZ_CHECK(T.failed, "write", "%s gave nothing", opname); vz_stat("failures reported", 1); } return ok;
}
static char *full; static size_t fulln;
static int op_write_file(void) { /* into a growing stream: what arrives is a prefix of the whole, and claimed whole only when it is */
    zpl_file f; zpl_isize n; unsigned char *b; int ok = 1; opname = gkind == 0 ? "JSON writing to a stream" : gkind == 1 ? "CSV writing to a stream" : "URI writing to a stream";
    if (!zpl_file_stream_new(&f, A)) { VZ_CHECK(T.failed, "stream", "no stream"); vz_stat("failures reported", 1); return 0; }
    if (gkind == 0) ok = zpl_json_write(&f, &DOC, ghdr ? 4 : 0); else if (gkind == 1) zpl_csv_write_delimiter(&f, &DOC, gdelim); else zpl_uri_write(&f, &DOC);
    b = zpl_file_stream_buf(&f, &n); if (T.fail_at == UINT64_MAX) { free(full); full = (char *)malloc((size_t)n + 1); memcpy(full, b, (size_t)n); fulln = (size_t)n; }
    VZ_CHECK((size_t)n <= fulln && (!once || gkind == 0 || !memcmp(b, full, (size_t)n)), "prefix", WHERE "the stream holds something else than the beginning of the text", AT);
    if (gkind == 0) { VZ_CHECK(ok || T.failed, "write", "writing reports failure"); if (!ok) vz_stat("failures reported", 1); } else if (T.failed) ok = 0;
    if (ok) rput(b, (size_t)n); zpl_file_close(&f); return ok;
}
/* ---- building */
static uint64_t treehash(zpl_adt_node *n) { size_t at = rl; uint64_t h; dump(n); h = vz_hash(res + at, rl - at, 9); rl = at; return h; }
static zpl_adt_node *anyb(zpl_adt_node *root) { zpl_adt_node *n = root; int d; for (d = 0; d < 4; d++) { zpl_isize i, k = zpl_array_count(n->nodes); if (!k || vz_pct(35)) break; i = (zpl_isize)vz_u((uint64_t)k); if (n->nodes[i].type == ZPL_ADT_TYPE_OBJECT || n->nodes[i].type == ZPL_ADT_TYPE_ARRAY) n = n->nodes + i; } return n; }
static int op_build(void) {
    zpl_adt_node root, *n, *p; int q, steps = 3 + (int)vz_u(40), e = 0; static const char *const NM[] = { "a", "bb", "name", "x y", "" }; opname = "building a tree"; memset(&root, 0, sizeof root);
    TRY(e = zpl_adt_set_obj(&root, "root", A), !e, zpl_adt_destroy_branch(&root)); if (failing) return 0;
    for (q = 0; q < steps; q++) {
        int k = (int)vz_u(9); const char *nm = NM[vz_u(5)]; uint64_t h; int64_t v = (int64_t)vz_r(); zpl_isize i, c; p = anyb(&root); h = treehash(&root); c = zpl_array_count(p->nodes); n = 0;
#define SAME VZ_CHECK(treehash(&root) == h, "tree", WHERE "a refused step changed the tree", AT)
        switch (k) {
            case 0: TRY(n = zpl_adt_append_obj(p, nm), n, SAME); break; case 1: TRY(n = zpl_adt_append_arr(p, nm), n, SAME); break;
            case 2: TRY(n = zpl_adt_append_str(p, nm, "text"), n, SAME); break; case 3: TRY(n = zpl_adt_append_flt(p, nm, (double)(v >> 40)), n, SAME); break;
            case 4: TRY(n = zpl_adt_append_int(p, nm, v), n, SAME); break;
            case 5: i = (zpl_isize)vz_u((uint64_t)c + 1); TRY(n = zpl_adt_alloc_at(p, i), n, SAME); if (n) { VZ_CHECK(n == p->nodes + i, "place", WHERE "the node is not where it was asked for", AT); zpl_adt_set_int(n, nm, v); } break;
            case 6: if (c) { zpl_adt_node *q2 = anyb(&root), *x, *m = p->nodes + vz_u((uint64_t)c); for (x = q2; x && x != m; x = x->parent) { } if (x) break; if (q2 == p) break; i = (zpl_isize)vz_u((uint64_t)zpl_array_count(q2->nodes) + 1);
                  { uint64_t f_ = T.failed; n = zpl_adt_move_node_at(m, q2, i); if (!n) { VZ_CHECK(T.failed > f_, "refused", WHERE "moving a node was refused although no request failed", AT); SAME; vz_stat("failures reported", 1); if (!once) failing = 1; else { n = zpl_adt_move_node_at(m, q2, i); VZ_CHECK(n, "again", WHERE "moving a node failed again", AT); } } } vz_stat("nodes moved", 1); } break;
            case 7: { zpl_adt_node *m = p->nodes + (c ? vz_u((uint64_t)c) : 0); if (c && (m->type != ZPL_ADT_TYPE_OBJECT && m->type != ZPL_ADT_TYPE_ARRAY)) zpl_adt_remove_node(m); } break;
            default: { TRY(n = zpl_adt_alloc(p), n, SAME); if (n) { int er = 0; uint64_t f_ = T.failed; er = zpl_adt_set_arr(n, nm, A); if (er) { VZ_CHECK(T.failed > f_, "refused", WHERE "an array was refused", AT); vz_stat("failures reported", 1);
                  { zpl_string s; zpl_file f; (void)s; if (once && zpl_file_stream_new(&f, A)) { zpl_json_write(&f, &root, 0); zpl_file_close(&f); } zpl_adt_find(&root, "nowhere", true); zpl_adt_query(&root, "a/0/bb"); } /* a document with a branch that could not be made can still be looked at */
                  if (!once) { failing = 1; zpl_adt_remove_node(n); } else { er = zpl_adt_set_arr(n, nm, A); VZ_CHECK(!er, "again", WHERE "an array failed again", AT); } } } } break;
        }
    }
    dump(&root); zpl_adt_destroy_branch(&root); return !failing;
}
/* ---------------------------------------------------------------- arrays */
typedef struct { uint32_t a, b, c; } el;
static el M[3000]; static int mn_;
static el g_el(void) { el e; e.a = (uint32_t)vz_r(); e.b = e.a * 7; e.c = ~e.a; return e; }
static void arr_same(el *x) { int i; VZ_CHECK(zpl_array_count(x) == mn_ && zpl_array_capacity(x) >= mn_, "array", WHERE "the array has %lld elements, it held %d", AT, (long long)zpl_array_count(x), mn_); for (i = 0; i < mn_; i++) VZ_CHECK(!memcmp(&x[i], &M[i], sizeof(el)), "array", WHERE "element %d of %d changed", AT, i, mn_); }
static int op_array(void) {
    zpl_array(el) x = 0; zpl_array(el) y = 0; int q, steps = 3 + (int)vz_u(40), ok = 0; el it[60]; opname = "growing an array"; mn_ = 0;
    if (vz_pct(50)) TRY(ok = zpl_array_init(x, A), ok, (void)0); else { int c = (int)vz_u(20); TRY(ok = zpl_array_init_reserve(x, A, c), ok, (void)0); } if (failing) return 0;
    for (q = 0; q < steps && mn_ < 2000; q++) {
        int k = (int)vz_u(9), n = (int)vz_u(60), i, at = (int)vz_u((uint64_t)mn_ + 1); for (i = 0; i < 60; i++) it[i] = g_el(); ok = 1;
        switch (k) {
            case 0: for (i = 0; i < n / 6; i++) { TRY(ok = zpl_array_append(x, it[i]), ok, arr_same(x)); if (ok) M[mn_++] = it[i]; } break;
            case 1: TRY(ok = zpl_array_append_at(x, it[0], at), ok, arr_same(x)); if (ok) { if (at >= mn_ && mn_) at = mn_ == 0 ? 0 : at; memmove(M + at + 1, M + at, sizeof(el) * (size_t)(mn_ - at)); M[at] = it[0]; mn_++; if (at == mn_ - 1) for (i = 0; i < mn_; i++) M[i] = x[i]; } break;
            case 2: TRY(ok = zpl_array_appendv(x, it, n), ok, arr_same(x)); if (ok) { memcpy(M + mn_, it, sizeof(el) * (size_t)n); mn_ += n; } break;
            case 3: TRY(ok = zpl_array_appendv_at(x, it, n, at), ok, arr_same(x)); if (ok) { memmove(M + at + n, M + at, sizeof(el) * (size_t)(mn_ - at)); memcpy(M + at, it, sizeof(el) * (size_t)n); mn_ += n; } break;
            case 4: TRY(ok = zpl_array_reserve(x, mn_ + n), ok, arr_same(x)); break;
            case 5: { int c = mn_ + (int)vz_u(10); if (vz_pct(30) && mn_) c = (int)vz_u((uint64_t)mn_) ; TRY(ok = zpl_array_set_capacity(x, c), ok, arr_same(x)); if (ok && c < mn_) mn_ = c; } break;
            case 6: TRY(ok = zpl_array_resize(x, mn_ + n), ok, arr_same(x)); if (ok) { for (i = 0; i < n; i++) { x[mn_ + i] = it[i]; M[mn_ + i] = it[i]; } mn_ += n; } break;
            case 7: y = 0; TRY(ok = zpl_array_copy_init(y, x), ok, arr_same(x)); if (ok) { arr_same(y); zpl_array_free(y); } break;
            default: if (mn_) { zpl_array_remove_at(x, mn_ / 2); memmove(M + mn_ / 2, M + mn_ / 2 + 1, sizeof(el) * (size_t)(mn_ - mn_ / 2 - 1)); mn_--; } break;
        }
        arr_same(x);
    }
    rput(x, sizeof(el) * (size_t)mn_); zpl_array_free(x); return !failing;
}
/* ---------------------------------------------------------------- strings */
static char S[20000]; static int sn;
static void str_same(zpl_string s) { VZ_CHECK(zpl_string_length(s) == sn && !memcmp(s, S, (size_t)sn + 1) && zpl_string_capacity(s) >= sn, "string", WHERE "the string reads '%s', it held '%s'", AT, vz_show(s, (size_t)sn), vz_show(S, (size_t)sn)); }
static int op_string(void) {
    zpl_string s = 0, t = 0; int q, steps = 3 + (int)vz_u(30); char w[400]; opname = "growing a string"; sn = 0; S[0] = 0;
    switch (vz_u(4)) { case 0: TRY(s = zpl_string_make(A, ""), s, (void)0); break; case 1: TRY(s = zpl_string_make_reserve(A, 12), s, (void)0); break; case 2: TRY(s = zpl_string_make(A, "begin"), s, (void)0); strcpy(S, "begin"); sn = 5; break; default: TRY(s = zpl_string_sprintf_buf(A, "%d-%s", 42, "x"), s, (void)0); strcpy(S, "42-x"); sn = 4; } if (failing) return 0;
    for (q = 0; q < steps && sn < 15000; q++) {
        int k = (int)vz_u(11), n = (int)vz_u(vz_pct(80) ? 20 : 390), i; for (i = 0; i < n; i++) w[i] = (char)('a' + vz_u(26)); w[n] = 0; t = 0;
#define GROW(expr, effect) TRY(t = (expr), t, str_same(s)); if (t) { s = t; effect; str_same(s); }
        switch (k) {
            case 0: GROW(zpl_string_appendc(s, w), (memcpy(S + sn, w, (size_t)n + 1), sn += n)); break;
            case 1: GROW(zpl_string_append_length(s, w, n / 2), (memcpy(S + sn, w, (size_t)(n / 2)), sn += n / 2, S[sn] = 0)); break;
            case 2: GROW(zpl_string_append_fmt(s, "<%d %s>", n, w), (sn += sprintf(S + sn, "<%d %s>", n, w))); break;
            case 3: GROW(zpl_string_append_rune(s, 0x20ac), (strcpy(S + sn, "\xe2\x82\xac"), sn += 3)); break;
            case 4: GROW(zpl_string_set(s, w), (strcpy(S, w), sn = n)); break;
            case 5: GROW(zpl_string_make_space_for(s, n * 3), (void)0); break;
            case 6: { zpl_string o = 0; TRY(o = zpl_string_make_length(A, w, n), o, str_same(s)); if (o) { GROW(zpl_string_append(s, o), (memcpy(S + sn, w, (size_t)n + 1), sn += n)); zpl_string_free(o); } } break;
            case 7: { zpl_string o = 0; TRY(o = zpl_string_duplicate(A, s), o, str_same(s)); if (o) { str_same(o); zpl_string_free(o); } } break;
            case 8: { const char *parts[5]; zpl_string o = 0; int m = (int)vz_u(6); for (i = 0; i < m; i++) parts[i] = i & 1 ? w : "part"; TRY(o = zpl_string_join(A, parts, m, "--"), o, str_same(s)); if (o) { char b[3000]; b[0] = 0; for (i = 0; i < m; i++) { strcat(b, parts[i]); if (i < m - 1) strcat(b, "--"); } VZ_CHECK(!strcmp(o, b), "join", WHERE "joined text is '%s'", AT, vz_show(o, strlen(o))); zpl_string_free(o); } } break;
            case 9: { char *d = 0; TRY(d = zpl_strdup(A, w, n), d, str_same(s)); if (d) { VZ_CHECK(!strcmp(d, w), "strdup", WHERE "copy differs", AT); zpl_free(A, d); } d = 0; TRY(d = zpl_alloc_str(A, w), d, str_same(s)); if (d) { VZ_CHECK(!strcmp(d, w), "alloc-str", WHERE "copy differs", AT); zpl_free(A, d); }
                  { char *v = 0; zpl_isize r = 0; TRY(r = zpl_asprintf(A, &v, "%s!", w), v, VZ_CHECK(r < 0, "asprintf", WHERE "asprintf reports %lld without a text", AT, (long long)r)); if (v) { VZ_CHECK(r == n + 2 && v[n] == '!' && !v[n + 1], "asprintf", WHERE "asprintf reports %lld for '%s'", AT, (long long)r, v); zpl_free(A, v); } } } break;
            default: { void *c = 0; TRY(c = zpl_alloc_copy(A, w, n), c, str_same(s)); if (c) { VZ_CHECK(!memcmp(c, w, (size_t)n), "copy", WHERE "copy differs", AT); zpl_free(A, c); } }
        }
    }
    rput(S, (size_t)sn); zpl_string_free(s); return !failing;
}
/* ---------------------------------------------------------------- streams, files, text helpers */
static unsigned char F[60000]; static int fn, fpos;
static void stream_same(zpl_file *f) { zpl_isize n; unsigned char *b = zpl_file_stream_buf(f, &n); VZ_CHECK(n == fn && !memcmp(b, F, (size_t)fn) && zpl_file_tell(f) == fpos, "stream", WHERE "the stream holds %lld bytes at position %lld, %d and %d before", AT, (long long)n, (long long)zpl_file_tell(f), fn, fpos); }
static int op_stream(void) {
    zpl_file f; int q, steps = 2 + (int)vz_u(25), ok = 0; unsigned char w[3000]; opname = "writing a stream"; fn = fpos = 0; memset(&f, 0, sizeof f);
    if (vz_pct(60)) TRY(ok = zpl_file_stream_new(&f, A), ok, (void)0); else { fn = (int)vz_u(300); memset(F, 'i', (size_t)fn); TRY(ok = zpl_file_stream_open(&f, A, F, fn, ZPL_FILE_STREAM_CLONE_WRITABLE), ok, (void)0); } if (failing) return 0;
    for (q = 0; q < steps && fn < 40000; q++) {
        int n = (int)vz_u(vz_pct(80) ? 60 : 3000), i, k = (int)vz_u(5); for (i = 0; i < n; i++) w[i] = (unsigned char)vz_r(); ok = 1;
        if (k < 2) { TRY(ok = zpl_file_write(&f, w, n), ok, stream_same(&f)); if (ok) { memcpy(F + fpos, w, (size_t)n); fpos += n; if (fpos > fn) fn = fpos; } }
        else if (k == 2) { int at = (int)vz_u((uint64_t)fn + 50); if (n == 0) continue; TRY(ok = zpl_file_write_at(&f, w, n, at), ok, stream_same(&f)); if (ok) { if (at > fn) memset(F + fn, 0, (size_t)(at - fn)); memcpy(F + at, w, (size_t)n); if (at + n > fn) fn = at + n; fpos = at + n; zpl_file_seek(&f, fpos); } }
        else if (k == 3) { fpos = (int)vz_u((uint64_t)fn + 1); zpl_file_seek(&f, fpos); }
        else { char b[900]; int L; memset(w, 'w', 700); w[n % 700] = 0; L = sprintf(b, "%d:%s;", n, (char *)w); TRY(ok = zpl_fprintf(&f, "%d:%s;", n, (char *)w) >= 0, ok, stream_same(&f)); if (ok) { memcpy(F + fpos, b, (size_t)L); fpos += L; if (fpos > fn) fn = fpos; } }
        stream_same(&f);
    }
    rput(F, (size_t)fn); zpl_file_close(&f); return !failing;
}
static int op_files(void) {
    char path[700], *raw; int n = 1 + (int)vz_u(vz_pct(80) ? 300 : 9000), i, k = (int)vz_u(4); FILE *fp; opname = "reading files"; snprintf(path, sizeof path, "%s/in", vz_dir); raw = (char *)malloc((size_t)n + 1);
    for (i = 0; i < n; i++) raw[i] = (char)(vz_pct(10) ? '\n' : 'a' + (int)vz_u(26)); raw[n] = 0; fp = fopen(path, "wb"); if (!fp || fwrite(raw, 1, (size_t)n, fp) != (size_t)n) VZ_BROKEN("scratch file"); fclose(fp);
    if (k == 0) { zpl_file_contents c; int z = vz_pct(50); opname = "reading a whole file"; TRY(c = zpl_file_read_contents(A, z, path), c.data, VZ_CHECK(c.size == 0, "contents", WHERE "%lld bytes claimed without a block", AT, (long long)c.size)); if (c.data) { VZ_CHECK(c.size == n && !memcmp(c.data, raw, (size_t)n), "contents", WHERE "contents differ", AT); rput(c.data, (size_t)n); zpl_file_free_contents(&c); } }
    else if (k == 1) { zpl_array(char *) lines = 0; char *b = 0; opname = "reading lines"; TRY(b = zpl_file_read_lines(A, &lines, path, vz_pct(50) * 0), b && lines, do { VZ_CHECK(!b && !lines, "lines", WHERE "lines without text or text without lines", AT); } while (0)); if (b) { char *p = raw; int cnt = 0; for (i = 0; i < zpl_array_count(lines); i++) { size_t L = strcspn(p, "\n"); VZ_CHECK(strlen(lines[i]) == L && !memcmp(lines[i], p, L), "lines", WHERE "line %d is '%s'", AT, i, vz_show(lines[i], strlen(lines[i]))); p += L + (p[L] != 0); cnt++; } VZ_CHECK(!*p, "lines", WHERE "only %d lines", AT, cnt); rfmt("%d", cnt); zpl_array_free(lines); zpl_free(A, b); } }
    else if (k == 2) { zpl_string s = 0; char d[700], p2[900]; int m = (int)vz_u(6), nf = 0; opname = "listing a directory"; snprintf(d, sizeof d, "%s/dir", vz_dir); mkdir(d, 0777); for (i = 0; i < 6; i++) { snprintf(p2, sizeof p2, "%s/entry-number-%d", d, i); if (i < m) { fp = fopen(p2, "w"); if (fp) fclose(fp); nf++; } else unlink(p2); } snprintf(p2, sizeof p2, "%s/sub", d); mkdir(p2, 0777); snprintf(p2, sizeof p2, "%s/sub/leaf", d); fp = fopen(p2, "w"); if (fp) fclose(fp); TRY(s = zpl_path_dirlist(A, d, true), s, (void)0); if (s) { int nl = 0; for (i = 0; s[i]; i++) nl += s[i] == '\n'; VZ_CHECK(nl == nf + 2, "dirlist", WHERE "%d entries of %d listed", AT, nl, nf + 2); rfmt("%d", nl); zpl_string_free(s); } }
    else { char *c = 0; opname = "resolving a path"; TRY(c = zpl_path_get_full_name(A, path), c, (void)0); if (c) { rput(c, strlen(c)); zpl_free(A, c); } }
    free(raw); unlink(path); return !failing;
}
static int op_text(void) {
    unsigned char d[900], *e = 0, *b = 0; int n = 1 + (int)vz_u(vz_pct(80) ? 60 : 890), i; for (i = 0; i < n; i++) d[i] = (unsigned char)vz_r(); opname = "base64";
    if (vz_pct(70)) { TRY(e = zpl_base64_encode(A, d, n), e, (void)0); if (e) { rput(e, strlen((char *)e)); TRY(b = zpl_base64_decode(A, e, (zpl_isize)strlen((char *)e)), b, (void)0); if (b) { VZ_CHECK(!memcmp(b, d, (size_t)n), "base64", WHERE "bytes changed", AT); zpl_free(A, b); } zpl_free(A, e); } }
    else { zpl_array(char *) L = 0; char *t; int m = (int)vz_u(60); opname = "splitting lines"; t = (char *)malloc(2000); t[0] = 0; for (i = 0; i < m; i++) sprintf(t + strlen(t), "line %d\n", i); TRY(L = (strchr(t, '\n') || !m ? (void)0 : (void)0, zpl_str_split_lines(A, t, false)), L, do { int z; t[0] = 0; for (z = 0; z < m; z++) sprintf(t + strlen(t), "line %d\n", z); } while (0)); if (L) { VZ_CHECK(zpl_array_count(L) == m, "lines", WHERE "%lld lines of %d", AT, (long long)zpl_array_count(L), m); for (i = 0; i < m; i++) { char x[20]; sprintf(x, "line %d", i); VZ_CHECK(!strcmp(L[i], x), "lines", WHERE "line %d is '%s'", AT, i, L[i]); } rfmt("%d", m); zpl_array_free(L); } free(t); }
    return !failing;
}
static int op_command(void) { zpl_string s = 0; opname = "capturing a command"; TRY(s = zpl_system_command_str("echo some output here", A), s, (void)0); if (s) { VZ_CHECK(!strcmp(s, "some output here\n"), "command", WHERE "captured '%s'", AT, s); rput(s, strlen(s)); zpl_string_free(s); } VZ_CHECK(waitpid(-1, 0, WNOHANG) < 0, "child", WHERE "a child process is left", AT); return !failing; }
/* ---------------------------------------------------------------- every request in turn */
static int one(int (*op)(void), uint64_t at, int on) { vz_track_init(&T); A = vz_track_allocator(&T); T.fail_at = at; T.fail_after = !on; once = on; failing = 0; rl = 0; rput("", 0); vz_s = plan; return op(); }
static void drive(int (*op)(void), int most) {
    char *ref0; size_t n0; uint64_t i, n, k; plan = vz_r(); { int ok = one(op, UINT64_MAX, 1); VZ_CHECK(ok, "plain", "%s fails without any request failing", opname); } VZ_TRACK_DONE(&T);
    n = T.calls; n0 = rl; ref0 = (char *)malloc(n0 + 1); memcpy(ref0, res, n0); vz_stat("operations", 1); vz_stat("requests of operations", n);
    for (k = 0; k < n && k < (uint64_t)most; k++) {
        int on; i = n <= (uint64_t)most ? k : k < 4 ? k : k < 8 ? n - 1 - (k - 4) : vz_hash(&k, 8, plan) % n;
        for (on = 0; on < 2; on++) {
            int ok = one(op, i, on);
            if (ok) VZ_CHECK(rl == n0 && !memcmp(res, ref0, n0), "complete", WHERE "success is reported with another result (%zu bytes instead of %zu)", AT, rl, n0);
            if (!ok) VZ_CHECK(T.failed, "refused", WHERE "failure is reported although no request failed", AT);
            vz_stat(on ? "single failures injected" : "lasting failures injected", 1); if (ok && T.failed) vz_stat("failures survived", 1);
            if (!T.failed) VZ_CHECK(0, "steps", WHERE "the request was not made this time (%llu requests)", AT, (unsigned long long)T.calls);
            VZ_CHECK(!T.bad, "allocator-misuse", WHERE "%s", AT, T.why); if (T.nlive) { size_t nl = T.nlive; vz_track_release(&T); VZ_FAIL("leak", WHERE "%zu blocks never given back", AT, nl); }
        }
    }
    vz_distinct(vz_hash(ref0, n0, n)); vz_sample("%s with %llu requests", opname, (unsigned long long)n); free(ref0);
}
static void t_parse(void) { gen_text(); drive(op_parse, 30); }
static void t_write(void) {
    int e; char *t; gen_text(); if (have) { zpl_adt_destroy_branch(&DOC); free(doctext); have = 0; } t = doctext = (char *)malloc(textn + 1); memcpy(t, text, textn + 1); e = parse(gkind, &DOC, t, zpl_heap(), ghdr, gdelim); if (e) { free(t); vz_stat("documents refused", 1); return; } have = 1;
    if (vz_pct(50)) drive(op_write, 20); else drive(op_write_file, 20);
}
static void t_build(void) { drive(op_build, 25); } static void t_array(void) { drive(op_array, 25); } static void t_string(void) { drive(op_string, 30); } static void t_stream(void) { drive(op_stream, 20); } static void t_files(void) { drive(op_files, 14); } static void t_text(void) { drive(op_text, 12); } static void t_command(void) { drive(op_command, 6); }
VZ_MAIN({"parse", t_parse, 20}, {"write", t_write, 20}, {"build", t_build, 20}, {"array", t_array, 12}, {"string", t_string, 14}, {"stream", t_stream, 10}, {"files", t_files, 6}, {"text", t_text, 6}, {"command", t_command, 1})
