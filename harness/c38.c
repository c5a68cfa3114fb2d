/* arbitrary, mutated and damaged text through the JSON parser: memory, error or walkable tree, everything released, text untouched on errors */
#include "vz.h"
#ifndef ZPL_JSON_MAX_DEPTH
#define ZPL_JSON_MAX_DEPTH 2048
#endif
#include "jsongen.h"
static vz_track T; static unsigned long walked; static char *lo, *hi;
static const char *show(const char *t, size_t n) { return vz_show(t, n > 250 ? 250 : n); }
static void inside(const char *s, const char *what) { VZ_CHECK(s >= lo && s < hi && s + strlen(s) < hi, "outside", "%s of the tree lies outside the text parsed", what); }
static void walk(zpl_adt_node *n, zpl_adt_node *par, int depth) {
    zpl_isize i; walked++; VZ_CHECK(n->parent == par, "parent", "a node's parent is wrong"); VZ_CHECK(depth <= ZPL_JSON_MAX_DEPTH + 2, "depth", "a tree of %d levels", depth);
    if (n->name) inside(n->name, "a name"); else VZ_CHECK(!par || par->type == ZPL_ADT_TYPE_ARRAY, "nameless", "a member without a name");
    switch (n->type) {
        case ZPL_ADT_TYPE_OBJECT: case ZPL_ADT_TYPE_ARRAY: VZ_CHECK(n->nodes, "nodes", "a branch without an array of nodes"); for (i = 0; i < zpl_array_count(n->nodes); i++) walk(n->nodes + i, n, depth + 1); break;
        case ZPL_ADT_TYPE_STRING: case ZPL_ADT_TYPE_MULTISTRING: VZ_CHECK(n->string, "string", "a string without text"); inside(n->string, "a string"); break;
        case ZPL_ADT_TYPE_INTEGER: case ZPL_ADT_TYPE_REAL: break;
        default: VZ_FAIL("type", "a node of type %d in a tree that was accepted", n->type);
    }
}
/* must: 0 either way, 1 has to be refused, 2 has to be accepted */
static zpl_u8 feed(const char *text, size_t l, int must, const char *what) {
    zpl_adt_node root; char *t = vz_dup(text, l + 1); zpl_u8 e; static const zpl_isize IND[] = { 0, 4, ZPL_JSON_INDENT_STYLE_COMPACT };
    t[l] = 0; l = strlen(t); vz_track_init(&T); memset(&root, 0x5a, sizeof root); if (vz_pct(4)) T.fail_at = vz_u(12);
    e = zpl_json_parse(&root, t, vz_track_allocator(&T));
    if (T.fail_at == UINT64_MAX) {
        if (must == 1) VZ_CHECK(e != ZPL_JSON_ERROR_NONE, "accepted", "a document %s is accepted: %s", what, show(text, l));
        if (must == 2) VZ_CHECK(e == ZPL_JSON_ERROR_NONE, "refused", "a document %s is refused with %d: %s", what, e, show(text, l));
    } else vz_stat("parses with a failing allocator", 1);
    VZ_CHECK(e <= ZPL_JSON_ERROR_OUT_OF_MEMORY, "code", "error code %d", e);
    if (e == ZPL_JSON_ERROR_NONE) {
        zpl_file f; zpl_isize sz; lo = t; hi = t + l + 1; walked = 0; walk(&root, 0, 0); vz_stat("trees walked", 1); vz_stat("nodes walked", walked);
        memset(&f, 0, sizeof f); if (!zpl_file_stream_new(&f, zpl_heap())) VZ_BROKEN("no stream");
        VZ_CHECK(zpl_json_write(&f, &root, IND[vz_u(3)]) || T.fail_at != UINT64_MAX, "write", "an accepted document cannot be written: %s", show(text, l)); zpl_file_stream_buf(&f, &sz); zpl_file_close(&f);
    } else { VZ_CHECK(!memcmp(t, text, l) && !t[l], "text", "a refused document was changed: %s", show(text, l)); vz_stat("refusals", 1); }
    zpl_json_free(&root); VZ_CHECK(!T.live, "leak", "blocks of a%s document are still allocated after it was freed: %s", e ? " refused" : "n accepted", show(text, l)); VZ_TRACK_DONE(&T); vz_undup(t);
    return e;
}
static int bare; static jv *V;
static void doc(int relaxed, size_t max) { size_t t; for (;;) { V = jdoc(relaxed, &bare); jfree(V); t = jl; while (t && (jt[t - 1] == ' ' || jt[t - 1] == '\n' || jt[t - 1] == '\t' || jt[t - 1] == '\r')) t--; if (!bare && (!max || t < max)) break; if (bare && max == 0) break; } }
static void t_cut(void) { /* cut short at every position */
    int relaxed = vz_pct(40); size_t i, end; char *c; doc(relaxed, 700);
    /* the position of the last bracket: everything shorter is incomplete */
    for (end = jl; end && jt[end - 1] != '}' && jt[end - 1] != ']'; end--) ;
    if (relaxed) { size_t k; /* a comment after the document may hold brackets */ jv *v; do { v = jdoc(1, &bare); jfree(v); k = jl; while (k && strchr(" \t\r\n", jt[k - 1])) k--; } while (bare || jl > 700 || !(jt[k - 1] == '}' || jt[k - 1] == ']') || strstr(jt + (k > 30 ? k - 30 : 0), "//")); end = k; }
    c = malloc(jl + 1); memcpy(c, jt, jl + 1);
    feed(c, jl, 2, "in one piece");
    for (i = 0; i < end; i++) { feed(c, i, 1, "cut short"); vz_distinct(vz_hash(c, i, 1)); }
    vz_stat("documents cut at every position", 1); vz_stat("cuts", end); free(c);
}
static void t_bracket(void) { /* one bracket lost, added or exchanged outside strings */
    size_t *at, n = 0, i; char *c, *m; doc(0, 1500); c = malloc(jl + 2); m = malloc(jl + 3); memcpy(c, jt, jl + 1); at = malloc(sizeof *at * (jl + 1));
    { int q = 0; for (i = 0; i < jl; i++) { if (q) { if (c[i] == '\\') i++; else if (c[i] == '"') q = 0; } else if (c[i] == '"') q = 1; else if (strchr("[]{}", c[i])) at[n++] = i; } }
    for (i = 0; i < n; i++) {
        static const char X[] = "[]{}"; char x;
        memcpy(m, c, at[i]); memcpy(m + at[i], c + at[i] + 1, jl - at[i]); feed(m, jl - 1, 1, "without one of its brackets"); vz_distinct(vz_hash(m, jl - 1, 2));
        x = X[vz_u(4)]; memcpy(m, c, at[i]); m[at[i]] = x; memcpy(m + at[i] + 1, c + at[i], jl - at[i] + 1); feed(m, jl + 1, 1, "with one bracket too many");
        do x = X[vz_u(4)]; while (x == c[at[i]]); memcpy(m, c, jl + 1); m[at[i]] = x; feed(m, jl, 1, "with a bracket of the wrong kind"); vz_stat("bracket damages", 3);
    }
    free(c); free(m); free(at);
}
static void mutate(char **b, size_t *l) {
    static const char *const TOK[] = { "{", "}", "[", "]", "\"", "'", "`", ":", ",", "=", "|", "\n", "\\", "\\u", "//", "/*", "*/", "/", "true", "nul", "-", "+", ".", "0x", "1e", "e5", "-Infinity", "NaN", "\\\"", " ", "\xff", "\xf0\x9f", "\x01", "$", "_", "a:", "{}", "[]", "\r", "0", "--", "1.2.3", "a", "//\n", "%s", "127.0.0.1", "\\\\" };
    size_t at = *l ? vz_u(*l + 1) : 0, k; *b = realloc(*b, *l + 400);
    switch (vz_u(5)) {
        case 0: if (*l) { k = 1 + vz_u(vz_pct(70) ? 2 : 20); if (at >= *l) at = *l - 1; if (k > *l - at) k = *l - at; memmove(*b + at, *b + at + k, *l - at - k + 1); *l -= k; } break;
        case 1: case 2: { const char *t = TOK[vz_u(47)]; size_t n = strlen(t); memmove(*b + at + n, *b + at, *l - at + 1); memcpy(*b + at, t, n); *l += n; break; }
        case 3: if (*l) { if (at >= *l) at = *l - 1; (*b)[at] = vz_pct(70) ? "{}[]\"'`:,=|\n\\/* 0"[vz_u(17)] : (char)(1 + vz_u(255)); } break;
        default: if (*l) { size_t from = vz_u(*l); k = 1 + vz_u(60); if (k > *l - from) k = *l - from; { char tmp[64]; memcpy(tmp, *b + from, k); memmove(*b + at + k, *b + at, *l - at + 1); memcpy(*b + at, tmp, k); *l += k; } } break;
    }
}
static void t_mutant(void) {
    int relaxed = vz_pct(65), q; doc(relaxed, 0); 
    for (q = 0; q < 12; q++) { size_t l = jl; char *b = malloc(l + 1); int m = 1 + (int)vz_u(vz_pct(70) ? 3 : 12); memcpy(b, jt, l + 1); while (m--) mutate(&b, &l); b[l] = 0; feed(b, l, 0, ""); vz_stat("mutants", 1); vz_distinct(vz_hash(b, l, 3)); free(b); if (jl > 50000) break; }
}
static void t_soup(void) {
    int q; for (q = 0; q < 25; q++) { char *b = calloc(1, 1); size_t l = 0; int m = (int)vz_u(vz_pct(80) ? 15 : 120); if (vz_pct(15)) { size_t i; l = vz_u(40); b = realloc(b, l + 1); for (i = 0; i < l; i++) b[i] = (char)(1 + vz_u(255)); b[l] = 0; } while (m--) { size_t was = l; mutate(&b, &l); if (l + 200 < was) break; } feed(b, l, 0, ""); vz_stat("token soups", 1); vz_sample("%s", show(b, l > 80 ? 80 : l)); vz_distinct(vz_hash(b, l, 4)); free(b); }
}
static void t_special(void) {
    static const char *const BAD[] = { "", " ", "\n", "/* */", "//", "{", "[", "}", "]", "{]", "[}", "{\"a\"}", "{\"a\":}", "{\"a\"1}", "{:1}", "{1}", "[1 2]", "{} {}", "[] []", "{}x", "[],", "{\"a\":1}}", "[\"a]", "{\"a:1}", "[`a]", "{\"a\":tru}", "[+]", "[-]", "[.]", "[--1]", "[1.2.3]", "{\"a\":1 /*}", "[1 /* ]", "[\"\\\"]", "{\"a\\\":1}", "nonsense", "a", "a:", ":", "=", "|" , "[,]", "[1,,2]", "{,}", "{\"\\x\":1}" };
    static const char *const BRK[] = { "[", "{\"a\":", "[[", "[{\"a\":", "{'b'=", "[1,[" };
    enum { NB = (int)(sizeof BAD / sizeof *BAD) }; int k = (int)vz_u(NB + 3);
    if (k < NB) { feed(BAD[k], strlen(BAD[k]), 1, "that is none"); vz_stat("known bad documents", 1); }
    else { /* long runs of opening brackets, closed or not */
        size_t n = (size_t)vz_range(1, vz_thorough || vz_pct(30) ? 60000 : 4000), i, u; const char *t = BRK[vz_u(6)]; char *b; u = strlen(t); b = malloc(n * u + 200000); for (i = 0; i < n; i++) memcpy(b + i * u, t, u); b[n * u] = 0; feed(b, n * u, 1, "of nothing but opening brackets"); vz_stat("runs of opening brackets", 1);
        if (!strcmp(t, "[")) { memset(b + n, ']', n); b[n * 2] = 0; feed(b, n * 2, n <= ZPL_JSON_MAX_DEPTH ? 2 : n > ZPL_JSON_MAX_DEPTH + 1 ? 1 : 0, "of nested arrays"); }
        free(b);
    }
    vz_distinct((uint64_t)k);
}
VZ_MAIN({"cut", t_cut, 4}, {"bracket", t_bracket, 4}, {"mutant", t_mutant, 8}, {"soup", t_soup, 6}, {"special", t_special, 4})
