/* generated JSON documents: the parsed tree against the generated value, then written in several styles, validated and read back */
#include "vz.h"
#ifndef ZPL_JSON_MAX_DEPTH
#define ZPL_JSON_MAX_DEPTH 2048
#endif
#include "jsongen.h"
static vz_track T; static const char *phase; static unsigned long nodes_seen;
static int same_text(const char *a, const char *b) { /* equal once escapes are decoded */
    while (*a && *b) { int ea = *a == '\\' && a[1], eb = *b == '\\' && b[1]; if (ea && eb && a[1] != b[1]) return 0; if (ea) { if (eb) { a += 2; b += 2; continue; } if (a[1] != *b || !strchr("\"'`/", a[1])) return 0; a += 2; b++; continue; } if (eb) { if (b[1] != *a || !strchr("\"'`/", b[1])) return 0; b += 2; a++; continue; } if (*a++ != *b++) return 0; }
    return !*a && !*b;
}
static void cmp(zpl_adt_node *n, jv *v, zpl_adt_node *par, int exact) {
    int i; nodes_seen++;
    VZ_CHECK(n->parent == par, "parent", "%s: the parent of a node is wrong", phase);
    if (v->name) VZ_CHECK(n->name && !strcmp(n->name, v->name), "name", "%s: a member named '%s' came out as '%s'", phase, vz_show(v->name, strlen(v->name)), n->name ? vz_show(n->name, strlen(n->name)) : "(none)");
    switch (v->k) {
        case JOBJ: case JARR:
            VZ_CHECK(n->type == (v->k == JOBJ ? ZPL_ADT_TYPE_OBJECT : ZPL_ADT_TYPE_ARRAY), "type", "%s: an %s came out as type %d", phase, v->k == JOBJ ? "object" : "array", n->type);
            VZ_CHECK(zpl_array_count(n->nodes) == v->nk, "count", "%s: an %s of %d came out with %td", phase, v->k == JOBJ ? "object" : "array", v->nk, zpl_array_count(n->nodes));
            for (i = 0; i < v->nk; i++) cmp(n->nodes + i, v->kid[i], n, exact); break;
        case JSTR: case JMULTI:
            VZ_CHECK(n->type == (v->k == JSTR ? ZPL_ADT_TYPE_STRING : ZPL_ADT_TYPE_MULTISTRING), "type", "%s: a string came out as type %d", phase, n->type);
            VZ_CHECK(n->string && (exact ? !strcmp(n->string, v->str) : same_text(n->string, v->str)), "string", "%s: the string '%s' came out as '%s'", phase, vz_show(v->str, strlen(v->str)), n->string ? vz_show(n->string, strlen(n->string)) : "(none)"); break;
        case JNUM: {
            if (!v->n.real) { VZ_CHECK(n->type == ZPL_ADT_TYPE_INTEGER && n->integer == v->n.i, "integer", "%s: %lld came out as type %d, %lld", phase, (long long)v->n.i, n->type, (long long)n->integer); }
            else if (!v->n.extreme && inrange(v->n.r)) { double d = n->type == ZPL_ADT_TYPE_INTEGER ? (double)n->integer : n->real; VZ_CHECK(n->type == ZPL_ADT_TYPE_REAL || (!exact && n->type == ZPL_ADT_TYPE_INTEGER), "type", "%s: a real came out as type %d", phase, n->type); VZ_CHECK(near_(d, v->n.r), "real", "%s: %.17Lg came out as %.17g", phase, v->n.r, d); }
            break; }
        default: VZ_CHECK(n->type == ZPL_ADT_TYPE_REAL && n->props == JPROPS[v->word], "constant", "%s: %s came out as type %d, props %d", phase, JWORDS[v->word], n->type, n->props);
            { double d = n->real; int w = v->word; VZ_CHECK(w == 1 ? d == 1 : w == 0 || w == 2 ? d == 0 : w == 3 || w == 6 ? isnan(d) : isinf(d) && (d > 0) == (w == 4), "constant value", "%s: %s has the value %g", phase, JWORDS[w], d); } break;
    }
}
static uint64_t shape(jv *v) { uint64_t h = (uint64_t)v->k + 1; int i; for (i = 0; i < v->nk; i++) h = h * 1000003 + shape(v->kid[i]); return h; }
static const char *around(const char *t, size_t n) { return vz_show(t, n > 300 ? 300 : n); }
/* write root in one of the ways the library offers; exact-size copy */
static char *dump(zpl_adt_node *root, zpl_isize ind, size_t *l) {
    char *o;
    if (vz_pct(50)) { zpl_string s = zpl_json_write_string(vz_track_allocator(&T), root, ind); VZ_CHECK(s, "write", "writing gave no text"); *l = (size_t)zpl_string_length(s); VZ_CHECK(strlen(s) == *l, "write", "the text written has a NUL inside"); o = vz_dup(s, *l + 1); zpl_string_free(s); }
    else { zpl_file f; zpl_isize sz; zpl_u8 *d; memset(&f, 0, sizeof f); if (!zpl_file_stream_new(&f, zpl_heap())) VZ_BROKEN("no stream"); VZ_CHECK(zpl_json_write(&f, root, ind), "write", "writing failed"); d = zpl_file_stream_buf(&f, &sz); *l = (size_t)sz; o = malloc(*l + 1); memcpy(o, d, *l); o[*l] = 0; zpl_file_close(&f); }
    return o;
}
static void t_doc(void) {
    static const zpl_isize IND[] = { 0, 4, 8, ZPL_JSON_INDENT_STYLE_COMPACT, 1, -4 };
#ifdef ZPL_PARSER_DISABLE_ANALYSIS
    int relaxed = 0;
#else
    int relaxed = vz_pct(50);
#endif
    int bare, k; jv *v = jdoc(relaxed, &bare); char *t = vz_dup(jt, jl + 1); zpl_adt_node root; zpl_u8 e;
    vz_track_init(&T); memset(&root, 0xa5, sizeof root); nodes_seen = 0;
    e = zpl_json_parse(&root, t, vz_track_allocator(&T));
    VZ_CHECK(e == ZPL_JSON_ERROR_NONE, relaxed ? "refused-relaxed" : "refused", "a well-formed document is refused with error %d: %s", e, around(jt, jl));
    phase = "parsing"; cmp(&root, v, 0, 1); vz_stat(relaxed ? (bare ? "documents without braces" : "relaxed documents") : "strict documents", 1);
    for (k = 0; k < 2; k++) {
        zpl_isize ind = IND[vz_u(6)]; size_t l, l2; char *o = dump(&root, ind, &l), *c = vz_dup(o, l + 1), *o2; zpl_adt_node r2; zpl_u8 e2;
        if (!relaxed) { const char *end = jstrict(o, 0); VZ_CHECK(end && !*jsp(end), "ill-formed", "written with indent %td: not JSON: %s", ind, around(o, l)); vz_stat("outputs validated", 1); }
        memset(&r2, 0x5a, sizeof r2); e2 = zpl_json_parse(&r2, o, vz_track_allocator(&T)); VZ_CHECK(e2 == ZPL_JSON_ERROR_NONE, "reparse", "written with indent %td, it is refused with error %d: %s", ind, e2, around(c, l));
        phase = "round trip"; cmp(&r2, v, 0, 0);
        if (vz_pct(30)) { o2 = dump(&r2, ind, &l2); phase = "second round trip"; { zpl_adt_node r3; VZ_CHECK(zpl_json_parse(&r3, o2, vz_track_allocator(&T)) == ZPL_JSON_ERROR_NONE, "reparse", "written twice, it is refused: %s", around(c, l)); cmp(&r3, v, 0, 0); zpl_json_free(&r3); } vz_undup(o2); vz_stat("second round trips", 1); }
        phase = "parsing"; cmp(&root, v, 0, 1); /* writing leaves the tree alone */
        zpl_json_free(&r2); vz_undup(o); vz_undup(c); vz_stat(ind == ZPL_JSON_INDENT_STYLE_COMPACT ? "compact outputs" : "indented outputs", 1);
    }
    zpl_json_free(&root); VZ_TRACK_DONE(&T); vz_undup(t); vz_stat("nodes compared", nodes_seen); if (jl > 60000) vz_stat("documents above 60 kB", 1);
    if (v->nk > 1) vz_distinct(vz_hash(jt, jl, shape(v))); vz_sample("%s", around(jt, jl > 120 ? 120 : jl)); jfree(v);
}
/* nesting up to the documented limit */
static void t_deep(void) {
    int d = (int)vz_range(2, vz_pct(70) ? 300 : ZPL_JSON_MAX_DEPTH + 40), i; zpl_adt_node root, *n; zpl_u8 e; char *t; uint64_t h = 0; char *kinds = malloc((size_t)d + 1);
    jl = 0; for (i = 0; i < d; i++) { kinds[i] = (char)vz_u(2); h = h * 3 + (uint64_t)kinds[i]; jputs(kinds[i] ? "{\"a\":" : "["); } jputs("1"); for (i = d; i--; ) jputs(kinds[i] ? "}" : "]");
    t = vz_dup(jt, jl + 1); vz_track_init(&T); e = zpl_json_parse(&root, t, vz_track_allocator(&T));
    if (d <= ZPL_JSON_MAX_DEPTH + 1) {
        VZ_CHECK(e == ZPL_JSON_ERROR_NONE, "deep", "%d levels are refused with error %d", d, e);
        for (n = &root, i = 0; i < d; i++, n = n->nodes) VZ_CHECK(n->type == (kinds[i] ? ZPL_ADT_TYPE_OBJECT : ZPL_ADT_TYPE_ARRAY) && zpl_array_count(n->nodes) == 1, "deep", "level %d of %d is wrong", i, d);
        VZ_CHECK(n->type == ZPL_ADT_TYPE_INTEGER && n->integer == 1, "deep", "the value at level %d is lost", d); vz_stat("deeply nested documents", 1);
        { size_t l; char *o = dump(&root, ZPL_JSON_INDENT_STYLE_COMPACT, &l); VZ_CHECK(jstrict(o, 0), "ill-formed", "%d levels written", d); vz_undup(o); }
    } else VZ_CHECK(e != ZPL_JSON_ERROR_NONE, "limit", "%d levels are accepted", d);
    zpl_json_free(&root); VZ_TRACK_DONE(&T); vz_undup(t); free(kinds); vz_distinct(h + (uint64_t)d);
}
/* a tree built by hand, written and read back */
static void fill(zpl_adt_node *n, jv *v) {
    int i; zpl_allocator a = vz_track_allocator(&T); zpl_adt_node *c;
    for (i = 0; i < v->nk; i++) {
        jv *k = v->kid[i];
        switch (k->k) {
            case JOBJ: c = zpl_adt_append_obj(n, k->name); fill(c, k); break;
            case JARR: c = zpl_adt_append_arr(n, k->name); fill(c, k); break;
            case JSTR: zpl_adt_append_str(n, k->name, k->str); break;
            case JNUM: if (k->n.real) zpl_adt_append_flt(n, k->name, (double)k->n.r); else zpl_adt_append_int(n, k->name, k->n.i); break;
            default: c = zpl_adt_append_flt(n, k->name, k->word == 1); c->props = (zpl_u8)(JPROPS[k->word] & 15); break;
        }
    }
    (void)a;
}
static void t_built(void) {
    int bare, k; jv *v = jdoc(0, &bare); zpl_adt_node root, r2; size_t l; char *o; zpl_isize ind = vz_pct(50) ? 0 : vz_pct(50) ? 4 : ZPL_JSON_INDENT_STYLE_COMPACT; zpl_u8 e;
    vz_track_init(&T); memset(&root, 0, sizeof root); nodes_seen = 0;
    if (v->k == JOBJ) zpl_adt_set_obj(&root, 0, vz_track_allocator(&T)); else zpl_adt_set_arr(&root, 0, vz_track_allocator(&T));
    fill(&root, v); phase = "building"; cmp(&root, v, 0, 1); o = dump(&root, ind, &l);
    { const char *end = jstrict(o, 0); VZ_CHECK(end && !*jsp(end), "ill-formed", "a tree built by hand is written as %s", around(o, l)); }
    e = zpl_json_parse(&r2, o, vz_track_allocator(&T)); VZ_CHECK(e == ZPL_JSON_ERROR_NONE, "reparse", "a tree built by hand is written as something refused with error %d: %s", e, around(o, l)); phase = "writing what was built by hand and reading it"; cmp(&r2, v, 0, 0);
    zpl_json_free(&r2); zpl_json_free(&root); VZ_TRACK_DONE(&T); vz_undup(o); vz_stat("trees built by hand", 1); if (v->nk > 1) vz_distinct(vz_hash(jt, jl, 77)); jfree(v); (void)k;
}
/* wide documents and long texts: more than sixteen bits can count */
static void t_wide(void) {
    size_t n = vz_near2(8, vz_pct(30) ? 17 : 14), i, l; int kind = (int)vz_u(4), turn; zpl_adt_node root; char *t, *txt, b[40]; zpl_u8 e; jl = 0; txt = malloc(n + 1); for (i = 0; i < n; i++) txt[i] = "abcdefghij klmnop,:[]{}"[vz_u(23)]; txt[n] = 0;
    switch (kind) { case 0: jputs("["); for (i = 0; i < n; i++) { sprintf(b, "%s%zu", i ? "," : "", i); jputs(b); } jputs("]"); break;
        case 1: jputs("{"); for (i = 0; i < n; i++) { sprintf(b, "%s\"k%zu\":%zu", i ? ",\n" : "", i, i); jputs(b); } jputs("}"); break;
        case 2: jputs("{\""); jput(txt, n); jputs("\":\""); jput(txt, n); jputs("\"}"); break;
        default: jputs("{"); for (i = 0; i < n; i++) jputs(" \n\t"[i % 3] == ' ' ? " " : "\n"); jputs("\"a\":"); for (i = 0; i < n; i++) jputs(" "); jputs("5}"); n = 1; }
    t = vz_dup(jt, jl + 1); vz_track_init(&T);
    for (turn = 0; turn < 2; turn++) { e = zpl_json_parse(&root, t, vz_track_allocator(&T)); VZ_CHECK(e == ZPL_JSON_ERROR_NONE, "wide", "a document of kind %d with %zu is refused with error %d (turn %d)", kind, n, e, turn);
        if (kind < 2) { VZ_CHECK((size_t)zpl_array_count(root.nodes) == n, "wide", "%td values of %zu (turn %d)", zpl_array_count(root.nodes), n, turn); for (i = 0; i < n; i++) { VZ_CHECK(root.nodes[i].type == ZPL_ADT_TYPE_INTEGER && root.nodes[i].integer == (zpl_i64)i && root.nodes[i].parent == &root, "wide", "value %zu of %zu (turn %d)", i, n, turn); if (kind) { sprintf(b, "k%zu", i); VZ_CHECK(!strcmp(root.nodes[i].name, b), "wide", "name %zu of %zu is '%s'", i, n, root.nodes[i].name); } } }
        else if (kind == 2) VZ_CHECK(zpl_array_count(root.nodes) == 1 && root.nodes->type == ZPL_ADT_TYPE_STRING && !strcmp(root.nodes->name, txt) && !strcmp(root.nodes->string, txt), "wide", "a name and text of %zu bytes (turn %d)", n, turn);
        else VZ_CHECK(zpl_array_count(root.nodes) == 1 && root.nodes->integer == 5 && !strcmp(root.nodes->name, "a"), "wide", "a document with much room in it (turn %d)", turn);
        if (!turn) { char *o = dump(&root, vz_pct(50) ? 0 : ZPL_JSON_INDENT_STYLE_COMPACT, &l); zpl_json_free(&root); VZ_TRACK_DONE(&T); vz_track_init(&T); vz_undup(t); t = o; } else zpl_json_free(&root); }
    VZ_TRACK_DONE(&T); vz_undup(t); free(txt); vz_stat("wide documents", 1); vz_distinct(n * 4 + (size_t)kind);
}
VZ_MAIN({"wide", t_wide, 1}, {"built", t_built, 800}, {"document", t_doc, 4000}, {"deep", t_deep, 100})
