/* edit histories on document trees against an ideal ordered tree; structure, names, values, parents and memory after every edit */
#include "vz.h"
typedef struct mn { int type; const char *name; const char *str; double flt; int64_t num; struct mn *kid[64]; int nk; struct mn *par; } mn;
static const char *const NAMES[] = { "a", "b", "c", "name", "value", "a", "", "x/y", "long name with spaces", "\xc3\xa9t\xc3\xa9", "0", "[b]", "nodes", "name2" };
static const char *const STRS[] = { "", "x", "text", "\"q\"", "123", "a/b", "line\nline", "\xe2\x82\xac" };
static vz_track T; static zpl_adt_node R[3]; static mn *M[3]; static int nroots;
static mn *mnew(void) { return calloc(1, sizeof(mn)); }
static void mfree(mn *m) { int i; for (i = 0; i < m->nk; i++) mfree(m->kid[i]); free(m); }
static int midx(mn *m) { int i; for (i = 0; i < m->par->nk; i++) if (m->par->kid[i] == m) return i; return -1; }
static int isbr(mn *m) { return m->type == ZPL_ADT_TYPE_OBJECT || m->type == ZPL_ADT_TYPE_ARRAY; }
static zpl_adt_node *loc(mn *m) { int i; if (!m->par) { for (i = 0; i < nroots; i++) if (M[i] == m) return &R[i]; return 0; } return loc(m->par)->nodes + midx(m); }
static int total; static mn *pick_[4096];
static void list(mn *m) { int i; if (total < 4096) pick_[total++] = m; for (i = 0; i < m->nk; i++) list(m->kid[i]); }
static mn *pick(int branch) { int i, k; total = 0; for (i = 0; i < nroots; i++) list(M[i]); for (k = 0; k < 40; k++) { mn *m = pick_[vz_u((uint64_t)total)]; if (branch ? isbr(m) : m->par != 0) return m; } return branch ? M[0] : 0; }
static int depth(mn *m) { int d = 0; while (m->par) m = m->par, d++; return d; }
static int within(mn *m, mn *anc) { for (; m; m = m->par) if (m == anc) return 1; return 0; }
static void mins(mn *p, int at, mn *m) { memmove(p->kid + at + 1, p->kid + at, sizeof(mn *) * (size_t)(p->nk - at)); p->kid[at] = m; p->nk++; m->par = p; }
static void mdel(mn *m) { int i = midx(m); mn *p = m->par; memmove(p->kid + i, p->kid + i + 1, sizeof(mn *) * (size_t)(p->nk - i - 1)); p->nk--; }
static uint64_t seen_nodes; static const char *what = "";
static void cmp(zpl_adt_node *n, mn *m, zpl_adt_node *par) {
    int i; seen_nodes++;
    VZ_CHECK(n->type == m->type, "type", "after %s a node has type %d, the ideal tree has %d", what, n->type, m->type);
    VZ_CHECK(n->name == m->name || (n->name && m->name && !strcmp(n->name, m->name)), "name", "after %s a node is named '%s', the ideal tree has '%s'", what, n->name ? n->name : "(none)", m->name ? m->name : "(none)");
    VZ_CHECK(n->parent == par, "parent", "after %s the parent of '%s' is %p, it should be %p", what, n->name ? n->name : "(none)", (void *)n->parent, (void *)par);
    if (m->type == ZPL_ADT_TYPE_STRING) VZ_CHECK(n->string && !strcmp(n->string, m->str), "string", "after %s a node holds '%s', not '%s'", what, n->string ? n->string : "(none)", m->str);
    if (m->type == ZPL_ADT_TYPE_REAL) VZ_CHECK(n->real == m->flt, "real", "after %s a node holds %g, not %g", what, n->real, m->flt);
    if (m->type == ZPL_ADT_TYPE_INTEGER) VZ_CHECK(n->integer == m->num, "integer", "after %s a node holds %lld, not %lld", what, (long long)n->integer, (long long)m->num);
    if (isbr(m)) {
        VZ_CHECK(n->nodes && zpl_array_count(n->nodes) == m->nk, "count", "after %s a branch has %td children, the ideal tree has %d", what, n->nodes ? zpl_array_count(n->nodes) : -1, m->nk);
        for (i = 0; i < m->nk; i++) cmp(n->nodes + i, m->kid[i], n);
    }
}
static void cmp_all(void) { int i; for (i = 0; i < nroots; i++) cmp(&R[i], M[i], 0); }
static mn *mfind(mn *m, const char *name, int deep) {
    int i; mn *r; if (m->type != ZPL_ADT_TYPE_OBJECT) return 0;
    for (i = 0; i < m->nk; i++) if (!strcmp(m->kid[i]->name, name)) return m->kid[i];
    if (deep) for (i = 0; i < m->nk; i++) if ((r = mfind(m->kid[i], name, 1))) return r;
    return 0;
}
/* give the node its content through the setters (or the makers) */
static void fill(zpl_adt_node *n, mn *m, const char *name) {
    int k = (int)vz_u(depth(m) > 6 ? 3 : 5), viamake = vz_pct(15);
    m->name = name;
    switch (k) {
        case 0: m->type = ZPL_ADT_TYPE_STRING; m->str = STRS[vz_u(8)]; if (viamake) { zpl_adt_make_leaf(n, name, ZPL_ADT_TYPE_STRING); n->string = m->str; } else zpl_adt_set_str(n, name, m->str); break;
        case 1: m->type = ZPL_ADT_TYPE_REAL; m->flt = (double)vz_range(-1000, 1000) / 8; zpl_adt_set_flt(n, name, m->flt); break;
        case 2: m->type = ZPL_ADT_TYPE_INTEGER; m->num = (int64_t)vz_edge64(); zpl_adt_set_int(n, name, m->num); break;
        case 3: m->type = ZPL_ADT_TYPE_OBJECT; VZ_CHECK(!(viamake ? zpl_adt_make_branch(n, vz_track_allocator(&T), name, 0) : zpl_adt_set_obj(n, name, vz_track_allocator(&T))), "set", "an object could not be made"); break;
        default: m->type = ZPL_ADT_TYPE_ARRAY; VZ_CHECK(!(viamake ? zpl_adt_make_branch(n, vz_track_allocator(&T), name, 1) : zpl_adt_set_arr(n, name, vz_track_allocator(&T))), "set", "an array could not be made"); break;
    }
}
static const char *rname(mn *p) { return p->type == ZPL_ADT_TYPE_OBJECT || vz_pct(30) ? NAMES[vz_u(14)] : 0; }
static void t_tree(void) {
    int i, ops = (int)vz_range(5, vz_thorough ? 300 : 90), op; uint64_t h = 0;
    int wide = vz_pct(30);
    nroots = (int)vz_range(1, 3); vz_track_init(&T); memset(R, 0, sizeof R);
    for (i = 0; i < nroots; i++) {
        int arr = vz_pct(30); M[i] = mnew(); M[i]->type = arr ? ZPL_ADT_TYPE_ARRAY : ZPL_ADT_TYPE_OBJECT; M[i]->name = vz_pct(50) ? "root" : 0;
        if (arr) zpl_adt_set_arr(&R[i], M[i]->name, vz_track_allocator(&T)); else zpl_adt_set_obj(&R[i], M[i]->name, vz_track_allocator(&T));
    }
    what = "making the roots"; cmp_all();
    while (ops--) {
        op = (int)vz_u(20); h = h * 31 + (uint64_t)op;
        if (op < 7) { /* append */
            mn *p = wide ? M[vz_u((uint64_t)nroots)] : pick(1), *m; zpl_adt_node *n, *pn; const char *nm;
            if (p->nk >= 60 || depth(p) > 8) continue;
            m = mnew(); m->par = p; pn = loc(p); nm = rname(p); m->name = nm;
            switch (op) {
                case 0: what = "append_obj"; m->type = ZPL_ADT_TYPE_OBJECT; n = vz_pct(20) ? zpl_adt_inset_obj(pn, nm) : zpl_adt_append_obj(pn, nm); break;
                case 1: what = "append_arr"; m->type = ZPL_ADT_TYPE_ARRAY; n = vz_u(2) ? zpl_adt_append_arr(pn, nm) : zpl_adt_inset_arr(pn, nm); break;
                case 2: case 3: what = "append_str"; m->type = ZPL_ADT_TYPE_STRING; m->str = STRS[vz_u(8)]; n = vz_u(3) ? zpl_adt_append_str(pn, nm, m->str) : zpl_adt_inset_str(pn, nm, m->str); break;
                case 4: what = "append_flt"; m->type = ZPL_ADT_TYPE_REAL; m->flt = (double)vz_range(-1000, 1000) / 8; { int w = (int)vz_u(3); n = w == 0 ? zpl_adt_append(pn, nm, m->flt) : w == 1 ? zpl_adt_append_flt(pn, nm, m->flt) : zpl_adt_inset_flt(pn, nm, m->flt); } break;
                case 5: what = "append_int"; m->type = ZPL_ADT_TYPE_INTEGER; m->num = (int64_t)vz_edge64(); n = vz_u(2) ? zpl_adt_append_int(pn, nm, m->num) : zpl_adt_inset_int(pn, nm, m->num); break;
                default: what = "alloc and set"; n = zpl_adt_alloc(pn); VZ_CHECK(n, "null", "alloc gave no node"); VZ_CHECK(n->parent == pn, "parent", "a new node's parent is not its container"); fill(n, m, nm); break;
            }
            VZ_CHECK(n, "null", "%s gave no node", what);
            mins(p, p->nk, m); VZ_CHECK(n == loc(m), "where", "%s did not return the last child", what); vz_stat("appends", 1);
        } else if (op < 10) { /* insert */
            mn *p = wide ? M[vz_u((uint64_t)nroots)] : pick(1), *m; zpl_adt_node *n; int at = (int)vz_range(0, p->nk); const char *nm;
            if (p->nk >= 60 || depth(p) > 8) continue;
            what = "alloc_at";
            if (vz_pct(8)) { at = vz_pct(50) ? p->nk + 1 + (int)vz_u(4) : -1 - (int)vz_u(4); VZ_CHECK(!zpl_adt_alloc_at(loc(p), at), "range", "alloc_at %d of %d gave a node", at, p->nk); cmp_all(); continue; }
            m = mnew(); m->par = p; nm = rname(p); n = zpl_adt_alloc_at(loc(p), at); VZ_CHECK(n, "null", "alloc_at %d of %d gave no node", at, p->nk);
            mins(p, at, m); VZ_CHECK(n == loc(m), "where", "alloc_at %d did not return that child", at); fill(n, m, nm); vz_stat("inserts", 1);
        } else if (op < 12) { /* change in place */
            mn *m = pick(0); zpl_adt_node *n; if (!m) continue;
            n = loc(m); if (isbr(m)) { zpl_adt_destroy_branch(n); while (m->nk) mfree(m->kid[--m->nk]); }
            what = "set"; fill(n, m, rname(m->par)); vz_stat("sets", 1);
        } else if (op < 15) { /* move */
            mn *m = pick(0), *p = vz_pct(30) && m ? m->par : pick(1); zpl_adt_node *n; int at, same;
            if (!m || within(p, m) || p->nk >= 60 || depth(p) > 8) continue;
            if (p->type == ZPL_ADT_TYPE_OBJECT && !m->name) continue;
            same = p == m->par; what = same ? "a move within the parent" : "a move to another parent";
            if (vz_pct(5)) { at = vz_pct(50) ? p->nk + 1 : -1; VZ_CHECK(!zpl_adt_move_node_at(loc(m), loc(p), at), "range", "a move to index %d of %d gave a node", at, p->nk); cmp_all(); continue; }
            if (vz_pct(30)) { at = p->nk; n = zpl_adt_move_node(loc(m), loc(p)); } else { at = (int)vz_range(0, p->nk); n = zpl_adt_move_node_at(loc(m), loc(p), at); }
            VZ_CHECK(n, "null", "%s gave no node", what);
            { int old = midx(m); mdel(m); if (same && at > old) at--; mins(p, at, m); }
            VZ_CHECK(n == loc(m), "where", "%s did not return the node's new place", what); vz_stat(same ? "moves within a parent" : "moves to another parent", 1);
        } else if (op < 17) { /* swap */
            mn *a = pick(0), *b = vz_pct(40) && a ? a->par->kid[vz_u((uint64_t)a->par->nk)] : pick(0), *pa, *pb; int ia, ib;
            if (!a || !b || (a != b && (within(a, b) || within(b, a)))) continue;
            if ((a->par->type == ZPL_ADT_TYPE_OBJECT && !b->name) || (b->par->type == ZPL_ADT_TYPE_OBJECT && !a->name)) continue;
            what = "a swap"; zpl_adt_swap_nodes(loc(a), loc(b)); pa = a->par; pb = b->par; ia = midx(a); ib = midx(b); pa->kid[ia] = b; pb->kid[ib] = a; a->par = pb; b->par = pa; vz_stat("swaps", 1);
        } else if (op < 19) { /* remove */
            mn *m = pick(0); zpl_adt_node *n; if (!m) continue;
            if (vz_pct(50)) { /* prefer small subtrees */ mn *q = pick(0); if (q->nk < m->nk) m = q; }
            n = loc(m); what = "a removal"; if (isbr(m)) zpl_adt_destroy_branch(n); zpl_adt_remove_node(n); mdel(m); mfree(m); vz_stat("removals", 1);
        } else { /* lookup */
            mn *p = pick(1), *w; int deep = vz_pct(50); const char *nm = vz_pct(90) ? NAMES[vz_u(14)] : "nowhere"; zpl_adt_node *n = zpl_adt_find(loc(p), nm, deep);
            /* everything below an object is named */
            w = mfind(p, nm, deep); what = "a lookup";
            VZ_CHECK(n == (w ? loc(w) : 0), "find", "find '%s' (%s) gave %s", nm, deep ? "deep" : "shallow", n ? (w ? "another node" : "a node where there is none") : "nothing"); vz_stat(w ? "lookups that hit" : "lookups that miss", 1);
            { mn *leaf = pick(0); if (leaf && !isbr(leaf)) { VZ_CHECK(!zpl_adt_find(loc(leaf), nm, 1) && !zpl_adt_alloc(loc(leaf)) && !zpl_adt_append_int(loc(leaf), "x", 1) && !zpl_adt_append_obj(loc(leaf), "x"), "leaf", "a leaf took part as a container"); } }
        }
        cmp_all();
    }
    vz_stat("node comparisons", seen_nodes); seen_nodes = 0;
    for (i = 0; i < nroots; i++) { zpl_adt_destroy_branch(&R[i]); mfree(M[i]); }
    VZ_TRACK_DONE(&T); vz_distinct(h); vz_sample("history %llx over %d trees", (unsigned long long)h, nroots);
}
/* many children: more than sixteen bits can count */
static void t_large(void) {
    zpl_adt_node r; size_t n = vz_near2(7, 17), k, i, m = n, gap = n; int arr = vz_pct(50); char (*nm)[12] = malloc(n * 12); uint32_t *id = malloc((n + 50) * sizeof *id); vz_track_init(&T); memset(&r, 0, sizeof r); if (arr) zpl_adt_set_arr(&r, "root", vz_track_allocator(&T)); else zpl_adt_set_obj(&r, "root", vz_track_allocator(&T));
    for (i = 0; i < n; i++) { zpl_adt_node *c; sprintf(nm[i], "k%zu", i); id[i] = (uint32_t)i; if (vz_pct(50)) { c = zpl_adt_alloc(&r); VZ_CHECK(c, "alloc", "child %zu", i); zpl_adt_set_int(c, nm[i], (zpl_i64)i); } else c = zpl_adt_append_int(&r, nm[i], (zpl_i64)i); VZ_CHECK(c == r.nodes + i && c->parent == &r, "alloc", "child %zu is at %td", i, c - r.nodes); }
    for (k = 0; k < 12; k++) { size_t at = vz_pct(30) ? m - 1 - vz_u(4) : vz_u(m); zpl_adt_node *c;
        switch (vz_u(4)) {
        case 0: zpl_adt_remove_node(r.nodes + at); memmove(id + at, id + at + 1, (m - at - 1) * sizeof *id); m--; break;
        case 1: c = zpl_adt_alloc_at(&r, (zpl_isize)at); VZ_CHECK(c == r.nodes + at, "alloc", "child inserted at %zu is at %td", at, c - r.nodes); memmove(id + at + 1, id + at, (m - at) * sizeof *id); id[at] = 7; zpl_adt_set_int(c, nm[7], 7); m++; break;
        case 2: { size_t o = vz_u(m); uint32_t t = id[at]; zpl_adt_swap_nodes(r.nodes + at, r.nodes + o); id[at] = id[o]; id[o] = t; } break;
        default: if (!arr) { size_t w = vz_pct(30) ? n - 1 : vz_u(n); for (gap = 0; gap < m && id[gap] != w; gap++) {} c = zpl_adt_find(&r, nm[w], 0); VZ_CHECK(gap < m ? c == r.nodes + gap : !c, "find", "child '%s' of %zu is %td, expected %zu", nm[w], m, c ? c - r.nodes : -1, gap); } break; }
        VZ_CHECK((size_t)zpl_array_count(r.nodes) == m, "count", "%td children, expected %zu", zpl_array_count(r.nodes), m); }
    for (i = 0; i < m; i++) VZ_CHECK(r.nodes[i].parent == &r && r.nodes[i].type == ZPL_ADT_TYPE_INTEGER && r.nodes[i].integer == id[i] && !strcmp(r.nodes[i].name, nm[id[i]]), "order", "child %zu of %zu is '%s', expected '%s'", i, m, r.nodes[i].name, nm[id[i]]);
    vz_stat("children of wide branches", m); vz_distinct(vz_hash(id, m * sizeof *id, n)); zpl_adt_destroy_branch(&r); VZ_TRACK_DONE(&T); free(nm); free(id);
}
VZ_MAIN({"edits", t_tree, 250}, {"wide", t_large, 1})
