/* path queries over generated trees against an independent step-by-step evaluation; malformed paths for safety; the tree is compared before and after */
static unsigned long vz_asserts;
#define ZPL_ASSERT_MSG(cond, msg, ...) do { if (!(cond)) vz_asserts++; } while (0)
#include "vz.h"
typedef struct mn { int type; const char *name; const char *str; double flt; int64_t num; char txt[40]; struct mn *kid[40]; int nk; zpl_adt_node *at; struct mn *par; } mn;
static const char *const NAMES[] = { "a", "b", "c", "name", "value", "foo", "first name", "x=y", "\xc3\xa9t\xc3\xa9", "0", "1", "id]", "a.b", "ab", "-1", "nam", "names" };
static const char *const VALS[] = { "x", "text", "123", "apple", "12", "apples", "two words", "\xe2\x82\xac", "true", "1.5", "a=b", "=", "-7", "0", "app", "[x" };
#define NN 17
#define NV 16
static vz_track T; static zpl_adt_node R; static mn *M, *all[3000]; static int nall, dup_names;
static mn *mnew(int type, mn *par, const char *name) { mn *m = calloc(1, sizeof *m); m->type = type; m->name = name; m->par = par; if (par) par->kid[par->nk++] = m; return m; }
static int isbr(int t) { return t == ZPL_ADT_TYPE_OBJECT || t == ZPL_ADT_TYPE_ARRAY; }
static const char *pickname(mn *p) { int i, k; const char *n; for (k = 0; k < 30; k++) { n = NAMES[vz_u(NN)]; for (i = 0; i < p->nk; i++) if (p->kid[i]->name && !strcmp(p->kid[i]->name, n)) break; if (i == p->nk || dup_names) return n; } return 0; }
/* a number matches the text it is printed as: six decimals for these reals */
static void leaf(zpl_adt_node *pn, mn *p, const char *nm) {
    mn *m; zpl_adt_node *n; 
    switch (vz_u(6)) {
        case 0: case 1: m = mnew(ZPL_ADT_TYPE_STRING, p, nm); m->str = VALS[vz_u(NV)]; n = zpl_adt_append_str(pn, nm, m->str); snprintf(m->txt, 40, "%s", m->str); break;
        case 2: m = mnew(ZPL_ADT_TYPE_INTEGER, p, nm); m->num = vz_pct(70) ? vz_range(-20, 130) : (int64_t)vz_edge64(); n = zpl_adt_append_int(pn, nm, m->num); snprintf(m->txt, 40, "%lld", (long long)m->num); break;
        case 3: m = mnew(ZPL_ADT_TYPE_MULTISTRING, p, nm); m->str = VALS[vz_u(NV)]; n = zpl_adt_append_str(pn, nm, m->str); n->type = ZPL_ADT_TYPE_MULTISTRING; snprintf(m->txt, 40, "%s", m->str); break;
        case 4: { static const char *const W[] = { "true", "false", "null" }; int k = (int)vz_u(3); m = mnew(ZPL_ADT_TYPE_REAL, p, nm); m->flt = k == 0; snprintf(m->txt, 40, "%s", W[k]); n = zpl_adt_append_flt(pn, nm, m->flt); n->props = (zpl_u8)(k == 0 ? ZPL_ADT_PROPS_TRUE : k == 1 ? ZPL_ADT_PROPS_FALSE : ZPL_ADT_PROPS_NULL); break; }
        default: { int ip = (int)vz_u(vz_pct(50) ? 20 : 100000), fp = 50; m = mnew(ZPL_ADT_TYPE_REAL, p, nm); snprintf(m->txt, 40, "%s%d.%02d", vz_pct(30) ? "-" : "", ip, fp); m->flt = atof(m->txt); n = zpl_adt_alloc(pn); if (n) { n->name = nm; zpl_adt_parse_number(n, m->txt); } snprintf(m->txt, 40, "%f", m->flt); break; }
    }
    if (!n) VZ_BROKEN("a leaf could not be made");
}
static void build(zpl_adt_node *n, mn *m, int depth) {
    int i, k = (int)vz_u(vz_pct(20) ? 14 : 5), objs = m->type == ZPL_ADT_TYPE_ARRAY && vz_pct(60);
    for (i = 0; i < k; i++) {
        const char *nm = m->type == ZPL_ADT_TYPE_OBJECT ? pickname(m) : vz_pct(15) ? NAMES[vz_u(NN)] : 0; int r = (int)vz_u(10); mn *c; zpl_adt_node *q;
        if (m->type == ZPL_ADT_TYPE_OBJECT && !nm) break;
        if (m->type == ZPL_ADT_TYPE_OBJECT && vz_pct(2)) nm = 0; /* a member without a name is never found by name */
        if (depth < 5 && nall + zpl_array_count(n->nodes) < 400 && (r < 4 || (objs && r < 8))) {
            int arr = objs ? vz_pct(10) : vz_pct(50); c = mnew(arr ? ZPL_ADT_TYPE_ARRAY : ZPL_ADT_TYPE_OBJECT, m, nm); q = arr ? zpl_adt_append_arr(n, nm) : zpl_adt_append_obj(n, nm); if (!q) VZ_BROKEN("a branch could not be made"); build(q, c, depth + 1);
        } else leaf(n, m, nm);
    }
}
static void place(zpl_adt_node *n, mn *m) { int i; m->at = n; all[nall++] = m; for (i = 0; i < m->nk; i++) place(n->nodes + i, m->kid[i]); }
static uint64_t snap(zpl_adt_node *n, uint64_t h) {
    zpl_isize i; h = vz_hash(n, sizeof *n, h); if (n->name) h = vz_hash(n->name, strlen(n->name), h);
    if ((n->type == ZPL_ADT_TYPE_STRING || n->type == ZPL_ADT_TYPE_MULTISTRING) && n->string) h = vz_hash(n->string, strlen(n->string), h);
    if (isbr(n->type)) for (i = 0; i < zpl_array_count(n->nodes); i++) h = snap(n->nodes + i, h);
    return h;
}
/* what the documentation of zpl_adt_query says, for one step */
typedef struct step { int kind; /* 0 name or index, 1 [f=v], 2 [v] */ char a[48], b[48]; } step;
static int has(mn *o, const char *f, const char *v) { int i; for (i = 0; i < o->nk; i++) if (o->kid[i]->name && !strcmp(o->kid[i]->name, f) && !isbr(o->kid[i]->type) && !strcmp(o->kid[i]->txt, v)) return 1; return 0; }
static mn *eval(mn *m, const step *s) {
    int i;
    if (!m || !isbr(m->type)) return 0;
    if (s->kind == 0 && m->type == ZPL_ADT_TYPE_OBJECT) { for (i = 0; i < m->nk; i++) if (m->kid[i]->name && !strcmp(m->kid[i]->name, s->a)) return m->kid[i]; return 0; }
    if (s->kind == 0) { const char *p = s->a; uint64_t v = 0; if (!*p) return 0; for (; *p; p++) { if (*p < '0' || *p > '9') return 0; if (v < 1000000) v = v * 10 + (uint64_t)(*p - '0'); } return v < (uint64_t)m->nk ? m->kid[v] : 0; }
    if (s->kind == 1 && m->type == ZPL_ADT_TYPE_OBJECT) return has(m, s->a, s->b) ? m : 0;
    if (s->kind == 1) { for (i = 0; i < m->nk; i++) if (m->kid[i]->type == ZPL_ADT_TYPE_OBJECT && has(m->kid[i], s->a, s->b)) return m->kid[i]; return 0; }
    if (m->type == ZPL_ADT_TYPE_ARRAY) { for (i = 0; i < m->nk; i++) if (!isbr(m->kid[i]->type) && !strcmp(m->kid[i]->txt, s->a)) return m->kid[i]; }
    return 0;
}
static int plain(const char *s, const char *bad) { return *s && !strpbrk(s, bad); }
static int mkstep(mn *m, step *s) { /* one step from m: mostly one that hits */
    mn *c = m && m->nk ? m->kid[vz_u((uint64_t)m->nk)] : 0; int hit = vz_pct(88) && c; s->a[0] = s->b[0] = 0;
    if (m && m->type == ZPL_ADT_TYPE_OBJECT) {
        if (vz_pct(20)) { s->kind = 1; snprintf(s->a, 48, "%s", hit && c->name ? c->name : NAMES[vz_u(NN)]); snprintf(s->b, 48, "%s", hit && !isbr(c->type) ? c->txt : VALS[vz_u(NV)]); return plain(s->a, "/=]") && plain(s->b, "/]"); }
        s->kind = 0; snprintf(s->a, 48, "%s", hit && c->name ? c->name : NAMES[vz_u(NN)]); return s->a[0] && s->a[0] != '[' && !strchr(s->a, '/');
    }
    if (m && m->type == ZPL_ADT_TYPE_ARRAY) {
        mn *f = c && c->type == ZPL_ADT_TYPE_OBJECT && c->nk ? c->kid[vz_u((uint64_t)c->nk)] : 0; int r = (int)vz_u(10);
        if (f && r < 5) { s->kind = 1; snprintf(s->a, 48, "%s", hit && f->name ? f->name : NAMES[vz_u(NN)]); snprintf(s->b, 48, "%s", hit && !isbr(f->type) ? f->txt : VALS[vz_u(NV)]); return plain(s->a, "/=]") && plain(s->b, "/]"); }
        if (r < 7) { s->kind = 2; snprintf(s->a, 48, "%s", hit && c && !isbr(c->type) ? c->txt : VALS[vz_u(NV)]); return plain(s->a, "/=]"); }
        s->kind = 0;
        if (vz_pct(80)) snprintf(s->a, 48, "%d", (int)vz_u((uint64_t)m->nk + 1));
        else { static const char *const W[] = { "x", "1x", "abc", "99999999999", "18446744073709551616", "18446744073709551617", "4294967296", "00", "007", "1 ", "0.", "9223372036854775808", "-", "-2" }; snprintf(s->a, 48, "%s", W[vz_u(14)]); }
        return 1;
    }
    s->kind = 0; snprintf(s->a, 48, "%s", NAMES[vz_u(NN)]); return s->a[0] != '[';
}
static int hits;
static void setup(void) { int arr = vz_pct(40); dup_names = vz_pct(25); vz_track_init(&T); memset(&R, 0, sizeof R); nall = 0; M = mnew(arr ? ZPL_ADT_TYPE_ARRAY : ZPL_ADT_TYPE_OBJECT, 0, 0); if (arr) zpl_adt_set_arr(&R, 0, vz_track_allocator(&T)); else zpl_adt_set_obj(&R, 0, vz_track_allocator(&T)); do { build(&R, M, 0); } while (M->nk < 3); place(&R, M); }
static void done(void) { int i; for (i = 0; i < nall; i++) free(all[i]); zpl_adt_destroy_branch(&R); VZ_TRACK_DONE(&T); }
static void t_path(void) {
    int q; uint64_t h0;
    setup(); h0 = snap(&R, 1);
    for (q = 0; q < 40; q++) {
        char path[1024]; size_t l = 0; mn *m = M, *start = vz_pct(75) ? M : all[vz_u((uint64_t)nall)]; int i, n = (int)vz_range(0, 6), bad = 0; char *p; zpl_adt_node *got; uint64_t h = 7;
        m = start;
        if (vz_pct(25)) path[l++] = '/';
        for (i = 0; i < n && !bad; i++) {
            step s; mn *was = m; if (!mkstep(m, &s)) { n = i; break; }
            if (i) { path[l++] = '/'; if (vz_pct(8)) path[l++] = '/'; }
            l += (size_t)sprintf(path + l, s.kind == 0 ? "%s" : s.kind == 1 ? "[%s=%s]" : "[%s]", s.a, s.b);
            if (was && was->type == ZPL_ADT_TYPE_OBJECT && s.kind == 2) bad = 1;
            m = eval(m, &s); vz_stat(s.kind == 0 ? (was && was->type == ZPL_ADT_TYPE_ARRAY ? "index steps" : "name steps") : s.kind == 1 ? "field filters" : "value filters", 1); h = h * 131 + (uint64_t)s.kind * 3 + (m != 0);
            if (!m && vz_pct(70)) { n = i + 1; break; }
        }
        while (l && path[l - 1] == '/' && n > 0 && vz_pct(50)) l--;
        if (n && vz_pct(5) && path[l - 1] != '/') path[l++] = '/';
        p = vz_dup(path, l + 1); p[l] = 0; path[l] = 0; vz_asserts = 0; got = vz_u(4) ? zpl_adt_query(start->at, p) : zpl_adt_get(start->at, p);
        VZ_CHECK(got == (m ? m->at : 0), m ? (got ? "wrong node" : "missed") : "ghost", "'%s' from a%s gives %s", p, start->type == ZPL_ADT_TYPE_ARRAY ? "n array" : start->type == ZPL_ADT_TYPE_OBJECT ? "n object" : " leaf", got ? (m ? "another node than the one its steps lead to" : "a node though a step has no match") : "nothing though every step has a match");
        VZ_CHECK(!vz_asserts, "assert", "'%s' is well-formed but tripped an assertion", p);
        VZ_CHECK(!memcmp(p, path, l + 1), "path changed", "the query changed its path '%s'", path);
        vz_undup(p); vz_stat(m ? "queries that hit" : "queries that miss", 1); vz_sample("'%s' %s", path, m ? "hits" : "misses"); if (m && n > 1) vz_distinct(vz_hash(path, l, (uint64_t)start->nk + (uint64_t)nall * 977)); if (m) hits++;
    }
    VZ_CHECK(snap(&R, 1) == h0, "modified", "queries changed the tree");
    done();
}
static void t_hostile(void) {
    int q, i; uint64_t h0; setup(); h0 = snap(&R, 1);
    for (q = 0; q < 40; q++) {
        static const char *const T_[] = { "[", "]", "=", "/", "//", "[a", "a]", "[=", "=]", "[]", "[=]", "a", "name", "0", "1", "-1", "[x]", "[name=x]", "[a=", "[[", "]]", "[foo=[x]", "\xff", " ", "%s%n", "[a]=b]" };
        size_t l = 0, cap = vz_pct(3) ? 200000 : 400; char *path = malloc(cap + 64), *p; zpl_adt_node *got; int n = (int)vz_range(1, 9), k;
        if (cap > 1000) { size_t w = (size_t)vz_range(65000, 66500); int c = "a[/=0"[vz_u(5)]; if (vz_pct(30)) l += (size_t)sprintf(path, "[a="); memset(path + l, c, w); l += w; vz_stat("very long paths", 1); if (c == '/') { l = 2000 + l % 1000; } }
        for (k = 0; k < n; k++) { if (vz_pct(85)) { const char *t = T_[vz_u(26)]; memcpy(path + l, t, strlen(t)); l += strlen(t); } else path[l++] = (char)(1 + vz_u(255)); if (vz_pct(50)) path[l++] = '/'; }
        path[l] = 0; p = vz_dup(path, l + 1); vz_asserts = 0; { mn *s = all[vz_u((uint64_t)nall)]; got = zpl_adt_query(s->at, p); if (got) { for (i = 0; i < nall; i++) if (all[i]->at == got) break; VZ_CHECK(i < nall, "outside", "'%s' gave a pointer that is no node of the tree", vz_show(p, l)); } VZ_CHECK(!vz_asserts || !got, "assert", "'%s' was refused but gave a node", vz_show(p, l)); }
        VZ_CHECK(!memcmp(p, path, l + 1), "path changed", "the query changed its path '%s'", vz_show(path, l));
        vz_stat("malformed paths", 1); if (vz_asserts) vz_stat("malformed paths refused", 1); vz_distinct(vz_hash(path, l, 3)); vz_undup(p); free(path);
    }
    VZ_CHECK(snap(&R, 1) == h0, "modified", "malformed queries changed the tree");
    done();
}
/* long names and values, and others that are the same up to some length */
static void t_long(void) {
    size_t n = vz_near2(6, 17), cut = vz_pct(50) && n > 65535 ? 65535 : n - 1 - vz_u(n < 3 ? n : 3), i; char *nm = malloc(n + 1), *sh = malloc(n + 1), *val = malloc(n + 1), *path = malloc(4 * n + 64); zpl_adt_node r, *o, *d, *w; int arr = vz_pct(50), first = vz_pct(50); zpl_isize hb = vz_heap_bytes();
    for (i = 0; i < n; i++) { nm[i] = "abcdefgh"[vz_u(8)]; val[i] = "klmnop"[vz_u(6)]; } nm[n] = val[n] = 0; memcpy(sh, nm, n + 1); sh[cut] = 0; vz_track_init(&T); memset(&r, 0, sizeof r); zpl_adt_set_obj(&r, "root", vz_track_allocator(&T));
    zpl_adt_append_obj(&r, first ? sh : nm); zpl_adt_append_obj(&r, first ? nm : sh); o = r.nodes + (first ? 1 : 0); d = r.nodes + (first ? 0 : 1); o->name = nm; d->name = sh; zpl_adt_append_int(o, nm, 1); zpl_adt_append_int(d, nm, 2);
    sprintf(path, "%s", nm); w = zpl_adt_query(&r, path); VZ_CHECK(w == o, "long-name", "a name of %zu bytes gives %s", n, w == d ? "a shorter one" : "nothing"); sprintf(path, "/%s/%s", nm, nm); w = zpl_adt_query(&r, path); VZ_CHECK(w == o->nodes, "long-name", "the step below a name of %zu bytes", n); sprintf(path, "%s/%s", sh, nm); w = zpl_adt_query(&r, path); VZ_CHECK(w == d->nodes, "long-name", "the step below a name of %zu bytes", cut); sprintf(path, "%sx/%s", nm, nm); VZ_CHECK(!zpl_adt_query(&r, path), "long-name", "a name of %zu bytes that is not there is found", n + 1);
    zpl_adt_destroy_branch(&r); memset(&r, 0, sizeof r); memcpy(sh, val, n + 1); sh[cut] = 0; zpl_adt_set_arr(&r, "root", vz_track_allocator(&T));
    for (i = 0; i < 2; i++) { const char *v = (i == 0) == first ? sh : val; if (arr) { zpl_adt_append_str(&r, 0, v); } else { zpl_adt_append_obj(&r, 0); zpl_adt_append_str(r.nodes + i, nm, v); } }
    o = r.nodes + (first ? 1 : 0); if (arr) sprintf(path, "[%s]", val); else sprintf(path, "[%s=%s]", nm, val); w = zpl_adt_query(&r, path); VZ_CHECK(w == o, "long-value", "a value of %zu bytes gives %s", n, w ? "a shorter one" : "nothing"); if (!arr) { sprintf(path, "[%s=%s]/%s", nm, val, nm); w = zpl_adt_query(&r, path); VZ_CHECK(w == o->nodes, "long-value", "the step below a value of %zu bytes", n); }
    if (arr) sprintf(path, "[%sx]", val); else sprintf(path, "[%s=%sx]", nm, val); VZ_CHECK(!zpl_adt_query(&r, path), "long-value", "a value of %zu bytes that is not there is found", n + 1);
    zpl_adt_destroy_branch(&r); VZ_TRACK_DONE(&T); VZ_CHECK(vz_heap_bytes() == hb, "memory-leak", "%zd bytes", (ssize_t)(vz_heap_bytes() - hb)); vz_stat("queries with long steps", 6); vz_distinct(vz_hash(nm, n, (uint64_t)arr)); free(nm); free(sh); free(val); free(path);
}
VZ_MAIN({"path", t_path, 200}, {"hostile", t_hostile, 80}, {"long", t_long, 3})
