/* managed strings against an ideal string; several live at once in one tracking allocator */
#include "vz.h"
typedef struct { zpl_string s; char *m; size_t n; } rec;
static vz_track T; static zpl_allocator A;
static void mset(rec *r, const char *p, size_t n) { char *q = malloc(n + 1); memcpy(q, p, n); q[n] = 0; free(r->m); r->m = q; r->n = n; }
static void mapp(rec *r, const char *p, size_t n) { char *q = malloc(r->n + n + 1); memcpy(q, r->m, r->n); memcpy(q + r->n, p, n); q[r->n + n] = 0; free(r->m); r->m = q; r->n += n; }
static void chk(rec *r, const char *op) {
    VZ_CHECK(r->s, "null", "%s returned null", op);
    VZ_CHECK((size_t)zpl_string_length(r->s) == r->n, "length", "%s: length %zd, expected %zu", op, (ssize_t)zpl_string_length(r->s), r->n);
    VZ_CHECK(zpl_string_capacity(r->s) >= zpl_string_length(r->s), "capacity", "%s: capacity %zd below length %zu", op, (ssize_t)zpl_string_capacity(r->s), r->n);
    VZ_CHECK(!memcmp(r->s, r->m, r->n), "contents", "%s: '%s' instead of '%s'", op, vz_show(r->s, r->n), vz_show(r->m, r->n));
    VZ_CHECK(r->s[r->n] == 0, "terminator", "%s: missing", op);
    VZ_CHECK(zpl_string_allocation_size(r->s) >= (zpl_isize)sizeof(zpl_string_header) + zpl_string_capacity(r->s), "space", "%s: allocation size below header and capacity", op); VZ_CHECK(zpl_string_available_space(r->s) == zpl_string_capacity(r->s) - zpl_string_length(r->s), "space", "%s", op);
    /* the capacity is really there */
    { vz_blk **b = vz_track_find(&T, ZPL_STRING_HEADER(r->s)); VZ_CHECK(b && (*b)->n >= sizeof(zpl_string_header) + (size_t)zpl_string_capacity(r->s) + 1, "capacity", "%s: more capacity than memory", op); }
}
static char *rtxt(size_t max, size_t *n) {
    static const char al[] = "ab \t\nxyz\v\r\f"; size_t i; char *p; *n = vz_pct(15) ? 0 : vz_u(vz_pct(85) ? 16 : max); p = malloc(*n + 1);
    for (i = 0; i < *n; i++) p[i] = vz_pct(80) ? al[vz_u(sizeof al - 1)] : (char)(1 + vz_u(255)); p[*n] = 0; return p;
}
static void t_edit(void) {
    rec r[6]; int k, nr = 0, ops = (int)vz_range(4, 60), used = 0; uint64_t h = 0; char hist[200] = ""; size_t hl = 0;
    vz_track_init(&T); A = vz_track_allocator(&T); memset(r, 0, sizeof r);
    for (k = 0; k < ops; k++) {
        int i = nr ? (int)vz_u((uint64_t)nr) : 0, op; const char *name = "?"; size_t n; char *t = rtxt(300, &n); rec *q = &r[i];
        if (nr == 0 || (nr < 6 && vz_pct(15))) {
            q = &r[nr++]; q->m = 0;
            switch (vz_u(6)) {
                case 0: name = "make"; q->s = zpl_string_make(A, t); mset(q, t, n); break;
                case 1: name = "make_length"; { char *u = vz_dup(t, n); q->s = zpl_string_make_length(A, u, (zpl_isize)n); vz_undup(u); } mset(q, t, n); break;
                case 2: name = "make_reserve"; q->s = zpl_string_make_reserve(A, (zpl_isize)n); mset(q, "", 0); VZ_CHECK(q->s && (size_t)zpl_string_capacity(q->s) >= n, "capacity", "reserve"); break;
                case 3: name = "sprintf_buf"; { char *u = malloc(n + 40); sprintf(u, "%s|%d", t, k); q->s = zpl_string_sprintf_buf(A, "%s|%d", t, k); mset(q, u, strlen(u)); free(u); } break;
                case 4: name = "sprintf"; { char *u = malloc(n + 40), *w = malloc(n + 40); sprintf(u, "%d%s", k, t); q->s = zpl_string_sprintf(A, w, (zpl_isize)n + 40, "%d%s", k, t); mset(q, u, strlen(u)); free(u); free(w); } break;
                default: name = "join"; { const char *parts[5]; char *tofree[5]; int c = (int)vz_u(6), j; size_t z, gl; char *glue = rtxt(5, &gl); q->m = 0; mset(q, "", 0);
                    for (j = 0; j < c; j++) { parts[j] = tofree[j] = rtxt(40, &z); mapp(q, parts[j], z); if (j + 1 < c) mapp(q, glue, gl); }
                    q->s = zpl_string_join(A, parts, c, glue); for (j = 0; j < c; j++) free(tofree[j]); free(glue); }
            }
            op = 20;
        } else switch (op = (int)vz_u(14)) {
            case 0: case 1: name = "appendc"; q->s = zpl_string_appendc(q->s, t); mapp(q, t, n); break;
            case 2: name = "append_length"; { char *u = vz_dup(t, n); q->s = zpl_string_append_length(q->s, u, (zpl_isize)n); vz_undup(u); } mapp(q, t, n); break;
            case 3: name = "append"; { rec *o = &r[vz_u((uint64_t)nr)]; size_t on = o->n; char *c = strdup(""); free(c); if (q->n + on > 5000) break; c = malloc(on + 1); memcpy(c, o->m, on); q->s = zpl_string_append(q->s, o->s); mapp(q, c, on); free(c); } break;
            case 4: name = "append_rune"; { unsigned char b[4]; uint32_t c = (uint32_t)(vz_pct(50) ? vz_range(1, 0x7f) : vz_pct(50) ? vz_range(0x80, 0xd7ff) : vz_range(0xe000, 0x10ffff)); int w;
                if (c < 0x80) { b[0] = (unsigned char)c; w = 1; } else if (c < 0x800) { b[0] = 0xc0 | (c >> 6); b[1] = 0x80 | (c & 63); w = 2; } else if (c < 0x10000) { b[0] = 0xe0 | (c >> 12); b[1] = 0x80 | ((c >> 6) & 63); b[2] = 0x80 | (c & 63); w = 3; } else { b[0] = 0xf0 | (c >> 18); b[1] = 0x80 | ((c >> 12) & 63); b[2] = 0x80 | ((c >> 6) & 63); b[3] = 0x80 | (c & 63); w = 4; }
                q->s = zpl_string_append_rune(q->s, (zpl_rune)c); mapp(q, (char *)b, (size_t)w); } break;
            case 5: name = "append_fmt"; { char *u = malloc(n + 60); sprintf(u, "<%d %s %x>", k, t, k * 977); q->s = zpl_string_append_fmt(q->s, "<%d %s %x>", k, t, k * 977); mapp(q, u, strlen(u)); free(u); } break;
            case 6: case 7: name = "set"; q->s = zpl_string_set(q->s, t); mset(q, t, n); break;
            case 8: name = "clear"; zpl_string_clear(q->s); mset(q, "", 0); break;
            case 9: name = "trim"; { char cut[8]; size_t a = 0, e = q->n, z; int c = (int)vz_u(5); for (z = 0; z < (size_t)c; z++) cut[z] = "ab \t\nxyz"[vz_u(8)]; cut[c] = 0;
                while (a < e && strchr(cut, q->m[a])) a++; while (e > a && strchr(cut, q->m[e - 1])) e--;
                q->s = zpl_string_trim(q->s, cut); { char *x = malloc(e - a + 1); memcpy(x, q->m + a, e - a); mset(q, x, e - a); free(x); } } break;
            case 10: name = "trim_space"; { size_t a = 0, e = q->n; while (a < e && strchr(" \t\r\n\v\f", q->m[a])) a++; while (e > a && strchr(" \t\r\n\v\f", q->m[e - 1])) e--;
                q->s = zpl_string_trim_space(q->s); { char *x = malloc(e - a + 1); memcpy(x, q->m + a, e - a); mset(q, x, e - a); free(x); } } break;
            case 11: name = "make_space_for"; { zpl_isize add = (zpl_isize)vz_u(200); q->s = zpl_string_make_space_for(q->s, add); VZ_CHECK(q->s && zpl_string_available_space(q->s) >= add, "capacity", "make_space_for %zd", (ssize_t)add); } break;
            case 12: name = "duplicate"; if (nr < 6) { rec *d = &r[nr++]; d->m = 0; d->s = zpl_string_duplicate(A, q->s); mset(d, q->m, q->n); chk(d, name); VZ_CHECK(d->s != q->s, "duplicate", "same string"); } break;
            case 13: name = "free"; if (nr > 1) { zpl_string_free(q->s); free(q->m); r[i] = r[--nr]; q = &r[0]; } break;
        }
        free(t); used++;
        if (hl < 180) hl += (size_t)snprintf(hist + hl, sizeof hist - hl, "%s ", name);
        h = h * 131 + (uint64_t)op * 7 + n;
        { int j; for (j = 0; j < nr; j++) chk(&r[j], name); }
        { rec *a = &r[vz_u((uint64_t)nr)], *b = &r[vz_u((uint64_t)nr)]; VZ_CHECK(!!zpl_string_are_equal(a->s, b->s) == (a->n == b->n && !memcmp(a->m, b->m, a->n)), "are_equal", "'%s' '%s'", vz_show(a->m, a->n), vz_show(b->m, b->n)); }
    }
    while (nr) { nr--; zpl_string_free(r[nr].s); free(r[nr].m); }
    VZ_TRACK_DONE(&T); vz_stat("edits", (uint64_t)used); vz_distinct(h); vz_sample("%s", hist);
}
/* long strings: more than sixteen bits can count */
static void t_large(void) {
    rec r; size_t n = vz_near2(8, 17), k, i; char *t = malloc(2 * n + 1); const char *name = "?"; memset(&r, 0, sizeof r); vz_track_init(&T); A = vz_track_allocator(&T); for (i = 0; i < 2 * n; i++) t[i] = (char)vz_range(1, 255); t[n] = 0;
    switch (vz_u(4)) { case 0: name = "make"; r.s = zpl_string_make(A, t); mset(&r, t, n); break; case 1: name = "make_length"; r.s = zpl_string_make_length(A, t, (zpl_isize)n); mset(&r, t, n); break; case 2: name = "make_reserve"; r.s = zpl_string_make_reserve(A, (zpl_isize)n); mset(&r, "", 0); break; default: name = "join"; { const char *p[2]; size_t h = n / 2; char *u = malloc(h + 1); memcpy(u, t, h); u[h] = 0; p[0] = u; p[1] = t + h; r.s = zpl_string_join(A, p, 2, "--"); mset(&r, u, h); mapp(&r, "--", 2); mapp(&r, t + h, n - h); free(u); } }
    chk(&r, name);
    for (k = 0; k < 8; k++) { switch (vz_u(8)) {
        case 0: name = "appendc"; if (r.n > 500000) break; r.s = zpl_string_appendc(r.s, t); mapp(&r, t, n); break;
        case 1: name = "append_length"; if (r.n > 500000) break; i = vz_near2(8, 16); if (i > n) i = n; r.s = zpl_string_append_length(r.s, t, (zpl_isize)i); mapp(&r, t, i); break;
        case 2: name = "append"; if (r.n > 500000) break; { zpl_string d = zpl_string_make(A, t); r.s = zpl_string_append(r.s, d); mapp(&r, t, n); VZ_CHECK(!memcmp(d, t, n + 1), "contents", "append changed what was appended"); zpl_string_free(d); } break;
        case 3: name = "set"; r.s = zpl_string_set(r.s, t); mset(&r, t, n); break;
        case 4: name = "trim"; { char *c; size_t a = 0, e = r.n; char cut[3] = {t[0], t[n - 1], 0}; while (a < e && (r.m[a] == cut[0] || r.m[a] == cut[1])) a++; while (e > a && (r.m[e - 1] == cut[0] || r.m[e - 1] == cut[1])) e--; r.s = zpl_string_trim(r.s, cut); c = malloc(e - a + 1); memcpy(c, r.m + a, e - a); mset(&r, c, e - a); free(c); } break;
        case 5: name = "append_rune"; r.s = zpl_string_append_rune(r.s, 0x20ac); mapp(&r, "\xe2\x82\xac", 3); break;
        case 6: name = "make_space_for"; i = vz_near2(8, 17); r.s = zpl_string_make_space_for(r.s, (zpl_isize)i); VZ_CHECK(r.s && zpl_string_available_space(r.s) >= (zpl_isize)i, "capacity", "make_space_for %zu", i); break;
        default: name = "duplicate"; { zpl_string d = zpl_string_duplicate(A, r.s); VZ_CHECK(d && d != r.s && zpl_string_are_equal(d, r.s), "duplicate", "of %zu bytes differs", r.n); if (r.n) { d[r.n - 1] ^= 1; VZ_CHECK(!zpl_string_are_equal(d, r.s), "are_equal", "strings of %zu bytes that differ in the last", r.n); d[r.n - 1] ^= 1; } zpl_string_free(r.s); r.s = d; } break; }
        chk(&r, name); }
    vz_stat("bytes of long strings", r.n); vz_distinct(vz_hash(r.m, r.n, n)); vz_sample("a string of %zu bytes", r.n); zpl_string_free(r.s); free(r.m); free(t); VZ_TRACK_DONE(&T);
}
VZ_MAIN({"edits", t_edit, 200}, {"long", t_large, 1})
