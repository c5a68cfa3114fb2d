/* arbitrary, mutated and damaged text through the CSV and URI parsers: memory, error or walkable tree, everything released */
#include "vz.h"
static vz_track T; static char *lo, *hi;
static const char *sh(const char *t, size_t n) { return vz_show(t, n > 250 ? 250 : n); }
static void inside(const char *s, const char *what) { VZ_CHECK(s, "null", "%s is missing", what); if (s >= lo && s < hi) VZ_CHECK(s + strlen(s) < hi, "outside", "%s runs out of the text parsed", what); else VZ_CHECK(!*s, "outside", "%s lies outside the text parsed", what); }
static void leaf(zpl_adt_node *n, zpl_adt_node *par) {
    VZ_CHECK(n->parent == par, "parent", "a node's parent is wrong");
    if (n->type == ZPL_ADT_TYPE_STRING) inside(n->string, "a value"); else VZ_CHECK(n->type == ZPL_ADT_TYPE_INTEGER || n->type == ZPL_ADT_TYPE_REAL, "type", "a value of type %d in a tree that was accepted", n->type);
}
static int finite_(const char *s) { return !strstr(s, "inf") && !strstr(s, "nan"); }
static zpl_u8 csv(const char *text, size_t l, char d, int header, int must, const char *what) {
    zpl_adt_node root; char *t = vz_dup(text, l + 1); zpl_u8 e; zpl_isize i, k, rows; t[l] = 0; l = strlen(t); vz_track_init(&T); memset(&root, 0x5a, sizeof root); if (vz_pct(4)) { T.fail_at = vz_u(10); T.fail_after = vz_pct(50); }
    e = d == ',' && vz_pct(50) ? zpl_csv_parse(&root, t, vz_track_allocator(&T), header) : zpl_csv_parse_delimiter(&root, t, vz_track_allocator(&T), header, d);
    VZ_CHECK(e <= ZPL_CSV_ERROR_MISMATCHED_ROWS, "code", "error code %d", e);
    if (T.failed) vz_stat("CSV parses with a failing allocator", 1); else if (must == 1) VZ_CHECK(e, "accepted", "CSV text %s is accepted (delimiter '%c'): %s", what, d, sh(text, l)); else if (must == 2) VZ_CHECK(!e, "refused", "CSV text %s is refused with %d: %s", what, e, sh(text, l));
    if (!e) {
        zpl_file f; zpl_isize sz; char *o; lo = t; hi = t + l + 1; VZ_CHECK(root.nodes && zpl_array_count(root.nodes) > 0, "columns", "an accepted table without columns: %s", sh(text, l)); rows = -1;
        for (i = 0; i < zpl_array_count(root.nodes); i++) {
            zpl_adt_node *c = root.nodes + i; VZ_CHECK(c->parent == &root && c->type == ZPL_ADT_TYPE_ARRAY && c->nodes, "column", "column %ld is no array", (long)i); if (header) inside(c->name, "a header");
            if (rows < 0) rows = zpl_array_count(c->nodes); VZ_CHECK(zpl_array_count(c->nodes) == rows, "ragged", "an accepted table has columns of %ld and %ld rows: %s", (long)rows, (long)zpl_array_count(c->nodes), sh(text, l));
            for (k = 0; k < rows; k++) { zpl_adt_node *n = c->nodes + k; leaf(n, c); if (n->type == ZPL_ADT_TYPE_REAL && n->real - n->real != 0) vz_stat("overflowing reals", 1); }
        }
        vz_stat("tables walked", 1); vz_stat("cells walked", (uint64_t)((rows > 0 ? rows : 0) * zpl_array_count(root.nodes)));
        memset(&f, 0, sizeof f); if (!zpl_file_stream_new(&f, zpl_heap())) VZ_BROKEN("no stream"); zpl_csv_write_delimiter(&f, &root, d); o = (char *)zpl_file_stream_buf(&f, &sz);
        if ((rows > 0 || header) && !strchr("0123456789+-.eExX\"", d) && d != '\n' && d && d != '\r') {
            zpl_adt_node two; char *u = malloc((size_t)sz + 1); memcpy(u, o, (size_t)sz); u[sz] = 0; (void)finite_;
            VZ_CHECK(!zpl_csv_parse_delimiter(&two, u, zpl_heap(), header, d) && zpl_array_count(two.nodes) == zpl_array_count(root.nodes) && zpl_array_count(two.nodes[0].nodes) == rows, "rewrite", "an accepted table does not read back with its size after it was written (delimiter '%c'): %s", d, sh(text, l));
            zpl_csv_free(&two); free(u); vz_stat("accepted tables read back", 1);
        }
        zpl_file_close(&f);
    } else vz_stat("CSV refusals", 1);
    zpl_csv_free(&root); VZ_CHECK(!T.live, "leak", "blocks of a%s table are still allocated after it was freed: %s", e ? " refused" : "n accepted", sh(text, l)); VZ_TRACK_DONE(&T); vz_undup(t); return e;
}
static void uri(const char *text, size_t l, int fields) {
    zpl_adt_node root; char *t = vz_dup(text, l + 1); zpl_u8 e; zpl_isize i; t[l] = 0; l = strlen(t); vz_track_init(&T); memset(&root, 0x5a, sizeof root); if (vz_pct(4)) { T.fail_at = vz_u(6); T.fail_after = vz_pct(50); }
    e = zpl_uri_parse(&root, t, vz_track_allocator(&T)); VZ_CHECK(e <= ZPL_URI_ERROR_INTERNAL, "code", "error code %d", e); if (T.failed) vz_stat("URI parses with a failing allocator", 1); else VZ_CHECK(!e, "refused", "a URI is refused with %d", e);
    if (!e) {
        zpl_file f; zpl_isize sz; lo = t; hi = t + l + 1; if (fields >= 0 && !T.failed) VZ_CHECK(zpl_array_count(root.nodes) == fields, "fields", "%ld fields instead of %d: %s", (long)zpl_array_count(root.nodes), fields, sh(text, l));
        for (i = 0; i < zpl_array_count(root.nodes); i++) { zpl_adt_node *n = root.nodes + i; if (strcmp(n->name, "__zpl_origin__")) inside(n->name, "a name"); leaf(n, &root); }
        vz_stat("URIs walked", 1); vz_stat("fields walked", (uint64_t)zpl_array_count(root.nodes)); memset(&f, 0, sizeof f); if (!zpl_file_stream_new(&f, zpl_heap())) VZ_BROKEN("no stream"); zpl_uri_write(&f, &root); zpl_file_stream_buf(&f, &sz); zpl_file_close(&f);
    }
    zpl_uri_free(&root); VZ_CHECK(!T.live, "leak", "blocks of a URI are still allocated after it was freed: %s", sh(text, l)); VZ_TRACK_DONE(&T); vz_undup(t);
}
static char *b; static size_t bl;
static void add(const char *s, size_t n) { b = realloc(b, bl + n + 1); memcpy(b + bl, s, n); bl += n; b[bl] = 0; }
static void adds(const char *s) { add(s, strlen(s)); }
static const char D[] = ",,,,;|\t:# a0.-\"\xff\r"; static char dl(void) { return D[vz_u(sizeof D - 1)]; }
static void table(char d, int cols, int rows) { /* well formed */
    int r, k; bl = 0; adds(""); for (r = 0; r < rows; r++) { for (k = 0; k < cols; k++) { if (k) add(&d, 1); switch (vz_u(6)) { case 0: adds("x"); break; case 1: adds("\"a\"\"b\""); break; case 2: adds("\"q\n1\""); break; case 3: if (cols > 1) break; adds("y"); break; case 4: adds("12"); break; default: adds("zz"); } } adds("\n"); }
}
static void mutate(int u) {
    static const char *const TC[] = { "\"", "\"\"", ",", ";", "\n", "\r\n", "\t", " ", "1", "-", "1e999", "0x", "x", "\xff", "\"a\"", ",,", "\"\"\"", "\n\n", "1.5", "%s%n", "|", "\x01", "\v", "\"\n\"", ":" };
    static const char *const TU[] = { "%", "%4", "%41", "%zz", "%00", "&", "?", "=", "+", " ", "\n", "a", "1", "1e999", "-", "0x", "__zpl_origin__", "%s%n", "\xff", "%%", "==", "&&", "??", "%2%35", "/" };
    size_t at = vz_u(bl + 1), k;
    switch (vz_u(4)) {
        case 0: if (bl) { k = 1 + vz_u(vz_pct(70) ? 2 : 20); if (at >= bl) at = bl - 1; if (k > bl - at) k = bl - at; memmove(b + at, b + at + k, bl - at - k + 1); bl -= k; } break;
        case 1: if (bl) { if (at >= bl) at = bl - 1; b[at] = vz_pct(70) ? "\",\n %&=?;|"[vz_u(10)] : (char)(1 + vz_u(255)); } break;
        default: { const char *t = u ? TU[vz_u(25)] : TC[vz_u(25)]; size_t n = strlen(t), was = bl; add(t, n); memmove(b + at + n, b + at, was - at); memcpy(b + at, t, n); }
    }
}
static void t_csvmut(void) { int q; char d = dl(); for (q = 0; q < 14; q++) { int m = (int)vz_u(vz_pct(70) ? 4 : 20); if (vz_pct(25)) { bl = 0; adds(""); m += 4; } else table(d, 1 + (int)vz_u(5), 1 + (int)vz_u(5)); while (m--) mutate(0); csv(b, bl, d, (int)vz_u(2), 0, ""); vz_stat("CSV mutants", 1); vz_distinct(vz_hash(b, bl, (uint64_t)d)); } vz_sample("%s", sh(b, bl > 80 ? 80 : bl)); }
static void t_csvcut(void) { /* cut at every position; an open quote has to be refused */
    char d = ",;|\t"[vz_u(4)]; size_t i, n; char *c; int q = 0; table(d, 1 + (int)vz_u(4), 1 + (int)vz_u(4)); n = bl; c = malloc(n + 1); memcpy(c, b, n + 1); csv(c, n, d, (int)vz_u(2), 2, "in one piece");
    for (i = 0; i < n; i++) { csv(c, i, d, (int)vz_u(2), q ? 1 : 0, "cut inside a quoted field"); if (c[i] == '"') q = !q; vz_distinct(vz_hash(c, i, 5)); } vz_stat("CSV cuts", n); free(c);
}
static void t_ragged(void) { /* one field too many or too few somewhere */
    char d = ",;|\t:"[vz_u(5)], cell[8] = "c"; int cols = 1 + (int)vz_u(6), rows = 2 + (int)vz_u(6), bad = (int)vz_u((uint64_t)rows), w, r, k, m = (int)vz_u(4); do w = 1 + (int)vz_u(8); while (w == cols); if (!bad && w == cols) return;
    bl = 0; adds(""); for (r = 0; r < rows; r++) { int n = r == bad ? w : cols; for (k = 0; k < n; k++) { if (k) add(&d, 1); if (m == 1) strcpy(cell, "\"c\""); else if (m == 2) strcpy(cell, "7"); else if (m == 3 && n > 1) strcpy(cell, ""); else strcpy(cell, "c"); adds(cell); } if (r < rows - 1 || vz_pct(50)) adds("\n"); }
    csv(b, bl, d, (int)vz_u(2), 1, "with rows of different lengths"); vz_stat("ragged tables", 1); vz_distinct(vz_hash(b, bl, 6));
}
static void t_special(void) {
    static const char *const BAD[] = { "", " ", "\n", "\n\n\n", "\"", "\"a", "\"a\"\"", "\"a\",\"", "a,b\n\"", "\"a\"x", "\"a\" x,b", "a,b\n1", "a\n1,2", "a,b\n1,2,3", "a,b\n1,2\n3", " \t \r\n ", "a,\"b\"c\n", "\"\"\"", "a,b\n,,", "a\n,", ",\n,,\n" };
    static const char *const OK[] = { "a", ",", ",,\n", "a,\n,b", "\"\"", "\"\"\"\"", "a\r\nb\r\n", "\n\na,b\n\n1,2\n\n", "a,b\n1,2", " a , b \n 1 , 2 ", "\"a\" , \"b\"\n" };
    int k = (int)vz_u(44); size_t i, n; char *p;
    if (k < 21) { csv(BAD[k], strlen(BAD[k]), ',', (int)vz_u(2), 1, "that is none"); vz_stat("known bad tables", 1); }
    else if (k < 32) { csv(OK[k - 21], strlen(OK[k - 21]), ',', (int)vz_u(2), 2, "that is one"); vz_stat("known good tables", 1); }
    else {
        n = (size_t)vz_range(60000, vz_thorough ? 600000 : 200000); p = malloc(n + 8);
        switch (k) {
            case 32: memset(p, 'a', n); csv(p, n, ',', 0, 2, "of one long field"); break;
            case 33: memset(p, '"', n); csv(p, n, ',', 0, n % 2 ? 1 : 2, "of quotes"); break;
            case 34: n /= 8; memset(p, ',', n); csv(p, n, ',', (int)vz_u(2), 2, "of one long row"); break;
            case 35: memset(p, '\n', n); csv(p, n, ',', 0, 1, "of line breaks"); break;
            case 36: p[0] = '"'; memset(p + 1, 'x', n); csv(p, n, ',', 0, 1, "of an open quote"); break;
            case 37: for (i = 0; i < n; i++) p[i] = i % 2 ? '\n' : '1'; csv(p, n, ',', 0, 2, "of one long column"); break;
            case 38: memset(p, '%', n); uri(p, n, -1); p[0] = '?'; uri(p, n, 1); break;
            case 39: memset(p, 'a', n); p[0] = '?'; p[n / 2] = '='; uri(p, n, 1); break;
            case 40: n /= 8; memset(p, '&', n); p[0] = '?'; uri(p, n, (int)n - 1); break;
            case 41: for (i = 0; i < n; i++) p[i] = "%41"[i % 3]; p[0] = '?'; uri(p, n, 1); break;
            case 42: n /= 8; for (i = 0; i < n; i++) p[i] = i % 2 ? '=' : '&'; p[0] = '?'; uri(p, n, (int)(n / 2)); break;
            default: memset(p, '?', n / 8); uri(p, n / 8, (int)(n / 8) - 1);
        }
        vz_stat("long texts", 1); free(p);
    }
    vz_distinct((uint64_t)k);
}
static void t_uri(void) {
    int q; for (q = 0; q < 25; q++) { int m = (int)vz_u(vz_pct(70) ? 6 : 40); bl = 0; adds(vz_pct(50) ? "" : vz_pct(50) ? "?a=b&c=%41%20d&e" : "http://h/p?x=1&y=%3F+z"); while (m--) mutate(1); uri(b, bl, -1); vz_stat("URI mutants", 1); vz_distinct(vz_hash(b, bl, 7)); }
    { char *c; size_t n, i; n = bl; c = malloc(n + 1); memcpy(c, b, n + 1); for (i = 0; i < n && i < 200; i++) uri(c, i, -1); free(c); }
}
VZ_MAIN({"csv-mutant", t_csvmut, 6}, {"csv-cut", t_csvcut, 3}, {"csv-ragged", t_ragged, 3}, {"special", t_special, 3}, {"uri", t_uri, 5})
