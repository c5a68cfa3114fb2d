/* CSV tables: generated text -> parsed table -> written text -> independent reader and parser again */
#include "vz.h"
#include "numref.h"
typedef struct cell { char *s; size_t n; int num; num v; } cell; /* num: a number by value, otherwise the text s */
typedef struct table { int cols, rows, header; cell *c, *h; } table;
static vz_track T; static table B; static char *bt; static size_t bl, bc;
static void put(const char *s, size_t n) { if (bl + n + 1 > bc) { bc = (bl + n + 1) * 2; bt = realloc(bt, bc); } memcpy(bt + bl, s, n); bl += n; bt[bl] = 0; }
static void putc_(char c) { put(&c, 1); }
static const char DELIMS[] = ",;|\t:#^~ /\x1f\xfe,,,";
static int space(char c) { return c == ' ' || c == '\t' || c == '\n' || c == '\r' || c == '\v' || c == '\f'; }
static int numeral(const char *s) { num n = ref(s); return n.ok != 0 && n.len == strlen(s); }
static int bareable(const char *s, char d, int lone) {
    size_t l = strlen(s), i; if (!l) return !lone; if (s[0] == '"' || space(s[0]) || space(s[l - 1])) return 0;
    for (i = 0; i < l; i++) if (s[i] == d || s[i] == '\n') return 0; return 1;
}
static int huge;
static void cellgen(cell *c, int hdr) {
    int k = (int)vz_u(10), n, i; char b[800]; memset(c, 0, sizeof *c);
    if (k < 3) {
        char *p = b; for (;;) { p = b; if (vz_pct(30)) *p++ = vz_pct(70) ? '-' : '+'; if (vz_pct(10)) p += sprintf(p, "0x%llx", (unsigned long long)(vz_edge64() >> 1)); else if (vz_pct(40)) p += sprintf(p, "%llu", (unsigned long long)(vz_edge64() >> (vz_pct(70) ? 1 : 0))); else { p += digits(p, 1 + (int)vz_u(vz_pct(80) ? 6 : 25)); if (vz_pct(70)) { *p++ = '.'; p += digits(p, 1 + (int)vz_u(vz_pct(80) ? 6 : 25)); } if (vz_pct(25)) p += sprintf(p, "%c%d", vz_pct(50) ? 'e' : 'E', (int)vz_range(-30, 30)); } *p = 0; c->v = ref(b); if (c->v.ok > 0) break; }
        c->s = strdup(b); c->n = strlen(b); c->num = !hdr && c->v.len == c->n; if (hdr) c->num = 0; return;
    }
    n = k < 4 ? 0 : (int)vz_u(vz_pct(90) ? 10 : 120); if (huge && vz_pct(10)) { n = (int)vz_range(64000, 70000); huge = 0; }
    c->s = malloc((size_t)n * 4 + 8); c->n = 0;
    for (i = 0; i < n; i++) {
        static const char A[] = "abcxyzABC019 _-.+e:,;|\t#^~/'\"\"\"\n\r\\%%&=<[]{}\x1f"; static const char *const U[] = { "\xc3\xa9", "\xe2\x82\xac", "\xf0\x9f\x98\x80", "\xfe", "\xff", "\x01" };
        if (vz_pct(90)) c->s[c->n++] = A[vz_u(sizeof A - 1)]; else { const char *u = U[vz_u(6)]; memcpy(c->s + c->n, u, strlen(u)); c->n += strlen(u); }
    }
    c->s[c->n] = 0;
    if (vz_pct(50)) { for (i = 0; i < (int)c->n; i++) if (strchr(",;|\t#^~/:\"\n\r \x1f", c->s[i])) c->s[i] = 'a'; }
    if (vz_pct(5)) { free(c->s); { static const char *const W[] = { "x", "n", "-", "+", ".", "1.2.3", "0x", "1e", "127.0.0.1", "1 2", "NaN", "true", "null", "Infinity", "e5", "1e5x", "--1", "\"", "\"\"", "\",\"", "%s", "/*", "#", "=1+1", "5 ", " 5" }; c->s = strdup(W[vz_u(26)]); c->n = strlen(c->s); } }
}
static void tfree(void) { int i; for (i = 0; i < B.cols * B.rows; i++) free(B.c[i].s); free(B.c); if (B.h) for (i = 0; i < B.cols; i++) free(B.h[i].s); free(B.h); }
static void tgen(void) {
    int i; huge = vz_pct(2); B.cols = vz_pct(20) ? 1 : 1 + (int)vz_u(vz_pct(90) ? 6 : 40); B.rows = 1 + (int)vz_u(vz_pct(90) ? 7 : 150); B.header = vz_pct(50); if (B.header && vz_pct(15)) B.rows = 0;
    B.c = calloc((size_t)(B.cols * B.rows) + 1, sizeof *B.c); B.h = B.header ? calloc((size_t)B.cols, sizeof *B.h) : 0;
    for (i = 0; i < B.cols * B.rows; i++) cellgen(B.c + i, 0);
    if (B.h) for (i = 0; i < B.cols; i++) cellgen(B.h + i, 1);
}
static void pad(char d) { while (vz_pct(12)) { char c = " \t\v\f"[vz_u(4)]; if (c != d) putc_(c); } }
static void quoted(const cell *c) { size_t i; putc_('"'); for (i = 0; i < c->n; i++) { if (c->s[i] == '"') putc_('"'); putc_(c->s[i]); } putc_('"'); }
static void blank(int crlf, char d) { while (vz_pct(6)) { if (vz_pct(30) && d != ' ') putc_(' '); put("\r\n" + !crlf, 1 + (size_t)crlf); } }
/* the text of the table; decides for every cell whether it stays a number */
static void render(char d) {
    int r, k, crlf = vz_pct(25) && d != '\r', pads = vz_pct(40), blanks = vz_pct(25), q = (int)vz_u(3) * 50; bl = 0; put("", 0);
    for (r = B.header ? -1 : 0; r < B.rows; r++) {
        if (blanks) blank(crlf, d);
        for (k = 0; k < B.cols; k++) {
            cell *c = r < 0 ? B.h + k : B.c + r * B.cols + k; int bare = bareable(c->s, d, B.cols == 1);
            if (k) putc_(d); if (pads) pad(d);
            if (bare && vz_pct(q)) bare = 0;
#ifdef ZPL_PARSER_DISABLE_ANALYSIS
            if (!bare && r >= 0 && numeral(c->s)) { c->s[0] = 'n'; c->v.ok = 0; bare = bareable(c->s, d, 0); }
#endif
            if (bare) put(c->s, c->n); else quoted(c);
            c->num = bare && r >= 0 && numeral(c->s); if (c->num) { c->v = ref(c->s); if (c->v.ok < 0) VZ_BROKEN("numeral %s", c->s); }
            if (!bare) vz_stat("quoted cells", 1); else vz_stat(c->num ? "number cells" : c->n ? "bare text cells" : "empty cells", 1);
            if (pads) pad(d);
        }
        if (r < B.rows - 1 || vz_pct(70)) { if (crlf) putc_('\r'); putc_('\n'); } else vz_stat("texts without a last line break", 1);
    }
    if (blanks && bl && bt[bl - 1] == '\n') blank(crlf, d);
}
static const char *sh(void) { return vz_show(bt, bl > 300 ? 300 : bl); }
static void same(zpl_adt_node *root, const char *what) {
    int r, k; VZ_CHECK(root->type == (B.header ? ZPL_ADT_TYPE_OBJECT : ZPL_ADT_TYPE_ARRAY), "root", "%s: the table has type %d", what, root->type);
    VZ_CHECK(zpl_array_count(root->nodes) == B.cols, "columns", "%s: %ld columns instead of %d: %s", what, (long)zpl_array_count(root->nodes), B.cols, sh());
    for (k = 0; k < B.cols; k++) {
        zpl_adt_node *col = root->nodes + k; VZ_CHECK(col->nodes && zpl_array_count(col->nodes) == B.rows, "rows", "%s: %ld rows instead of %d in column %d: %s", what, col->nodes ? (long)zpl_array_count(col->nodes) : -1L, B.rows, k, sh());
        VZ_CHECK(col->parent == root, "parent", "%s: parent of column %d is wrong", what, k);
        if (B.header) VZ_CHECK(col->name && !strcmp(col->name, B.h[k].s), "header", "%s: header %d is '%s' instead of '%s': %s", what, k, col->name ? vz_show(col->name, strlen(col->name) > 90 ? 90 : strlen(col->name)) : "NULL", vz_show(B.h[k].s, B.h[k].n > 90 ? 90 : B.h[k].n), sh());
        else VZ_CHECK(!col->name, "header", "%s: column %d has a name without a header", what, k);
        for (r = 0; r < B.rows; r++) {
            cell *c = B.c + r * B.cols + k; zpl_adt_node *n = col->nodes + r;
            if (!c->num) { VZ_CHECK(n->type == ZPL_ADT_TYPE_STRING, "kind", "%s: text '%s' became type %d: %s", what, vz_show(c->s, c->n > 90 ? 90 : c->n), n->type, sh()); VZ_CHECK(!strcmp(n->string, c->s), "cell", "%s: cell %d,%d is '%s' instead of '%s': %s", what, r, k, vz_show(n->string, strlen(n->string) > 90 ? 90 : strlen(n->string)), vz_show(c->s, c->n > 90 ? 90 : c->n), sh()); }
            else if (!c->v.real) VZ_CHECK(n->type == ZPL_ADT_TYPE_INTEGER && n->integer == c->v.i, "integer", "%s: integer cell '%s' became type %d value %lld", what, c->s, n->type, (long long)n->integer);
            else VZ_CHECK((n->type == ZPL_ADT_TYPE_REAL && near_(n->real, c->v.r)) || (what[0] == 'r' && n->type == ZPL_ADT_TYPE_INTEGER && n->integer == c->v.r), "real", "%s: real cell '%s' became type %d value %.17g", what, c->s, n->type, n->real);
            VZ_CHECK(n->parent == col, "parent", "%s: parent of a cell is wrong", what);
        }
    }
}
/* independent reader of what was written: every record in a line, fields bare or in doubled quotes */
static void validate(const char *t, size_t l, char d) {
    size_t i = 0; int r, k; char *f = malloc(l + 1); size_t n;
    for (r = B.header ? -1 : 0; r < B.rows; r++) for (k = 0; k < B.cols; k++) {
        cell *c = r < 0 ? B.h + k : B.c + r * B.cols + k; int q = 0; n = 0;
        if (i < l && t[i] == '"') { q = 1; for (i++; i < l; i++) { if (t[i] == '"') { if (i + 1 < l && t[i + 1] == '"') i++; else break; } f[n++] = t[i]; } if (i >= l) { free(f); VZ_FAIL("written", "an unterminated quote is written: %s", vz_show(t, l > 300 ? 300 : l)); } i++; }
        else while (i < l && t[i] != d && t[i] != '\n') f[n++] = t[i++];
        f[n] = 0;
        if (i >= l || t[i] != (k == B.cols - 1 ? '\n' : d)) { free(f); VZ_FAIL("written", "field %d of row %d is not followed by its separator (delimiter '%c'): %s", k, r, d, vz_show(t, l > 300 ? 300 : l)); }
        i++;
        if (!c->num) { if (strcmp(f, c->s)) { static char g[200]; snprintf(g, sizeof g, "%s", f); free(f); VZ_FAIL("written", "cell %d,%d is written as '%s' instead of '%s'", r, k, vz_show(g, strlen(g)), vz_show(c->s, c->n > 90 ? 90 : c->n)); } if (!q && n && !bareable(c->s, d, B.cols == 1)) { free(f); VZ_FAIL("written", "a cell that needs quotes is written without: %s", c->s); } }
        else { num v = ref(f); int ok = v.ok > 0 && v.len == n && !q && (c->v.real ? near_(v.real ? v.r : (long double)v.i, c->v.r) : !v.real && v.i == c->v.i); if (!ok) { static char g[200]; snprintf(g, sizeof g, "%s", f); free(f); VZ_FAIL("written", "number %s is written as %s", c->s, g); } }
    }
    free(f); VZ_CHECK(i == l, "written", "text follows the last row: %s", vz_show(t + i, l - i > 100 ? 100 : l - i)); vz_stat("outputs validated", 1);
}
static zpl_string writeit(zpl_adt_node *root, char d, int way) {
    zpl_allocator a = vz_track_allocator(&T); zpl_string s;
    if (way == 0) s = d == ',' && vz_pct(50) ? zpl_csv_write_string(a, root) : zpl_csv_write_string_delimiter(a, root, d);
    else { zpl_file f; zpl_isize n; zpl_u8 *p; memset(&f, 0, sizeof f); if (!zpl_file_stream_new(&f, a)) VZ_BROKEN("stream"); if (d == ',' && vz_pct(50)) zpl_csv_write(&f, root); else zpl_csv_write_delimiter(&f, root, d); p = zpl_file_stream_buf(&f, &n); s = zpl_string_make_length(a, p, n); zpl_file_close(&f); }
    VZ_CHECK(s, "string", "no text is written"); return s;
}
static void trip(zpl_adt_node *root, int rounds) {
    while (rounds--) {
        char d = DELIMS[vz_u(sizeof DELIMS - 1)]; zpl_string s = writeit(root, d, (int)vz_u(2)); size_t l = (size_t)zpl_string_length(s); char *u; zpl_adt_node two; zpl_u8 e; int i;
        for (i = 0; i < B.cols * B.rows; i++) if (B.c[i].num && strchr("0123456789+-.eEx", d)) VZ_BROKEN("delimiter");
        validate(s, l, d); u = vz_dup(s, l + 1); zpl_string_free(s);
        memset(&two, 0x5a, sizeof two); e = d == ',' && vz_pct(50) ? zpl_csv_parse(&two, u, vz_track_allocator(&T), B.header) : zpl_csv_parse_delimiter(&two, u, vz_track_allocator(&T), B.header, d);
        VZ_CHECK(!e, "reparse", "what was written (delimiter '%c') is refused with %d: %s", d, e, sh()); same(&two, "read back"); vz_stat("round trips", 1);
        if (rounds) { trip(&two, rounds); rounds = 0; vz_stat("second round trips", 1); }
        zpl_csv_free(&two); vz_undup(u);
    }
}
static void done(void) { VZ_CHECK(!T.live, "leak", "blocks are still allocated after the table was freed"); VZ_TRACK_DONE(&T); tfree(); if (B.cols > 1 && B.rows > 1) vz_distinct(vz_hash(bt, bl, 9)); }
static void t_parse(void) {
    char d = DELIMS[vz_u(sizeof DELIMS - 1)], *t; zpl_adt_node root; zpl_u8 e; tgen(); render(d); vz_track_init(&T);
    if (!bl) { tfree(); return; }
    t = vz_dup(bt, bl + 1); memset(&root, 0x5a, sizeof root);
    e = d == ',' && vz_pct(50) ? zpl_csv_parse(&root, t, vz_track_allocator(&T), B.header) : zpl_csv_parse_delimiter(&root, t, vz_track_allocator(&T), B.header, d);
    VZ_CHECK(!e, "refused", "a rectangular table (%d columns, delimiter '%c') is refused with %d: %s", B.cols, d, e, sh()); same(&root, "parsed"); vz_stat("tables parsed", 1); if (B.header) vz_stat("tables with a header", 1); if (d == '\t' || d == ' ') vz_stat("tables with a white-space delimiter", 1);
    trip(&root, vz_pct(20) ? 2 : 1); zpl_csv_free(&root); vz_undup(t); done(); vz_sample("%s", vz_show(bt, bl > 80 ? 80 : bl));
}
static void t_build(void) { /* a table put together by hand, then written */
    zpl_adt_node root; zpl_allocator a; int r, k; tgen(); vz_track_init(&T); a = vz_track_allocator(&T); memset(&root, 0, sizeof root); bl = 0; put("", 0);
    if (B.header) zpl_adt_set_obj(&root, NULL, a); else zpl_adt_set_arr(&root, NULL, a);
    for (k = 0; k < B.cols; k++) {
        zpl_adt_node *col = zpl_adt_append_arr(&root, B.header ? B.h[k].s : NULL); VZ_CHECK(col, "append", "no column");
#ifndef ZPL_PARSER_DISABLE_ANALYSIS
        if (vz_pct(50)) col->name_style = ZPL_ADT_NAME_STYLE_NO_QUOTES;
#endif
        for (r = 0; r < B.rows; r++) {
            cell *c = B.c + r * B.cols + k; zpl_adt_node *n; c->num = 0;
            if (numeral(c->s) && (c->v = ref(c->s)).ok > 0) {
                if (vz_pct(60)) { c->num = 1; n = c->v.real ? zpl_adt_append_flt(col, NULL, (double)c->v.r) : zpl_adt_append_int(col, NULL, c->v.i); if (c->v.real) c->v.r = (double)c->v.r; goto set; }
#ifdef ZPL_PARSER_DISABLE_ANALYSIS
                c->s[0] = 'n';
#endif
            }
            if (!c->n && vz_pct(50)) { n = zpl_adt_append_str(col, NULL, NULL); vz_stat("null texts", 1); } else n = zpl_adt_append_str(col, NULL, c->s);
#ifndef ZPL_PARSER_DISABLE_ANALYSIS
            if (n && !numeral(c->s)) { int st = (int)vz_u(4); if (st == 0) n->name_style = ZPL_ADT_NAME_STYLE_DOUBLE_QUOTE; else if (st == 1) n->name_style = ZPL_ADT_NAME_STYLE_SINGLE_QUOTE; else if (st == 2) n->name_style = ZPL_ADT_NAME_STYLE_NO_QUOTES; }
#endif
          set: VZ_CHECK(n, "append", "no cell"); put(c->s, c->n > 50 ? 50 : c->n); putc_('\x1e');
        }
    }
    vz_stat("tables built by hand", 1); if (B.header || B.rows) trip(&root, 1); zpl_csv_free(&root); done();
}
VZ_MAIN({"parse", t_parse, 3}, {"build", t_build, 1})
