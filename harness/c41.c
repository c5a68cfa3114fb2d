/* URIs: generated text -> base and fields -> written text -> independent decoder and parser again */
#include "vz.h"
#include "numref.h"
typedef struct fld { char *name, *s; size_t nn, n; int kind; num v; } fld; /* kind 0 text, 1 number, 2 flag without a value */
static vz_track T; static fld F[64]; static int nf; static char *org; static size_t on;
static char *bt; static size_t bl, bc;
static void put(const char *s, size_t n) { if (bl + n + 1 > bc) { bc = (bl + n + 1) * 2; bt = realloc(bt, bc); } memcpy(bt + bl, s, n); bl += n; bt[bl] = 0; }
static void putc_(char c) { put(&c, 1); }
static int space(char c) { return c == ' ' || c == '\t' || c == '\n' || c == '\r' || c == '\v' || c == '\f'; }
static int hexv(int c) { return c >= '0' && c <= '9' ? c - '0' : c >= 'a' && c <= 'f' ? c - 'a' + 10 : c >= 'A' && c <= 'F' ? c - 'A' + 10 : -1; }
static int unres(unsigned char c) { return (c >= '0' && c <= '9') || (c >= 'a' && c <= 'z') || (c >= 'A' && c <= 'Z') || (c && strchr("-_.~", c)); }
static int huge;
static char *bytes(size_t *n, int min) { /* a text over the full byte alphabet */
    static const char A[] = " +%&=?/#;:@!$'()*,[]\"<>\\^`{|}~-_."; size_t l = (size_t)min + vz_u(vz_pct(85) ? 10 : 80), i; char *s; if (huge && vz_pct(25)) { l = (size_t)vz_range(60000, 150000); huge = 0; vz_stat("fields beyond 60000 bytes", 1); }
    s = malloc(l + 1); for (i = 0; i < l; i++) s[i] = vz_pct(40) ? (char)(1 + vz_u(255)) : vz_pct(40) ? A[vz_u(sizeof A - 1)] : (char)('a' + vz_u(26)); s[l] = 0;
    if (vz_pct(10) && l >= 3) { static const char *const W[] = { "%41", "%s%n", "100%", "a+b", "a=b", "a&b", "%2", "%zz", "+ +", "...", "%25" }; const char *w = W[vz_u(11)]; l = strlen(w); strcpy(s = realloc(s, l + 8), w); }
    *n = l; return s;
}
static char *numeral(num *v) { char b[200], *p; for (;;) { p = b; if (vz_pct(30)) *p++ = vz_pct(70) ? '-' : '+'; if (vz_pct(10)) p += sprintf(p, "0x%llx", (unsigned long long)(vz_edge64() >> 1)); else if (vz_pct(40)) p += sprintf(p, "%llu", (unsigned long long)(vz_edge64() >> (vz_pct(70) ? 1 : 0))); else { p += digits(p, 1 + (int)vz_u(8)); if (vz_pct(70)) { *p++ = '.'; p += digits(p, 1 + (int)vz_u(vz_pct(80) ? 6 : 25)); } if (vz_pct(25)) p += sprintf(p, "e%d", (int)vz_range(-30, 30)); } *p = 0; *v = ref(b); if (v->ok > 0 && v->len == strlen(b)) return strdup(b); } }
static void gen(void) {
    int i; huge = vz_pct(2); nf = vz_pct(5) ? 0 : 1 + (int)vz_u(vz_pct(90) ? 6 : 60); org = 0;
    if (vz_pct(70) || !nf) {
        size_t k; static const char *const W[] = { "https://example.com", "file:///a%20b", "a", "%s%s%n", "100%", "&", "=", "http://h:80/p/q;r=1#f", "/", "x=1&y=2", "mailto:a@b", "%41" };
        if (vz_pct(50)) { org = strdup(W[vz_u(12)]); on = strlen(org); } else { org = bytes(&on, 1); for (k = 0; k < on; k++) if (org[k] == '?' || space(org[k])) org[k] = 'o'; }
    }
    for (i = 0; i < nf; i++) {
        fld *f = F + i; int r = (int)vz_u(10); memset(f, 0, sizeof *f); f->kind = r < 6 ? 0 : r < 8 ? 1 : 2;
        f->name = bytes(&f->nn, f->kind == 2 || vz_pct(90)); if (!f->nn && f->kind == 2) f->kind = 0; if (!strcmp(f->name, "__zpl_origin__")) f->name[0] = 'x';
        if (f->kind == 1) { f->s = numeral(&f->v); f->n = strlen(f->s); } else if (f->kind == 0) { f->s = bytes(&f->n, 0); f->v = ref(f->s); if (f->v.ok && f->v.len == f->n) { f->s[0] = 'N'; f->s[1] = 0; f->n = 1; if (!f->n) VZ_BROKEN("n"); } }
    }
}
static void done_(void) { int i; for (i = 0; i < nf; i++) { free(F[i].name); free(F[i].s); } free(org); }
/* encoded with random choices among what is allowed */
static void enc(const char *s, size_t n, int name, int style) {
    size_t i; for (i = 0; i < n; i++) {
        unsigned char c = (unsigned char)s[i]; int must = c == '&' || c == '?' || c == '+' || c == '%' || (c == '=' && name) || space((char)c);
        if (c == ' ' && vz_pct(60)) putc_('+');
        else if (must || (style == 0 ? !unres(c) : style == 1 ? vz_pct(30) : 0)) { char b[8]; sprintf(b, vz_pct(50) ? "%%%02X" : "%%%02x", c); if (vz_pct(20) && b[2] > '9') b[2] ^= 32; put(b, 3); }
        else putc_((char)c);
    }
}
static void render(void) {
    int i, style = (int)vz_u(3); bl = 0; put("", 0); while (vz_pct(8)) putc_(" \t\n"[vz_u(3)]);
    if (org) put(org, on); if (nf || vz_pct(30)) putc_('?'); else if (!org) putc_('?');
    for (i = 0; i < nf; i++) { if (i) putc_(vz_pct(90) ? '&' : '?'); enc(F[i].name, F[i].nn, 1, style); if (F[i].kind != 2) { putc_('='); enc(F[i].s, F[i].n, 0, style); } }
    if (nf && vz_pct(15) && (F[nf - 1].kind != 2)) putc_('&'); if (nf && vz_pct(8)) putc_('\n');
}
static const char *sh(void) { return vz_show(bt, bl > 300 ? 300 : bl); }
static const char *s90(const char *s) { return s ? vz_show(s, strlen(s) > 90 ? 90 : strlen(s)) : "NULL"; }
static void same(zpl_adt_node *root, const char *what) {
    int i, o = org != 0; zpl_adt_node *n; VZ_CHECK(root->type == ZPL_ADT_TYPE_OBJECT && root->nodes, "root", "%s: the root has type %d", what, root->type);
    VZ_CHECK(zpl_array_count(root->nodes) == nf + o, "fields", "%s: %ld fields instead of %d: %s", what, (long)zpl_array_count(root->nodes), nf + o, sh());
    if (o) { n = zpl_adt_query(root, "__zpl_origin__"); VZ_CHECK(n == root->nodes && n->type == ZPL_ADT_TYPE_STRING && !strcmp(n->string, org), "base", "%s: base '%s' instead of '%s'", what, n && n->type == ZPL_ADT_TYPE_STRING ? s90(n->string) : "?", s90(org)); }
    for (i = 0; i < nf; i++) {
        fld *f = F + i; n = root->nodes + i + o; VZ_CHECK(n->parent == root, "parent", "%s: parent of a field is wrong", what);
        VZ_CHECK(n->name && !strcmp(n->name, f->name), "name", "%s: name %d is '%s' instead of '%s': %s", what, i, s90(n->name), s90(f->name), sh());
        if (f->kind == 0) VZ_CHECK(n->type == ZPL_ADT_TYPE_STRING && !strcmp(n->string, f->s), "value", "%s: value %d is type %d '%s' instead of '%s': %s", what, i, n->type, n->type == ZPL_ADT_TYPE_STRING ? s90(n->string) : "?", s90(f->s), sh());
        else if (f->kind == 2) VZ_CHECK(n->props == ZPL_ADT_PROPS_TRUE && n->type == ZPL_ADT_TYPE_REAL && n->real == 1, "flag", "%s: a field without a value has type %d, props %d", what, n->type, n->props);
        else if (!f->v.real) VZ_CHECK(n->type == ZPL_ADT_TYPE_INTEGER && n->integer == f->v.i, "integer", "%s: %s became type %d, value %lld", what, f->s, n->type, (long long)n->integer);
        else VZ_CHECK((n->type == ZPL_ADT_TYPE_REAL && n->props != ZPL_ADT_PROPS_TRUE && near_(n->real, f->v.r)) || (what[0] == 'r' && n->type == ZPL_ADT_TYPE_INTEGER && n->integer == f->v.r), "real", "%s: %s became type %d, value %.17g", what, f->s, n->type, n->real);
    }
}
/* independent reading: base, '?', fields split by '&', everything but unreserved characters escaped */
static void piece(const char *t, size_t *i, size_t l, const char *end, char *out, size_t *n) {
    *n = 0; while (*i < l && !strchr(end, t[*i])) {
        unsigned char c = (unsigned char)t[*i];
        if (c == '%') { int a = *i + 2 < l + 0 ? hexv(t[*i + 1]) : -1, b = *i + 2 < l ? hexv(t[*i + 2]) : -1; VZ_CHECK(a >= 0 && b >= 0, "escape", "a bad escape is written: %s", vz_show(t, l > 300 ? 300 : l)); out[(*n)++] = (char)(a * 16 + b); *i += 3; }
        else { VZ_CHECK(c == '+' || unres(c), "unescaped", "character %02x is written unescaped: %s", c, vz_show(t, l > 300 ? 300 : l)); out[(*n)++] = c == '+' ? ' ' : (char)c; ++*i; }
    }
    out[*n] = 0;
}
static void validate(const char *t, size_t l) {
    static char *out; static size_t oc; size_t i = 0, n; int k; if (oc < l + 4) out = realloc(out, oc = l * 2 + 8);
    if (org) { VZ_CHECK(l >= on && !memcmp(t, org, on), "base", "the base '%s' is not written as it is: %s", s90(org), vz_show(t, l > 300 ? 300 : l)); i = on; }
    if (nf || i < l) { VZ_CHECK(i < l && t[i] == '?', "mark", "no question mark after the base: %s", vz_show(t, l > 300 ? 300 : l)); i++; }
    for (k = 0; k < nf; k++) {
        fld *f = F + k; if (k) { VZ_CHECK(i < l && t[i] == '&', "separator", "no & before field %d: %s", k, vz_show(t, l > 300 ? 300 : l)); i++; }
        piece(t, &i, l, "=&", out, &n); VZ_CHECK(n == f->nn && !memcmp(out, f->name, n), "name", "name %d is written as '%s' instead of '%s'", k, s90(out), s90(f->name));
        if (f->kind == 2) { VZ_CHECK(i == l || t[i] == '&', "flag", "a value is written for a field without one: %s", vz_show(t, l > 300 ? 300 : l)); continue; }
        VZ_CHECK(i < l && t[i] == '=', "equals", "no = after name %d: %s", k, vz_show(t, l > 300 ? 300 : l)); i++; piece(t, &i, l, "&=", out, &n);
        if (f->kind == 0) VZ_CHECK(n == f->n && !memcmp(out, f->s, n), "value", "value %d is written as '%s' instead of '%s'", k, s90(out), s90(f->s));
        else { num v = ref(out); VZ_CHECK(v.ok > 0 && v.len == n && (f->v.real ? near_(v.real ? v.r : (long double)v.i, f->v.r) : !v.real && v.i == f->v.i), "number", "number %s is written as %s", f->s, s90(out)); }
    }
    VZ_CHECK(i == l, "rest", "text follows the last field: %s", vz_show(t + i, l - i > 100 ? 100 : l - i)); vz_stat("outputs validated", 1);
}
static void trip(zpl_adt_node *root, int rounds) {
    zpl_allocator a = vz_track_allocator(&T); zpl_string s; size_t l; char *u; zpl_adt_node two; zpl_u8 e;
    if (vz_pct(50)) s = zpl_uri_write_string(a, root); else { zpl_file f; zpl_isize n; zpl_u8 *p; memset(&f, 0, sizeof f); if (!zpl_file_stream_new(&f, a)) VZ_BROKEN("stream"); zpl_uri_write(&f, root); p = zpl_file_stream_buf(&f, &n); s = zpl_string_make_length(a, p, n); zpl_file_close(&f); }
    VZ_CHECK(s, "string", "no text is written"); l = (size_t)zpl_string_length(s); VZ_CHECK(strlen(s) == l, "length", "the text written holds a NUL"); validate(s, l);
    u = vz_dup(s, l + 1); zpl_string_free(s); memset(&two, 0x5a, sizeof two); e = zpl_uri_parse(&two, u, a); VZ_CHECK(!e, "reparse", "what was written is refused with %d", e); same(&two, "read back"); vz_stat("round trips", 1);
    if (rounds) trip(&two, rounds - 1); zpl_uri_free(&two); vz_undup(u);
}
static void fin(void) { VZ_CHECK(!T.live, "leak", "blocks are still allocated after the fields were freed"); VZ_TRACK_DONE(&T); if (nf > 1) vz_distinct(vz_hash(bt, bl, 8)); done_(); }
static void t_parse(void) {
    char *t; zpl_adt_node root; zpl_u8 e; int i; gen(); render(); vz_track_init(&T); t = vz_dup(bt, bl + 1); memset(&root, 0x5a, sizeof root);
    e = zpl_uri_parse(&root, t, vz_track_allocator(&T)); VZ_CHECK(!e, "refused", "a URI is refused with %d: %s", e, sh()); same(&root, "parsed"); vz_stat("URIs parsed", 1); if (org) vz_stat("with a base", 1);
    for (i = 0; i < nf; i++) vz_stat(F[i].kind == 2 ? "flags" : F[i].kind == 1 ? "numbers" : "texts", 1);
    trip(&root, vz_pct(20)); zpl_uri_free(&root); vz_undup(t); fin(); vz_sample("%s", vz_show(bt, bl > 80 ? 80 : bl));
}
static void t_build(void) {
    zpl_adt_node root, *n; zpl_allocator a; int i; gen(); vz_track_init(&T); a = vz_track_allocator(&T); bl = 0; put("", 0); memset(&root, 0x5a, sizeof root);
    VZ_CHECK(!zpl_uri_init(&root, org, a), "init", "zpl_uri_init fails");
    for (i = 0; i < nf; i++) {
        fld *f = F + i; put(f->name, f->nn > 60 ? 60 : f->nn); putc_('='); if (f->s) put(f->s, f->n > 60 ? 60 : f->n); putc_('&');
        if (f->kind == 2) { n = zpl_adt_append_flt(&root, f->name, 1); n->props = ZPL_ADT_PROPS_TRUE; }
        else if (f->kind == 0) { n = zpl_adt_append_str(&root, f->name, !f->n && vz_pct(50) ? NULL : f->s); }
        else { if (f->v.real) f->v.r = (double)f->v.r; n = f->v.real ? zpl_adt_append_flt(&root, f->name, (double)f->v.r) : zpl_adt_append_int(&root, f->name, f->v.i); }
        VZ_CHECK(n, "append", "no field");
    }
    vz_stat("built by hand", 1); trip(&root, 0); zpl_uri_free(&root); fin();
}
VZ_MAIN({"parse", t_parse, 3}, {"build", t_build, 1})
