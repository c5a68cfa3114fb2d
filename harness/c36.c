/* numerals read into document nodes against the C library and exact integer arithmetic; printing and reading back; near-numerals for the strict reader */
#include "vz.h"
#include "numref.h"
static void check(const zpl_adt_node *n, const num *w, const char *how, const char *s) {
    if (w->ok < 0) return;
    if (!w->real) { VZ_CHECK(n->type == ZPL_ADT_TYPE_INTEGER, "type", "%s '%s' gives type %d, it is an integer", how, s, n->type); VZ_CHECK(n->integer == w->i, "integer", "%s '%s' gives %lld, it is %lld", how, s, (long long)n->integer, (long long)w->i); vz_stat(w->hex ? "hexadecimal numerals" : "integer numerals", 1); }
    else { VZ_CHECK(n->type == ZPL_ADT_TYPE_REAL, "type", "%s '%s' gives type %d, it is a real", how, s, n->type); if (inrange(w->r) && !w->extreme) { VZ_CHECK(near_(n->real, w->r), "real", "%s '%s' gives %.17g, it is %.17Lg", how, s, n->real, w->r); vz_stat("real numerals", 1); } else vz_stat("reals out of range", 1); }
}
static int len(void) { int r = (int)vz_u(20); return r < 12 ? 1 + (int)vz_u(6) : r < 18 ? 1 + (int)vz_u(22) : r < 19 ? 1 + (int)vz_u(60) : vz_thorough || vz_pct(20) ? (int)vz_u(3000) + 1 : 20; }
static size_t numeral(char *p) {
    char *b = p; int k = (int)vz_u(10);
    if (vz_pct(35)) *p++ = vz_pct(70) ? '-' : '+';
    if (k == 0) { int i, n = (int)vz_range(1, vz_pct(5) ? 40 : 17); p += sprintf(p, vz_pct(70) ? "0x" : "0X"); for (i = 0; i < n; i++) *p++ = "0123456789abcdefABCDEF"[vz_u(22)]; *p = 0; return (size_t)(p - b); }
    if (k < 4) { if (vz_pct(40)) p += sprintf(p, "%llu", (unsigned long long)(vz_pct(50) ? vz_edge64() >> 1 : vz_edge64())); else p += digits(p, len()); }
    else { int lead = k < 9; if (lead) { if (vz_pct(20)) *p++ = '0'; else p += digits(p, len()); } *p++ = '.'; { int n = len(), z = vz_pct(20) ? (int)vz_u(vz_pct(10) ? 400 : 12) : 0; if (vz_pct(2) && lead) n = z = 0; while (z--) *p++ = '0'; p += digits(p, n); } }
    if (vz_pct(30)) { *p++ = vz_pct(60) ? 'e' : 'E'; if (vz_pct(60)) *p++ = vz_pct(60) ? '-' : '+'; if (vz_pct(80)) p += sprintf(p, "%d", (int)vz_u(vz_pct(70) ? 25 : 330)); else p += digits(p, vz_pct(80) ? 2 : (int)vz_u(200) + 1); }
    *p = 0; return (size_t)(p - b);
}
static char G[16384], C[16400];
static char *print(zpl_adt_node *n, size_t *l, const char *s) {
    zpl_file f; zpl_isize sz; zpl_u8 *d; static char out[8192]; zpl_adt_error e;
    memset(&f, 0, sizeof f); if (!zpl_file_stream_new(&f, zpl_heap())) VZ_BROKEN("no stream");
    e = zpl_adt_print_number(&f, n); VZ_CHECK(e == ZPL_ADT_ERROR_NONE, "print", "printing the number read from '%s' failed: %d", s, e);
    d = zpl_file_stream_buf(&f, &sz); VZ_CHECK(sz > 0 && sz < 8000, "print", "the number read from '%s' is printed on %td bytes", s, sz); memcpy(out, d, (size_t)sz); out[sz] = 0; *l = (size_t)sz; zpl_file_close(&f); return out;
}
static void roundtrip(zpl_adt_node *n, const char *s) {
    size_t l; zpl_adt_node m; char *o = print(n, &l, s), *t = vz_dup(o, l + 1); num w = ref(t); int i, k = (int)vz_u(2);
    memset(&m, 0x5a, sizeof m); m.type = ZPL_ADT_TYPE_STRING; m.string = t;
    if (!strcmp(t, "NaN") || strstr(t, "Infinity")) { VZ_CHECK(n->type == ZPL_ADT_TYPE_REAL && !isfinite(n->real), "reread", "'%s' is printed as %s", s, t); vz_undup(t); return; }
    VZ_CHECK(w.ok && w.len == l, "printed form", "'%s' is printed as '%s', which is no numeral", s, t);
    if (k) zpl_adt_str_to_number_strict(&m); else zpl_adt_parse_number(&m, t);
    for (i = 0; i < 1; i++) {
        VZ_CHECK(m.type == ZPL_ADT_TYPE_INTEGER || m.type == ZPL_ADT_TYPE_REAL, "reread", "'%s' is printed as '%s', which is not read back", s, t);
        if (n->type == ZPL_ADT_TYPE_INTEGER) VZ_CHECK(m.type == ZPL_ADT_TYPE_INTEGER && m.integer == n->integer, "reread-integer", "'%s' (%lld) is printed as '%s' and read back as %lld", s, (long long)n->integer, t, (long long)m.integer);
        else { double v = m.type == ZPL_ADT_TYPE_REAL ? m.real : (double)m.integer; if (inrange(n->real)) VZ_CHECK(near_(v, n->real), "reread-real", "'%s' (%.17g) is printed as '%s' and read back as %.17g", s, n->real, t, v);
            /* the text itself says the value too */ if (inrange(n->real)) VZ_CHECK(near_(w.real ? w.r : w.i, n->real), "printed value", "'%s' (%.17g) is printed as '%s'", s, n->real, t); }
    }
    vz_stat("printed and read back", 1); vz_undup(t);
}
static void t_read(void) {
    int q; for (q = 0; q < 60; q++) {
        size_t l = numeral(G), tail = 0; num w; zpl_adt_node n; char *t, *e; int how = (int)vz_u(4);
        if (how == 0 && vz_pct(50)) { static const char *const E_[] = { ",", " ", "]", "}", "\n", ":", "x", "abc", "_", "e", "e+", "-", "+1", "E-" }; const char *x = E_[vz_u(14)]; tail = strlen(x); memcpy(G + l, x, tail + 1); }
        w = ref(G); if (!tail && !(w.ok && w.len == l)) VZ_BROKEN("numeral '%s' (%zu) seen as %d %zu", G, l, w.ok, w.len);
        t = vz_dup(G, l + tail + 1); memset(&n, 0, sizeof n); strcpy(C, l > 300 ? "(long) " : ""); strncat(C, G, 300);
        switch (how) {
            case 0: e = zpl_adt_parse_number(&n, t); if (w.ok > 0) VZ_CHECK(e == t + w.len, "end", "reading '%s' stops after %td bytes, the numeral has %zu", C, e - t, w.len); check(&n, &w, "reading", C); break;
            case 1: e = zpl_adt_parse_number_strict(&n, t); if (w.ok > 0) VZ_CHECK(e == t + w.len, "end", "reading '%s' strictly stops after %td bytes of %zu", C, e - t, w.len); check(&n, &w, "strictly reading", C); break;
            case 2: n.type = vz_pct(50) ? ZPL_ADT_TYPE_STRING : ZPL_ADT_TYPE_MULTISTRING; n.string = t; if (vz_u(4)) VZ_CHECK(zpl_adt_str_to_number(&n) == ZPL_ADT_ERROR_NONE, "convert", "'%s' was not converted", C); else zpl_adt_str_to_flt(&n); check(&n, &w, "converting", C); VZ_CHECK(zpl_adt_str_to_number(&n) == ZPL_ADT_ERROR_ALREADY_CONVERTED, "again", "a number was converted again"); break;
            default: n.type = ZPL_ADT_TYPE_STRING; n.string = t; VZ_CHECK(zpl_adt_str_to_number_strict(&n) == ZPL_ADT_ERROR_NONE, "convert", "'%s' was not converted", C); check(&n, &w, "strictly converting", C); VZ_CHECK(zpl_adt_str_to_number_strict(&n) == ZPL_ADT_ERROR_ALREADY_CONVERTED, "again", "a number was converted again"); break;
        }
        VZ_CHECK(!memcmp(t, G, l + tail + 1), "text", "reading '%s' changed the text", C);
        if (w.ok > 0) roundtrip(&n, C); else vz_stat("numerals too large", 1);
        if (l > 40) vz_stat("numerals of more than 40 characters", 1);
        vz_sample("'%s'", C); vz_distinct(vz_hash(G, l + tail, 5)); vz_undup(t);
    }
}
/* values that did not come from text */
static void t_value(void) {
    int q; for (q = 0; q < 60; q++) {
        zpl_adt_node n; memset(&n, 0, sizeof n); int k = (int)vz_u(6); double v;
        if (k < 2) zpl_adt_set_int(&n, "n", (zpl_i64)vz_edge64());
        else { v = k == 2 ? (double)vz_range(-100000, 100000) / 64 : k == 3 ? ldexp(vz_unit() - 0.5, (int)vz_range(-60, 60)) : k == 4 ? ldexp(vz_unit() - 0.5, (int)vz_range(-950, 950)) : (vz_unit() - .5) * pow(10, (double)vz_range(-20, 20)); if (vz_pct(3)) v = vz_pct(50) ? 0 : -0.0; zpl_adt_set_flt(&n, "n", v); }
        snprintf(C, 100, k < 2 ? "%lld" : "%.17g", k < 2 ? n.integer : 0LL); if (k >= 2) snprintf(C, 100, "%.17g", n.real);
        { zpl_adt_node b = n; roundtrip(&n, C); VZ_CHECK(!memcmp(&b, &n, sizeof n), "node changed", "printing %s changed the node", C); }
        vz_stat("values printed", 1); vz_distinct(vz_hash(&n.real, 8, (uint64_t)k + 90));
    }
}
static void t_strict(void) {
    int q; for (q = 0; q < 60; q++) {
        size_t l; num w; zpl_adt_node n, b; char *t, *e; int k = (int)vz_u(4);
        if (k == 0) { static const char *const X[] = { "", "-", "+", ".", "-.", "+.", "e", "e5", ".e5", "1e", "1e+", "1e-", "0x", "0xg", "-0x", "x", "1.2.3", "127.0.0.1", "1..2", "--1", "+-1", "1-2", "1 ", " 1", "1,5", "1_000", "NaN", "Infinity", "true", "abc", "12abc", "0b101", "1f", "1e5e5", "0x1.8", "0x1p3", "1e5.5", ".5.", "5..", "\xd9\xa1", "2024-01-02", "10:30", "f", "ff", "-e", "beef", "1a2b" }; strcpy(G, X[vz_u(47)]); l = strlen(G); }
        else if (k == 1) { static const char A[] = "0123456789+-.eExXabf ,"; size_t i; l = vz_u(9); for (i = 0; i < l; i++) G[i] = A[vz_u(22)]; G[l] = 0; }
        else { l = numeral(G); if (l > 60) l = 60, G[60] = 0; { int m = 1 + (int)vz_u(2); while (m-- && l) { size_t at = vz_u(l); switch (vz_u(3)) { case 0: memmove(G + at, G + at + 1, l - at); l--; break; case 1: G[at] = "0159.+-eExXg \t,"[vz_u(15)]; break; default: memmove(G + at + 1, G + at, l - at + 1); G[at] = "0159.+-eExXg \t,"[vz_u(15)]; l++; } } } }
        w = ref(G); t = vz_dup(G, l + 1); memset(&n, 0, sizeof n); n.type = ZPL_ADT_TYPE_STRING; n.string = t; n.name = "cell"; b = n; (void)k;
        if (vz_pct(50)) { e = zpl_adt_parse_number_strict(&n, t); VZ_CHECK(e >= t && e <= t + l, "end", "strictly reading '%s' ends outside the text", vz_show(G, l)); } else zpl_adt_str_to_number_strict(&n);
        if (w.ok && w.len == l) { check(&n, &w, "strictly reading", vz_show(G, l)); vz_stat("near-numerals that are numerals", 1); }
        else { VZ_CHECK(!memcmp(&n, &b, sizeof n), "not a number", "strictly reading '%s' makes it %s", vz_show(G, l), n.type == ZPL_ADT_TYPE_STRING ? "a changed string node" : "a number"); vz_stat("non-numerals refused", 1); }
        { zpl_adt_node m; memset(&m, 0, sizeof m); e = zpl_adt_parse_number(&m, t); VZ_CHECK(e >= t && e <= t + l + 1, "end", "reading '%s' ends outside the text", vz_show(G, l)); if (w.ok > 0) check(&m, &w, "reading", vz_show(G, l)); else if (!w.ok) VZ_CHECK(m.type == ZPL_ADT_TYPE_UNINITIALISED, "loose", "'%s' does not start with a numeral but reading it gives type %d", vz_show(G, l), m.type); }
        vz_distinct(vz_hash(G, l, 6)); vz_undup(t);
    }
}
VZ_MAIN({"read", t_read, 5}, {"value", t_value, 2}, {"strict", t_strict, 3})
