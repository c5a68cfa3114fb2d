/* JSON values, their text in strict and relaxed layouts, and an independent validator of strict JSON */
#include "numref.h"
enum { JOBJ, JARR, JSTR, JMULTI, JNUM, JWORD };
typedef struct jv { int k; char *name, *str; num n; int word; struct jv **kid; int nk, ck; } jv;
static const char *const JWORDS[] = { "null", "true", "false", "NaN", "Infinity", "-Infinity", "-NaN" };
static const int JPROPS[] = { ZPL_ADT_PROPS_NULL, ZPL_ADT_PROPS_TRUE, ZPL_ADT_PROPS_FALSE, ZPL_ADT_PROPS_NAN, ZPL_ADT_PROPS_INFINITY, ZPL_ADT_PROPS_INFINITY_NEG, ZPL_ADT_PROPS_NAN_NEG };
static char *jt; static size_t jl, jc; static int jrelaxed, jbudget, jdepth_max, jspaces, jhuge;
static void jput(const char *s, size_t n) { if (jl + n + 1 > jc) { jc = (jl + n + 1) * 2; jt = realloc(jt, jc); } memcpy(jt + jl, s, n); jl += n; jt[jl] = 0; }
static void jputs(const char *s) { jput(s, strlen(s)); }
static void jputc(char c) { jput(&c, 1); }
static void jws(int nl) { /* white space; with nl, line breaks and comments too */
    int k; if (!jspaces) return;
    while (vz_pct(jspaces)) {
        k = (int)vz_u(nl ? 8 : 2);
        if (k < 2) jputc(k ? '\t' : ' '); else if (k < 4) jputc('\n'); else if (k == 4) jputc('\r');
        else if (jrelaxed && k == 5) jputs(vz_pct(50) ? "/* a { \" comment */" : vz_pct(50) ? "/**/" : "/*x*/"); else if (jrelaxed && k == 6) jputs(vz_pct(50) ? "// to the } end, of\n" : "//\n");
        else jputc(' ');
    }
}
static char *jtake(size_t from) { char *p = malloc(jl - from + 1); memcpy(p, jt + from, jl - from); p[jl - from] = 0; return p; }
/* the inside of a quoted text, as it stands in the source */
static void jraw(char q, int name) {
    int n = (int)vz_u(vz_pct(85) ? 8 : 60), i; static const char ESC[] = "\"\\/bfnrt";
    if (jhuge && !name && vz_pct(20)) { n = (int)vz_range(60000, 70000); jhuge = 0; }
    for (i = 0; i < n; i++) {
        int r = (int)vz_u(20);
        if (r < 12) { static const char A[] = "abcxyzABC019 _-.:,;[]{}/*#'<>=|+"; char c = A[vz_u(sizeof A - 1)]; if (c == q) c = 'q'; jputc(c); }
        else if (r < 14) { char b[3] = { '\\', ESC[vz_u(8)], 0 }; if (q == '\'' && vz_pct(30)) b[1] = '\''; if (q == '`' && vz_pct(30)) b[1] = '`'; jput(b, 2); }
        else if (r < 15) { char b[8]; sprintf(b, "\\u%04x", (unsigned)vz_u(0x10000)); jputs(b); }
        else if (r < 17) { static const char *const U[] = { "\xc3\xa9", "\xe2\x82\xac", "\xf0\x9f\x98\x80", "\xc2\xa0" }; jputs(U[vz_u(4)]); }
        else if (r < 18 && q != '"') jputc(vz_pct(50) && (q == '`' || !name) ? '\n' : '"');
        else jputc((char)('a' + vz_u(26)));
    }
}
static jv *jnew(int k, jv *p) { jv *v = calloc(1, sizeof *v); v->k = k; if (p) { if (p->nk == p->ck) { p->ck = p->ck ? p->ck * 2 : 4; p->kid = realloc(p->kid, sizeof(jv *) * (size_t)p->ck); } p->kid[p->nk++] = v; } return v; }
static void jfree(jv *v) { int i; for (i = 0; i < v->nk; i++) jfree(v->kid[i]); free(v->kid); free(v->name); free(v->str); free(v); }
static void jnumeral(jv *v) {
    size_t s = jl; char b[700], *p = b;
    for (;;) {
        p = b; if (vz_pct(30)) *p++ = jrelaxed && vz_pct(30) ? '+' : '-';
        if (jrelaxed && vz_pct(10)) { p += sprintf(p, vz_pct(70) ? "0x%llx" : "0X%llX", (unsigned long long)(vz_edge64() >> 1)); break; }
        if (vz_pct(30)) p += sprintf(p, "%llu", (unsigned long long)(vz_edge64() >> (vz_pct(60) ? 1 : 0))); else if (vz_pct(15)) *p++ = '0'; else if (jrelaxed && vz_pct(15)) { *p++ = '.'; p += digits(p, 1 + (int)vz_u(9)); goto ex; } else { *p++ = (char)('1' + vz_u(9)); p += digits(p, (int)vz_u(vz_pct(85) ? 7 : 30)); }
        if (vz_pct(35)) { *p++ = '.'; if (jrelaxed && vz_pct(10)) ; else { int z = (int)vz_u(4); if (vz_pct(50)) while (z--) *p++ = '0'; p += digits(p, 1 + (int)vz_u(vz_pct(85) ? 7 : 30)); } }
      ex: if (vz_pct(25)) { *p++ = vz_pct(50) ? 'e' : 'E'; if (vz_pct(60)) *p++ = vz_pct(60) ? '-' : '+'; p += sprintf(p, "%d", (int)vz_u(vz_pct(80) ? 20 : 250)); }
        break;
    }
    *p = 0; v->n = ref(b); if (v->n.ok <= 0) VZ_BROKEN("numeral %s", b); jput(b, (size_t)(p - b)); (void)s;
}
static void jvalue(jv *v, int depth);
static void jname(jv *v) {
    int k = jrelaxed ? (int)vz_u(3) : 0; size_t s;
    if (k == 2) { int n = (int)vz_u(9), i; s = jl; jputc("abcxyz_$ABZtnN"[vz_u(14)]); for (i = 0; i < n; i++) jputc("abcz_$019ABZ"[vz_u(12)]); v->name = jtake(s); return; }
    jputc(k ? '\'' : '"'); s = jl; jraw(k ? '\'' : '"', 1); v->name = jtake(s); jputc(k ? '\'' : '"');
}
static void jmembers(jv *o, int depth, int n, int top) { /* of an object; top: without braces */
    int i; for (i = 0; i < n; i++) {
        jv *v = jnew(0, o); jname(v); jws(1); { char a = jrelaxed && vz_pct(30) ? (vz_pct(50) ? '=' : '|') : ':'; jputc(a); } jws(1); jvalue(v, depth);
        if (i < n - 1 || (jrelaxed && vz_pct(20))) {
            if (!jrelaxed) { jws(1); jputc(','); }
            else switch (vz_u(4)) { case 0: jws(0); jputc('\n'); break; case 1: jws(0); jputc('|'); break; case 2: jws(0); jputc(' '); jputs(vz_pct(30) ? "\n, " : ", "); break; default: jws(1); jputc(','); break; }
        }
        if (!top || i < n - 1) jws(1);
    }
}
static int jkids(int depth) { int n; if (depth >= jdepth_max || jbudget <= 0) return 0; n = (int)vz_u(vz_pct(90) ? 5 : 20); if (n > jbudget) n = jbudget; jbudget -= n; return n; }
static void jvalue(jv *v, int depth) {
    int r = (int)vz_u(12), n, i;
    if (depth == 0) r = vz_pct(70) ? 0 : 3;
    switch (r) {
        case 0: case 1: case 2: v->k = JOBJ; jputc('{'); jws(1); n = jkids(depth); jmembers(v, depth + 1, n, 0); jws(1); jputc('}'); break;
        case 3: case 4: v->k = JARR; jputc('['); jws(1); n = jkids(depth); for (i = 0; i < n; i++) { jvalue(jnew(0, v), depth + 1); jws(1); if (i < n - 1 || (jrelaxed && vz_pct(20))) { jputc(','); jws(1); } } jputc(']'); break;
        case 5: case 6: case 7: { char q = !jrelaxed ? '"' : "\"'`"[vz_u(3)]; size_t s; v->k = q == '`' ? JMULTI : JSTR; jputc(q); s = jl; jraw(q, 0); v->str = jtake(s); jputc(q); break; }
        case 8: case 9: case 10: v->k = JNUM; jnumeral(v); break;
        default: v->k = JWORD; v->word = (int)vz_u(jrelaxed ? 7 : 3); jputs(JWORDS[v->word]); break;
    }
}
/* one document into jt/jl */
static jv *jdoc(int relaxed, int *bare) {
    jv *v = jnew(JOBJ, 0); jl = 0; jput("", 0); jrelaxed = relaxed; jbudget = (int)vz_u(vz_pct(90) ? 40 : 400); jdepth_max = vz_pct(95) ? (int)vz_range(1, 7) : 40; jspaces = vz_pct(25) ? 0 : (int)vz_range(5, 45);
    jhuge = vz_pct(2); *bare = relaxed && vz_pct(25);
    jws(1); if (*bare) { v->k = JOBJ; jmembers(v, 1, 1 + (int)vz_u(6), 1); } else jvalue(v, 0); jws(1);
    return v;
}
/* strict JSON (RFC 8259), except for line layout: end of the value at s, or NULL */
static const char *jsp(const char *s) { while (*s == ' ' || *s == '\t' || *s == '\n' || *s == '\r') s++; return s; }
static const char *jstrict_str(const char *s) { if (*s++ != '"') return 0; for (; *s != '"'; s++) { if (!*s) return 0; if (*s == '\\') { s++; if (*s == 'u') { int i; for (i = 1; i <= 4; i++) if (!isxdigit((unsigned char)s[i])) return 0; s += 4; } else if (!*s || !strchr("\"\\/bfnrt", *s)) return 0; } } return s + 1; }
static const char *jstrict(const char *s, int depth) {
    if (!s || depth > 5000) return 0;
    s = jsp(s);
    if (*s == '{' || *s == '[') { char c = *s == '{' ? '}' : ']'; int obj = *s == '{'; s = jsp(s + 1); if (*s == c) return s + 1; for (;;) { if (obj) { s = jstrict_str(s); if (!s) return 0; s = jsp(s); if (*s++ != ':') return 0; } s = jstrict(s, depth + 1); if (!s) return 0; s = jsp(s); if (*s == c) return s + 1; if (*s++ != ',') return 0; s = jsp(s); } }
    if (*s == '"') return jstrict_str(s);
    { int i; for (i = 0; i < 3; i++) if (!strncmp(s, JWORDS[i], strlen(JWORDS[i]))) return s + strlen(JWORDS[i]); }
    if (*s == '-') s++;
    if (*s == '0') s++; else if (*s >= '1' && *s <= '9') while (isdigit((unsigned char)*s)) s++; else return 0;
    if (*s == '.') { s++; if (!isdigit((unsigned char)*s)) return 0; while (isdigit((unsigned char)*s)) s++; }
    if (*s == 'e' || *s == 'E') { s++; if (*s == '+' || *s == '-') s++; if (!isdigit((unsigned char)*s)) return 0; while (isdigit((unsigned char)*s)) s++; }
    return s;
}
