/* C-string functions against the C library, on exact-size blocks */
#include "vz.h"
#define SG(x) ((x) > 0 ? 1 : (x) < 0 ? -1 : 0)
static char *rstr(size_t max, size_t *np) {  /* exact-size, small alphabets make matches likely */
    size_t n = vz_pct(10) ? 0 : vz_pct(70) ? vz_u(12) : vz_u(max), i; char *s = malloc(n + 1);
    int mode = (int)vz_u(4);
    static const char a0[] = "ab", a1[] = "aAbBzZ019_ \t\n\r,;", a2[] = "\x80\xff\x7f\x01 aZ@[`{";
    for (i = 0; i < n; i++) s[i] = mode == 0 ? a0[vz_u(2)] : mode == 1 ? a1[vz_u(sizeof a1 - 1)] : mode == 2 ? a2[vz_u(sizeof a2 - 1)] : (char)(1 + vz_u(255));
    s[n] = 0; if (np) *np = n; return s;
}
static char *mutate(const char *s) { /* a near copy */
    size_t n = strlen(s); char *t = malloc(n + 2); strcpy(t, s);
    if (vz_pct(30)) { char *r = strdup(t); free(t); return r; }
    if (n && vz_pct(60)) { t[vz_u(n)] = (char)(1 + vz_u(255)); }
    else if (n && vz_pct(50)) t[vz_u(n)] = 0;
    else { t[n] = (char)(1 + vz_u(255)); t[n + 1] = 0; }
    { char *r = strdup(t); free(t); return r; }
}
static void t_chars(void) {
    int c;
    for (c = 0; c < 256; c++) {
        char ch = (char)c; int asc = c < 128;
        int digit = c >= '0' && c <= '9', up = c >= 'A' && c <= 'Z', lo = c >= 'a' && c <= 'z';
        int sp = c == ' ' || (c >= 9 && c <= 13), hx = digit || (c >= 'a' && c <= 'f') || (c >= 'A' && c <= 'F');
        (void)asc;
        VZ_CHECK(!!zpl_char_is_digit(ch) == digit, "is_digit", "byte %d", c);
        VZ_CHECK(!!zpl_char_is_alpha(ch) == (up || lo), "is_alpha", "byte %d", c);
        VZ_CHECK(!!zpl_char_is_alphanumeric(ch) == (up || lo || digit), "is_alphanumeric", "byte %d", c);
        VZ_CHECK(!!zpl_char_is_space(ch) == sp, "is_space", "byte %d", c);
        VZ_CHECK(!!zpl_char_is_hex_digit(ch) == hx, "is_hex_digit", "byte %d", c);
        VZ_CHECK((zpl_u8)zpl_char_to_lower(ch) == (up ? c + 32 : c), "to_lower", "byte %d -> %d", c, (zpl_u8)zpl_char_to_lower(ch));
        VZ_CHECK((zpl_u8)zpl_char_to_upper(ch) == (lo ? c - 32 : c), "to_upper", "byte %d -> %d", c, (zpl_u8)zpl_char_to_upper(ch));
        if (hx) {
            int v = digit ? c - '0' : (c | 32) - 'a' + 10;
            VZ_CHECK(zpl_hex_digit_to_int(ch) == v, "hex_digit_to_int", "byte %d -> %d", c, zpl_hex_digit_to_int(ch));
            VZ_CHECK(zpl_char_to_hex_digit(ch) == v, "char_to_hex_digit", "byte %d -> %d", c, zpl_char_to_hex_digit(ch));
            if (digit || lo) VZ_CHECK(zpl_digit_to_int(ch) == v, "digit_to_int", "byte %d -> %d", c, zpl_digit_to_int(ch));
        } else { VZ_CHECK(zpl_char_to_hex_digit(ch) == 0, "char_to_hex_digit", "byte %d -> %d", c, zpl_char_to_hex_digit(ch)); VZ_CHECK(zpl_hex_digit_to_int(ch) == -1, "hex_digit_to_int", "byte %d is no digit", c); }
    }
    vz_distinct(1);
}
static void t_len(void) {
    { char d[8] = "keep"; zpl_str_to_lower(0); zpl_str_to_upper(0); VZ_CHECK(zpl_strlen(0) == 0, "no-string", "no string has length %zd", (ssize_t)zpl_strlen(0)); zpl_strcpy(d, 0); zpl_strcat(d, 0); zpl_strncpy(d, 0, 8); zpl_strlcpy(d, 0, 8); VZ_CHECK(!strcmp(d, "keep"), "no-string", "copying no string made it %s", d); }
    size_t n; char *s = rstr(400, &n); size_t lim = vz_u(n + 40);
    VZ_CHECK((size_t)zpl_strlen(s) == n, "strlen", "%zd for %zu", (ssize_t)zpl_strlen(s), n);
    VZ_CHECK((size_t)zpl_strnlen(s, (zpl_isize)lim) == (lim < n ? lim : n), "strnlen", "len %zu limit %zu", n, lim);
    { char *u = vz_dup(s, n); VZ_CHECK((size_t)zpl_strnlen(u, (zpl_isize)n) == strnlen(s, n), "strnlen", "unterminated block of %zu", n); vz_undup(u); }
    { size_t i = n ? vz_u(n + 1) : 0; char c = vz_pct(80) ? s[i] : (char)vz_u(256);
      VZ_CHECK(zpl_char_first_occurence(s, c) == strchr(s, c), "strchr", "'%s' byte %d", vz_show(s, n), c);
      VZ_CHECK(zpl_char_last_occurence(s, c) == strrchr(s, c), "strrchr", "'%s' byte %d", vz_show(s, n), c);
      if (c) { const char *e = strchr(s, c); VZ_CHECK(zpl_str_skip(s, c) == (e ? e : s + n), "skip", "'%s' byte %d", vz_show(s, n), c); } }
    { /* skipping to a character that is not escaped; text with many of them */
      char u[60]; size_t m = vz_u(40), i; static const char esc[] = "\"\\/bfnrt", stops[] = "\"\\/bfnrta ;'\0"; char c = vz_pct(80) ? stops[vz_u(sizeof stops - 1)] : (char)vz_u(256); const char *e, *d; char *x;
      for (i = 0; i < m; i++) { static const char al[] = "\"\\\\\\/bnta ;'"; u[i] = vz_pct(40) && c ? c : al[vz_u(sizeof al - 1)]; } u[m] = 0; x = vz_dup(u, m + 1);
      for (e = x; *e; e++) if (*e == c && !(e > x && e[-1] == '\\' && strchr(esc, c))) break;
      VZ_CHECK(zpl_str_control_skip(x, c) == e, "control_skip", "'%s' byte %d stops at %td, expected %td", vz_show(u, m), c, zpl_str_control_skip(x, c) - x, e - x);
      d = x; if (*d && *d != c) for (d++; *d; d++) if (*d == c && d[-1] != '\\') break;
      if (c) VZ_CHECK(zpl_str_skip_literal(x, c) == d, "skip_literal", "'%s' byte %d stops at %td, expected %td", vz_show(u, m), c, zpl_str_skip_literal(x, c) - x, d - x);
      VZ_CHECK(!!zpl_char_is_control(c) == !!strchr(esc, c), "is_control", "byte %d", c); vz_undup(x); }
    { char *set = rstr(6, 0); if (*set) VZ_CHECK(zpl_str_skip_any(s, set) == s + strcspn(s, set), "skip_any", "'%s' set '%s'", s, set); free(set); }
    VZ_CHECK(zpl_str_trim(s, false) == s + strspn(s, " \t\n\r\f\v"), "trim", "'%s'", vz_show(s, n));
    VZ_CHECK(zpl_str_trim(s, true) == s + strspn(s, " \t\r\f\v"), "trim-newline", "'%s'", vz_show(s, n));
    vz_distinct(vz_hash(s, n, lim)); vz_sample("'%s' within %ld bytes", vz_show(s, n), (long)lim); free(s);
}
static void t_cmp(void) {
    char *a = rstr(120, 0), *b = vz_pct(60) ? mutate(a) : rstr(120, 0); size_t la = strlen(a), lb = strlen(b), k = vz_u(la + 4);
    if (vz_pct(50)) { char *x = a; a = b; b = x; la = strlen(a); lb = strlen(b); }
    VZ_CHECK(SG(zpl_strcmp(a, b)) == SG(strcmp(a, b)), "strcmp", "'%s' '%s' -> %d", vz_show(a, la), vz_show(b, lb), zpl_strcmp(a, b));
    VZ_CHECK(SG(zpl_strncmp(a, b, (zpl_isize)k)) == SG(strncmp(a, b, k)), "strncmp", "'%s' '%s' limit %zu -> %d", vz_show(a, la), vz_show(b, lb), k, zpl_strncmp(a, b, (zpl_isize)k));
    { size_t m = la < lb ? la : lb; char *u = vz_dup(a, m), *w = vz_dup(b, m);  /* neither is terminated */
      VZ_CHECK(SG(zpl_strncmp(u, w, (zpl_isize)m)) == SG(strncmp(a, b, m)), "strncmp", "unterminated, limit %zu", m); vz_undup(u); vz_undup(w); }
    VZ_CHECK(!!zpl_str_has_prefix(a, b) == (strncmp(a, b, lb) == 0), "prefix", "'%s' '%s'", vz_show(a, la), vz_show(b, lb));
    { size_t off = vz_u(la + 1); char *p = strndup(a, off), *s = strdup(a + off);
      VZ_CHECK(zpl_str_has_prefix(a, p), "prefix", "'%s' '%s'", vz_show(a, la), vz_show(p, off));
      VZ_CHECK(zpl_str_has_suffix(a, s), "suffix", "'%s' '%s'", vz_show(a, la), vz_show(s, la - off)); free(p); free(s); }
    VZ_CHECK(!!zpl_str_has_suffix(a, b) == (lb <= la && !strcmp(a + la - lb, b)), "suffix", "'%s' '%s'", vz_show(a, la), vz_show(b, lb));
    vz_distinct(vz_hash(a, la, vz_hash(b, lb, k))); free(a); free(b);
}
static void t_copy(void) {
    size_t n, m, k; char *s = rstr(200, &n), *d, *e;
    d = malloc(n + 1); memset(d, 0x5a, n + 1);
    VZ_CHECK(zpl_strcpy(d, s) == d && !memcmp(d, s, n + 1), "strcpy", "of '%s' gave '%s'", vz_show(s, n), vz_show(d, n + 1)); free(d);
    k = vz_u(n + 6); d = malloc(k ? k : 1); e = malloc(k + 1); memset(d, 0x5a, k ? k : 1); memset(e, 0x5a, k + 1); strncpy(e, s, k);
    VZ_CHECK(zpl_strncpy(d, s, (zpl_isize)k) == d && !memcmp(d, e, k), "strncpy", "'%s' limit %zu", vz_show(s, n), k);
    memset(d, 0x5a, k ? k : 1);
    { zpl_isize r = zpl_strlcpy(d, s, (zpl_isize)k);
      VZ_CHECK((size_t)r == n, "strlcpy-result", "%zd for a source of %zu, limit %zu", (ssize_t)r, n, k);
      if (k) { size_t c = n < k - 1 ? n : k - 1; VZ_CHECK(!memcmp(d, s, c) && d[c] == 0, "strlcpy", "'%s' limit %zu gave '%s'", vz_show(s, n), k, vz_show(d, k)); }
      else VZ_CHECK(d[0] == 0x5a, "strlcpy", "limit 0 wrote"); }
    free(d); free(e);
    { char *t = rstr(60, &m); d = malloc(n + m + 1); memset(d, 0x5a, n + m + 1); memcpy(d, s, n + 1);
      VZ_CHECK(zpl_strcat(d, t) == d && !memcmp(d, s, n) && !memcmp(d + n, t, m + 1), "strcat", "'%s' + '%s' gave '%s'", vz_show(s, n), vz_show(t, m), vz_show(d, n + m + 1));
      memset(d, 0x5a, n + m + 1); { char *u = vz_dup(s, n), *w = vz_dup(t, m); zpl_str_concat(d, (zpl_isize)(n + m + 1 + vz_u(0)), u, (zpl_isize)n, w, (zpl_isize)m); vz_undup(u); vz_undup(w); }
      VZ_CHECK(!memcmp(d, s, n) && !memcmp(d + n, t, m + 1), "concat", "'%s' + '%s'", vz_show(s, n), vz_show(t, m)); free(d); free(t); }
    { vz_track t; size_t lim = vz_u(n + 8), c = n < lim ? n : lim; vz_track_init(&t);
      d = zpl_strdup(vz_track_allocator(&t), s, (zpl_isize)lim);
      VZ_CHECK(d && !memcmp(d, s, c) && d[c] == 0, "strdup", "'%s' limit %zu gave '%s'", vz_show(s, n), lim, vz_show(d, c + 1));
      zpl_free(vz_track_allocator(&t), d); VZ_TRACK_DONE(&t); }
    { size_t i; d = strdup(s); VZ_CHECK(zpl_strrev(d) == d && strlen(d) == n, "strrev", "'%s' gave '%s'", vz_show(s, n), d);
      for (i = 0; i < n; i++) VZ_CHECK(d[i] == s[n - 1 - i], "strrev", "'%s' gave '%s'", vz_show(s, n), vz_show(d, n));
      memcpy(d, s, n); zpl_str_to_lower(d); for (i = 0; i <= n; i++) VZ_CHECK(d[i] == (s[i] >= 'A' && s[i] <= 'Z' ? s[i] + 32 : s[i]), "str_to_lower", "'%s'", vz_show(s, n));
      memcpy(d, s, n); zpl_str_to_upper(d); for (i = 0; i <= n; i++) VZ_CHECK(d[i] == (s[i] >= 'a' && s[i] <= 'z' ? s[i] - 32 : s[i]), "str_to_upper", "'%s'", vz_show(s, n));
      free(d); }
    vz_distinct(vz_hash(s, n, k)); free(s);
}
static void t_tok(void) {
    size_t n; char *s = rstr(120, &n), *del = rstr(5, 0); const char *p = s, *q = s; size_t guard = 0; uint64_t h = 0;
    for (;;) { /* tokens in order, each exactly the text up to a delimiter */
        size_t k = strcspn(q, del); char *o = malloc(k + 1); const char *r;
        memset(o, 0x5a, k + 1); r = zpl_strtok(o, p, del);
        VZ_CHECK(!memcmp(o, q, k) && o[k] == 0, "strtok", "in '%s' delimiters '%s'", vz_show(s, n), vz_show(del, strlen(del)));
        q += k; if (*q) q++;
        VZ_CHECK(r == q, "strtok-next", "in '%s' delimiters '%s': next token at %td, expected %td", vz_show(s, n), vz_show(del, strlen(del)), r - s, q - s);
        free(o); p = r; h++; if (!*p) break; VZ_CHECK(++guard <= n + 1, "strtok-loop", "no progress");
    }
    p = q = s; guard = 0;
    for (;;) {
        size_t k = strcspn(q, del), lim = 1 + vz_u(k + 3), c = k < lim - 1 ? k : lim - 1; char *o = malloc(lim); const char *r;
        memset(o, 0x5a, lim); r = zpl_strntok(o, (zpl_isize)lim, p, del);
        VZ_CHECK(!memcmp(o, q, c) && o[c] == 0, "strntok", "in '%s' delimiters '%s' limit %zu gave '%s'", vz_show(s, n), vz_show(del, strlen(del)), lim, vz_show(o, lim));
        q += k; if (*q) q++;
        VZ_CHECK(r == q, "strntok-next", "in '%s' delimiters '%s' limit %zu: next token at %td, expected %td", vz_show(s, n), vz_show(del, strlen(del)), lim, r - s, q - s);
        free(o); p = r; if (!*p) break; VZ_CHECK(++guard <= n + 1, "strntok-loop", "no progress");
    }
    vz_distinct(vz_hash(s, n, h)); free(s); free(del);
}
static void t_lines(void) {
    size_t n = vz_u(vz_pct(80) ? 20 : 300), i, nl = 0, k = 0; char *s = malloc(n + 1), *src; int strip = vz_pct(50); vz_track t; char **lines; char *want[400];
    static const char al[] = "\n\n\r\nab \t"; zpl_allocator A;
    for (i = 0; i < n; i++) s[i] = vz_pct(20) ? (char)(1 + vz_u(255)) : al[vz_u(sizeof al - 1)];
    s[n] = 0; src = strdup(s);
    for (i = 0; i < n;) { /* a line ends at \n or the end of the text; one \r before it is dropped */
        size_t e = i; char *w; while (e < n && s[e] != '\n') e++;
        w = strndup(s + i, e - i); if (e > i && w[e - i - 1] == '\r') w[e - i - 1] = 0;
        if (strip && !*w) free(w); else want[nl++] = w;
        i = e + 1;
    }
    vz_track_init(&t); A = vz_track_allocator(&t);
    lines = zpl_str_split_lines(A, src, (zpl_b32)strip);
    VZ_CHECK((size_t)zpl_array_count(lines) == nl, "split-count", "%zd lines instead of %zu in '%s' strip=%d", (ssize_t)zpl_array_count(lines), nl, vz_show(s, n), strip);
    for (k = 0; k < nl; k++) { VZ_CHECK(!strcmp(lines[k], want[k]), "split-line", "line %zu of '%s' is '%s'", k, vz_show(s, n), lines[k]); free(want[k]); }
    zpl_array_free(lines); VZ_TRACK_DONE(&t);
    vz_distinct(vz_hash(s, n, (uint64_t)strip)); free(s); free(src);
}
VZ_MAIN({"chars", t_chars, 1}, {"length", t_len, 20}, {"compare", t_cmp, 20}, {"copy", t_copy, 20}, {"token", t_tok, 15}, {"lines", t_lines, 15})
