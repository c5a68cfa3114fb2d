/* independent reading of a numeral */
#include <math.h>
#include <ctype.h>
typedef struct num { int ok, real, hex, extreme; /* more than 300 digits or an exponent beyond 300: memory safety and the extent only */ size_t len; int64_t i; long double r; } num;
/* reference: [+-] ( 0x hex+ | digits [ . digits* ] | . digits+ ) [ (e|E) [+-] digits+ ] at the start of s */
static num ref(const char *s) {
    num n; const char *p = s, *d; int neg = 0, big = 0, nd = 0, nf = 0; unsigned __int128 v = 0; long e = 0; memset(&n, 0, sizeof n);
    if (*p == '+' || *p == '-') neg = *p++ == '-';
    if (*p == '0' && (p[1] == 'x' || p[1] == 'X') && isxdigit((unsigned char)p[2])) {
        for (p += 2; isxdigit((unsigned char)*p); p++, nd++) { int c = *p <= '9' ? *p - '0' : (*p | 32) - 'a' + 10; v = v * 16 + (unsigned)c; if (v >> 64) { big = 1; v = 1; } }
        n.ok = big || v > INT64_MAX ? -1 : 1; n.hex = 1; n.len = (size_t)(p - s); n.i = big ? 0 : (int64_t)v; if (neg) n.i = -n.i; return n; /* -1: too large, only memory safety is claimed */
    }
    for (d = p; isdigit((unsigned char)*p); p++, nd++) { if (!big) { v = v * 10 + (unsigned)(*p - '0'); if (v > (unsigned __int128)1 << 100) big = 1; } }
    if (*p == '.' && (nd || isdigit((unsigned char)p[1]))) { n.real = 1; for (p++; isdigit((unsigned char)*p); p++) nf++; if (*p == '.') return n; }
    else if (!nd) return n;
    if (*p == 'e' || *p == 'E') { const char *q = p + 1; int en = 0; if (*q == '+' || *q == '-') en = *q++ == '-'; if (isdigit((unsigned char)*q)) { for (; isdigit((unsigned char)*q); q++) if (e < 100000) e = e * 10 + (*q - '0'); if (en) e = -e; p = q; } }
    n.ok = 1; n.len = (size_t)(p - s); (void)d; n.extreme = nd > 290 || nf > 290 || e > 300 || e < -300;
    if (e < 0) n.real = 1;
    if (!n.real) { long k; for (k = 0; v && k < e && !big; k++) { v *= 10; if (v > (unsigned __int128)1 << 100) big = 1; } if (big || v > (unsigned __int128)INT64_MAX + (unsigned)neg) n.real = 1; else n.i = (int64_t)(neg ? 0 - (uint64_t)v : (uint64_t)v); }
    if (n.real) { char *t = malloc(n.len + 1); memcpy(t, s, n.len); t[n.len] = 0; n.r = strtold(t, 0); free(t); }
    return n;
}
static int near_(long double a, long double b) { if (b == 0 || fabsl(b) < 1e-290L) return fabsl(a) < 1e-290L; return a == b || fabsl(a - b) <= 2e-14L * fabsl(b); }
static int inrange(long double v) { long double a = fabsl(v); return a == 0 || (a >= 1e-290L && a <= 1e290L); }
static size_t digits(char *p, int n) { int i; for (i = 0; i < n; i++) p[i] = (char)('0' + vz_u(10)); return (size_t)n; }
