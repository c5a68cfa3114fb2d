/* An independent parser and backtracking matcher of the documented pattern language, written over a syntax tree. */
#ifndef REREF_H
#define REREF_H
enum { R_SET, R_BEG, R_END, R_GROUP };
typedef struct rn { int kind, min, max, greedy, cap; unsigned char set[32]; struct ralt *alts; struct rn *next; } rn;
typedef struct ralt { struct rn *first; struct ralt *next; } ralt;
static rn *rpool; static ralt *apool; static int rn_n, ra_n; enum { RN_MAX = 40000 };
static const unsigned char *rp, *rend; static int rcaps, rerr, rdangling, rquants, ralts, rdepth;
static void rset_add(rn *n, int c) { n->set[c >> 3] |= (unsigned char)(1 << (c & 7)); }
static int rset_has(const rn *n, int c) { return n->set[c >> 3] >> (c & 7) & 1; }
static void rset_neg(rn *n) { int i; for (i = 0; i < 32; i++) n->set[i] = (unsigned char)~n->set[i]; }
static int rhexv(int c) { return c >= '0' && c <= '9' ? c - '0' : c >= 'a' && c <= 'f' ? c - 'a' + 10 : c >= 'A' && c <= 'F' ? c - 'A' + 10 : -1; }
static int rclass(int k, int c) {
    int dig = c >= '0' && c <= '9', lo = c >= 'a' && c <= 'z', up = c >= 'A' && c <= 'Z', ws = c == ' ' || (c >= 9 && c <= 13);
    switch (k) {
        case 's': return ws; case 'S': return !ws; case 'd': return dig; case 'D': return !dig; case 'a': return lo || up; case 'l': return lo; case 'u': return up;
        case 'w': return lo || up || dig || c == '_'; case 'W': return !(lo || up || dig || c == '_'); case 'x': return rhexv(c) >= 0; case 'p': return c >= 0x20 && c <= 0x7e;
        case 't': return c == 9; case 'n': return c == 10; case 'r': return c == 13; case 'f': return c == 12; case 'v': return c == 11; case '0': return c == 0;
    }
    return c == k;
}
static void resc(rn *n) { /* at the byte behind the backslash */
    int c, i;
    if (rp + 1 < rend && rhexv(rp[0]) >= 0 && rhexv(rp[1]) >= 0) { rset_add(n, rhexv(rp[0]) * 16 + rhexv(rp[1])); rp += 2; return; }
    c = *rp++; for (i = 0; i < 256; i++) if (rclass(c, i)) rset_add(n, i);
}
static rn *rnew(int kind) { rn *n; if (rn_n >= RN_MAX) { rerr = 1; rn_n = 0; } n = rpool + rn_n++; memset(n, 0, sizeof *n); n->kind = kind; n->min = n->max = 1; return n; }
static ralt *ralternatives(int level) {
    ralt *head, *a; rn *last = 0, *n; int any = 0;
    if (++rdepth > 4000) { rerr = 1; return 0; }
    head = a = apool + ra_n++; memset(a, 0, sizeof *a);
    while (rp < rend && !rerr) {
        int c = *rp++; n = 0;
        switch (c) {
            case '^': n = rnew(R_BEG); break;
            case '$': n = rnew(R_END); break;
            case '.': n = rnew(R_SET); memset(n->set, 255, 32); break;
            case '(': n = rnew(R_GROUP); n->cap = rcaps++; n->alts = ralternatives(level + 1); if (!rerr && (rp > rend || rp[-1] != ')' || !n->alts)) rerr = 1; break;
            case ')': if (level == 0) rerr = 1; rdepth--; return head;
            case ']': rerr = 1; break;
            case '|': if (!any) { rerr = 1; break; } ralts++; if (ra_n >= RN_MAX) { rerr = 1; break; } a->next = apool + ra_n++; a = a->next; memset(a, 0, sizeof *a); last = 0; continue;
            case '[': { int neg = 0; n = rnew(R_SET); if (rp < rend && *rp == '^') { neg = 1; rp++; }
                for (;;) { if (rp >= rend) { rerr = 1; break; } if (*rp == ']') { rp++; break; } if (*rp == '\\') { rp++; if (rp >= rend) { rerr = 1; break; } resc(n); } else rset_add(n, *rp++); }
                if (neg) rset_neg(n); } break;
            case '*': case '+': case '?':
                if (!last || last->kind != R_SET || last->greedy) { rerr = 1; break; }
                last->greedy = 1; rquants++; last->min = c == '+'; last->max = c == '?' ? 1 : INT_MAX;
                if (c != '?' && rp < rend && *rp == '?') { last->greedy = -1; rp++; }
                continue;
            case '\\': if (rp >= rend) { rdangling = 1; last = 0; any |= 0; continue; } n = rnew(R_SET); resc(n); break;
            default: n = rnew(R_SET); rset_add(n, c);
        }
        if (rerr) break;
        any = 1; if (last) last->next = n; else if (!a->first) a->first = n; else { rn *q = a->first; while (q->next) q = q->next; q->next = n; }
        last = n;
    }
    rdepth--;
    if (level > 0) rerr = 1;
    return head;
}
/* the tree, or NULL for a malformed pattern */
static ralt *rparse(const void *pat, size_t n) {
    ralt *a; if (!rpool) { rpool = (rn *)malloc((RN_MAX + 2) * sizeof *rpool); apool = (ralt *)malloc((RN_MAX + 2) * sizeof *apool); }
    rn_n = ra_n = 0; rp = (const unsigned char *)pat; rend = rp + n; rcaps = rerr = rdangling = rquants = ralts = rdepth = 0; a = ralternatives(0); return rerr ? 0 : a;
}
/* matching: what is left to do is a linked list of node sequences and group ends */
typedef struct rcont { rn *seq; int endcap; struct rcont *up; } rcont;
static const unsigned char *rs; static long rlen, rsteps, rbudget; enum { RCAPS = 300 };
static long rcb[RCAPS], rce[RCAPS];
static long rtry(rn *n, rcont *k, long pos);
static long rrest(rcont *k, long pos) {
    long r, old;
    if (!k) return pos;
    old = rce[k->endcap]; rce[k->endcap] = pos; r = rtry(k->seq, k->up, pos); if (r < 0) rce[k->endcap] = old; return r;
}
static long rtry(rn *n, rcont *k, long pos) {
    if (++rsteps > rbudget) return -2;
    if (!n) return rrest(k, pos);
    switch (n->kind) {
        case R_BEG: return pos == 0 ? rtry(n->next, k, pos) : -1;
        case R_END: return pos == rlen ? rtry(n->next, k, pos) : -1;
        case R_GROUP: { ralt *a; long old = rcb[n->cap], r; rcont c; c.seq = n->next; c.endcap = n->cap; c.up = k; rcb[n->cap] = pos;
            for (a = n->alts; a; a = a->next) { r = rtry(a->first, &c, pos); if (r != -1) return r; } rcb[n->cap] = old; return -1; }
    }
    { long most = 0, i, r;
      while (most < n->max && pos + most < rlen && rset_has(n, rs[pos + most])) most++;
      if (n->greedy < 0) { for (i = n->min; i <= most; i++) { r = rtry(n->next, k, pos + i); if (r != -1) return r; } }
      else for (i = most; i >= n->min; i--) { r = rtry(n->next, k, pos + i); if (r != -1) return r; }
      return -1; }
}
/* leftmost match at or behind `from`: 1 found, 0 none, -2 out of budget */
static int rfind(ralt *a0, const void *s, long len, long from, long budget, long *b, long *e) {
    rs = (const unsigned char *)s; rlen = len; rsteps = 0; rbudget = budget;
    for (; from <= len; from++) {
        ralt *a; int i; for (i = 0; i < RCAPS; i++) rcb[i] = rce[i] = -1;
        for (a = a0; a; a = a->next) { long r = rtry(a->first, 0, from); if (r == -2) return -2; if (r >= 0) { *b = from; *e = r; return 1; } }
    }
    return 0;
}
#endif
