/* C54: the macros of the library mean the same whatever expression stands for an argument
 * and whatever names the caller uses. Every use is compared with a model working on plain
 * values; composite index, count, value and container expressions and unbraced branches. */
#include "vz.h"
#ifdef __cplusplus
#define CXX 1
#endif
typedef struct { int pad; zpl_array(int) arr; zpl_buffer(int) buf; char tail; } box;
static int M[4096], MN; static const char *opn_ = "?";
/* an integer v as one of several expressions; p, q, f, other come from split() */
static int64_t p, q, w; static int f; static unsigned u1, u2;
static void split(int64_t v) { q = vz_range(1, 9); p = v - q; f = (int)vz_u(2); w = vz_range(-20, 60); u1 = (unsigned)v & 0x55555555u; u2 = (unsigned)v & ~0x55555555u; }
#define IFORMS 9
#ifdef VZ_SIMPLE /* only what compiles whatever the macros do with it */
#define IDX(form, v, DO) switch (form) { case 0: DO(v); break; case 1: DO(p + q); break; case 2: DO(p - -q); break; default: DO(q + p); }
#else
#define IDX(form, v, DO) switch (form) { \
    case 0: DO(v); break; case 1: DO(p + q); break; case 2: DO(f ? v : w); break; case 3: DO(!f ? w : v); break; \
    case 4: DO((int)(u1 | u2)); break; case 5: DO((int)(u1 ^ u2)); break; case 6: DO(p - -q); break; case 7: DO((w, v)); break; default: DO((int)u1 + (int)u2 & 0x7fffffff); }
#endif
#define CFORMS 7
static box bx, bz, *pbox = &bx, *qbox = &bz; static zpl_array(int) *parr = &bx.arr; static zpl_buffer(int) *pbuf = &bx.buf; static int yes;
#define ARR(form, DO) switch (form) { case 0: DO(bx.arr); break; case 1: DO(pbox->arr); break; case 2: DO(*parr); break; case 3: DO(parr[0]); break; case 4: DO((yes ? pbox : qbox)->arr); break; case 5: DO(*(parr + !yes)); break; default: DO((*pbox).arr); }
#define BUF(form, DO) switch (form) { case 0: DO(bx.buf); break; case 1: DO(pbox->buf); break; case 2: DO(*pbuf); break; case 3: DO(pbuf[0]); break; case 4: DO((yes ? pbox : qbox)->buf); break; case 5: DO(*(pbuf + !yes)); break; default: DO((*pbox).buf); }
static void same(int *a, int64_t n, int64_t cap, int cf, int vf) {
    VZ_CHECK(n == MN, "count", "%s in form %d/%d leaves %lld items, expected %d", opn_, cf, vf, (long long)n, MN); VZ_CHECK(cap >= n, "capacity", "%s: %lld of %lld", opn_, (long long)n, (long long)cap);
    VZ_CHECK(!memcmp(a, M, sizeof(int) * (size_t)MN), "items", "%s in form %d/%d changed the wrong items", opn_, cf, vf); vz_stat("macro uses compared", 1);
}
static void mins(int at, const int *it, int k) { memmove(M + at + k, M + at, sizeof(int) * (size_t)(MN - at)); memcpy(M + at, it, sizeof(int) * (size_t)k); MN += k; }

static void t_array(void) {
    vz_track t; int ops = (int)vz_range(5, 60), cf, vf, it[40], j; uint64_t h = 5; zpl_allocator A;
    vz_track_init(&t); A = vz_track_allocator(&t); yes = 1; MN = 0; memset(&bx, 0, sizeof bx); memset(&bz, 0, sizeof bz); cf = (int)vz_u(CFORMS); vf = (int)vz_u(IFORMS); for (j = 0; j < 40; j++) it[j] = (int)vz_r();
    opn_ = "zpl_array_init_reserve"; { int64_t v = vz_range(0, 20); split(v);
        switch (vf) { 
            case 0: zpl_array_init_reserve(bx.arr, A, v); break; case 1: zpl_array_init_reserve(pbox->arr, A, p + q); break; case 2: zpl_array_init_reserve(*parr, A, f ? v : v); break; case 3: zpl_array_init_reserve((yes ? pbox : qbox)->arr, yes ? A : zpl_heap(), u1 | u2); break;
            default: zpl_array_init(*parr, yes ? A : zpl_heap()); v = -1; }
        if (v >= 0) VZ_CHECK(zpl_array_capacity(bx.arr) == v, "capacity", "asked for %lld, got %lld", (long long)v, (long long)zpl_array_capacity(bx.arr)); }
    while (ops--) {
        int op = (int)vz_u(16), x = (int)vz_r(), i = (int)vz_u((uint64_t)MN + 1), ok = 1; int64_t v = 0; cf = (int)vz_u(CFORMS); vf = (int)vz_u(IFORMS); h = h * 31 + (uint64_t)(op * 97 + cf * 11 + vf);
        if (MN > 4000) op = 9;
        switch (op) {
            case 0: opn_ = "zpl_array_append"; v = x; split(v); w = it[0];
#define D(X) ok = zpl_array_append(X, yes ? x : w)
                ARR(cf, D)
#undef D
                M[MN++] = x; break;
            case 1: if (!MN) break; opn_ = "zpl_array_append of its own last item";
#define D(X) ok = zpl_array_append(X, zpl_array_back(X))
                ARR(cf, D)
#undef D
                M[MN] = M[MN - 1]; MN++; break;
            case 2: if (!MN) break; opn_ = "zpl_array_append of its own first item plus its count";
#define D(X) ok = zpl_array_append(X, zpl_array_front(X) ^ (int)zpl_array_count(X))
                ARR(cf, D)
#undef D
                M[MN] = M[0] ^ MN; MN++; break;
            case 3: if (!MN) break; i = (int)vz_u((uint64_t)MN); v = i; split(v); opn_ = "zpl_array_remove_at";
                if (f == 0 && vf == 2) f = 1; if (f && vf == 3) f = 1; if (vf == 3) f = 1;
#define E(I) zpl_array_remove_at(*parr, I)
#define F(I) if (yes) zpl_array_remove_at(pbox->arr, I); else zpl_array_clear(bx.arr)
                if (cf & 1) { IDX(vf, v, E) } else { IDX(vf, v, F) }
#undef E
#undef F
                memmove(M + i, M + i + 1, sizeof(int) * (size_t)(MN - i - 1)); MN--; break;
            case 4: { int b = (int)vz_u((uint64_t)MN + 1), e = b + (int)vz_u((uint64_t)(MN - b) + 1), value = x, begin = b, end = e; opn_ = "zpl_array_fill"; v = e; split(v); f = 1; i = b;
                switch (vz_u(6)) {
                    case 0: zpl_array_fill(*parr, i, end, value); break;
                    case 1: zpl_array_fill(pbox->arr, begin + 0, p + q, x & -1); break;
                    case 2: if (yes) zpl_array_fill((yes ? pbox : qbox)->arr, yes ? i : x, f ? e : b, f ? value : i); else zpl_array_clear(bx.arr); break;
                    case 3: value = i; zpl_array_fill(bx.arr, b, e, i); break;
                    case 4: value = i + 1; zpl_array_fill(parr[0], begin, end, i + 1); break;
                    default: value = (int)(u1 | 1); zpl_array_fill(*(parr + !yes), (x, b), (int)(u1 | u2), (int)(u1 | 1)); }
                for (j = b; j < e; j++) M[j] = value; } break;
            case 5: { int k = (int)vz_u(12); v = k; split(v); f = 1; opn_ = "zpl_array_appendv";
#define E(I) ok = zpl_array_appendv(pbox->arr, it + 3, I)
#define F(I) ok = zpl_array_appendv(*parr, yes ? it + 3 : it, I)
                if (cf & 1) { IDX(vf, v, E) } else { IDX(vf, v, F) }
#undef E
#undef F
                memcpy(M + MN, it + 3, sizeof(int) * (size_t)k); MN += k; } break;
            case 6: { int k = (int)vz_u(12); v = i; split(v); f = 1; opn_ = "zpl_array_appendv_at";
#define E(I) ok = zpl_array_appendv_at(*parr, it + 1, k + 0, I)
                IDX(vf, v, E)
#undef E
                mins(i, it + 1, k); } break;
            case 7: v = i; split(v); f = 1; opn_ = "zpl_array_append_at";
#define E(I) ok = zpl_array_append_at(*parr, yes ? x : i, I)
#define F(I) ok = zpl_array_append_at((yes ? pbox : qbox)->arr, x & -1, I)
                if (cf & 1) { IDX(vf, v, E) } else { IDX(vf, v, F) }
#undef E
#undef F
                mins(i, &x, 1); break;
            case 8: if (!MN) break; opn_ = "zpl_array_pop";
#define D(X) if (yes) zpl_array_pop(X); else zpl_array_clear(X)
                ARR(cf, D)
#undef D
                MN--; break;
            case 9: opn_ = "zpl_array_clear";
#define D(X) if (!yes) zpl_array_pop(X); else zpl_array_clear(X)
                ARR(cf, D)
#undef D
                MN = 0; break;
            case 10: v = vz_range(0, MN + 9); split(v); f = 1; opn_ = "zpl_array_resize";
#define E(I) ok = zpl_array_resize(*parr, I)
                IDX(vf, v, E)
#undef E
                for (j = MN; j < v; j++) bx.arr[j] = M[j] = j; MN = (int)v; break;
            case 11: v = vz_range(0, MN + 30); split(v); f = 1; opn_ = "zpl_array_set_capacity";
#define E(I) ok = zpl_array_set_capacity(*parr, I)
                IDX(vf, v, E)
#undef E
                VZ_CHECK(zpl_array_capacity(bx.arr) == v, "capacity", "asked for %lld, got %lld", (long long)v, (long long)zpl_array_capacity(bx.arr)); if (v < MN) MN = (int)v; break;
            case 12: v = vz_range(0, MN + 30); split(v); f = 1; opn_ = "zpl_array_reserve";
#define E(I) ok = zpl_array_reserve(*parr, I)
                IDX(vf, v, E)
#undef E
                VZ_CHECK(zpl_array_capacity(bx.arr) >= v, "capacity", "asked for %lld, got %lld", (long long)v, (long long)zpl_array_capacity(bx.arr)); break;
            case 13: { zpl_array(int) keep[2] = {0, 0}; opn_ = "zpl_array_copy_init";
#define D(X) ok = zpl_array_copy_init(*(keep + 1), X)
                ARR(cf, D)
#undef D
                same(keep[1], zpl_array_count(keep[1]), zpl_array_capacity(keep[1]), cf, 0); if (yes) zpl_array_free(*(keep + 1)); else zpl_array_free(bx.arr); } break;
            default: if (!MN) break; { int *back = 0, *front = 0, *end = 0; int64_t cnt = -1, cap = -1, es = -1; opn_ = "the last, first and end items";
#define D(X) back = &zpl_array_back(X), front = &zpl_array_front(X), end = zpl_array_end(X), cnt = zpl_array_count(X), cap = zpl_array_capacity(X), es = zpl_array_elem_size(X)
                ARR(cf, D)
#undef D
                VZ_CHECK(back == bx.arr + MN - 1 && front == bx.arr && end == back && cnt == MN && cap >= MN && es == sizeof(int), "ends", "form %d: last item at %td of %d, first at %td, end at %td, count %lld", cf, back - bx.arr, MN, front - bx.arr, end - bx.arr, (long long)cnt);
#define D(X) zpl_array_back(X) += 3, zpl_array_front(X) ^= 5
                ARR(cf, D)
#undef D
                M[MN - 1] = (int)((unsigned)M[MN - 1]); if (MN == 1) M[0] = (M[0] + 3) ^ 5; else { M[MN - 1] += 3; M[0] ^= 5; } }
        }
        VZ_CHECK(ok, "refused", "%s was refused", opn_); same(bx.arr, zpl_array_count(bx.arr), zpl_array_capacity(bx.arr), cf, vf);
    }
#define D(X) if (yes) zpl_array_free(X); else zpl_array_clear(X)
    ARR(cf, D)
#undef D
    VZ_TRACK_DONE(&t); vz_distinct(h);
}

static void t_buffer(void) {
    vz_track t; int ops = (int)vz_range(5, 40), cf, vf, it[40], j, cap = (int)vz_u(40); uint64_t h = 9; zpl_allocator A; vz_track_init(&t); A = vz_track_allocator(&t); yes = 1; MN = 0; memset(&bx, 0, sizeof bx); for (j = 0; j < 40; j++) it[j] = (int)vz_r();
    split(cap); f = 1; cf = (int)vz_u(CFORMS); vf = (int)vz_u(IFORMS); opn_ = "zpl_buffer_init";
    { zpl_buffer(int) nx = 0; int *zero = 0; int64_t v = cap; if (vz_pct(50)) { zpl_buffer_init(nx, yes ? A : zpl_heap(), p + q); VZ_CHECK(nx, "init", "none"); bx.buf = nx; } else { 
#define E(I) zpl_buffer_init(*pbuf, yes ? A : zpl_heap(), I)
        IDX(vf, v, E)
#undef E
      } (void)zero; }
    VZ_CHECK(zpl_buffer_capacity(bx.buf) == cap, "capacity", "asked for %d, got %lld", cap, (long long)zpl_buffer_capacity(bx.buf));
    while (ops--) {
        int op = (int)vz_u(8), x = (int)vz_r(); int64_t v; cf = (int)vz_u(CFORMS); vf = (int)vz_u(IFORMS); h = h * 31 + (uint64_t)(op * 97 + cf * 11 + vf);
        switch (op) {
            case 0: if (MN == cap) break; opn_ = "zpl_buffer_append";
#define D(X) if (yes) zpl_buffer_append(X, yes ? x : cf); else zpl_buffer_clear(X)
                BUF(cf, D)
#undef D
                M[MN++] = x; break;
            case 1: if (MN == cap || !MN) break; opn_ = "zpl_buffer_append of its own last item";
#define D(X) zpl_buffer_append(X, *zpl_buffer_end(X))
                BUF(cf, D)
#undef D
                M[MN] = M[MN - 1]; MN++; break;
            case 2: case 3: v = vz_range(0, cap - MN > 30 ? 30 : cap - MN); split(v); f = 1; opn_ = "zpl_buffer_appendv";
#define E(I) zpl_buffer_appendv(*pbuf, it + 3, I)
#define F(I) if (yes) zpl_buffer_appendv((yes ? pbox : qbox)->buf, yes ? it + 3 : it, I); else zpl_buffer_clear(bx.buf)
                if (cf & 1) { IDX(vf, v, E) } else { IDX(vf, v, F) }
#undef E
#undef F
                memcpy(M + MN, it + 3, sizeof(int) * (size_t)v); MN += (int)v; break;
            case 4: if (!MN) break; opn_ = "zpl_buffer_pop";
#define D(X) if (yes) zpl_buffer_pop(X); else zpl_buffer_clear(X)
                BUF(cf, D)
#undef D
                MN--; break;
            case 5: if (vz_pct(70)) break; opn_ = "zpl_buffer_clear";
#define D(X) if (!yes) zpl_buffer_pop(X); else zpl_buffer_clear(X)
                BUF(cf, D)
#undef D
                MN = 0; break;
            case 6: { zpl_buffer(int) keep[2] = {0, 0}; opn_ = "zpl_buffer_copy_init"; memset(bx.buf + MN, 0, sizeof(int) * (size_t)(cap - MN));
#define D(X) zpl_buffer_copy_init(*(keep + 1), X)
                BUF(cf, D)
#undef D
                same(keep[1], zpl_buffer_count(keep[1]), zpl_buffer_capacity(keep[1]), cf, 0); zpl_buffer_free(*(keep + 1)); } break;
            default: if (!MN) break; { int *end = 0; opn_ = "zpl_buffer_end";
#define D(X) end = zpl_buffer_end(X)
                BUF(cf, D)
#undef D
                VZ_CHECK(end == bx.buf + MN - 1, "ends", "form %d: end at %td of %d", cf, end - bx.buf, MN); }
        }
        same(bx.buf, zpl_buffer_count(bx.buf), zpl_buffer_capacity(bx.buf), cf, vf);
    }
#define D(X) if (yes) zpl_buffer_free(X); else zpl_buffer_clear(X)
    BUF(cf, D)
#undef D
    VZ_TRACK_DONE(&t); vz_distinct(h);
}

/* ------------------------------------------------------------ numbers */
typedef struct { char c; double d; int a[7]; short s; } rec;
static int64_t mn(int64_t a, int64_t b) { return a < b ? a : b; } static int64_t mx(int64_t a, int64_t b) { return a > b ? a : b; }
#define EQ(what, got, want) do { int64_t g_ = (int64_t)(got), w_ = (int64_t)(want); VZ_CHECK(g_ == w_, "number", what " gave %lld instead of %lld", (long long)g_, (long long)w_); vz_stat("macro uses compared", 1); } while (0)
static void t_numbers(void) {
    int64_t a = (int64_t)vz_edge64() >> 20, b = vz_pct(20) ? a : (int64_t)vz_edge64() >> vz_range(20, 62), c = (int64_t)vz_edge64() >> vz_range(20, 60), s, d; int k = (int)vz_u(2), i, tmp; double x = (vz_unit() - 0.5) * 100, y = vz_pct(20) ? x : (vz_unit() - 0.5) * 100, z = vz_pct(30) ? 0 : x; unsigned char ca = (unsigned char)vz_r(), cb = (unsigned char)vz_r(); float fx = (float)z;
    vz_distinct(vz_hash(&a, 8, (uint64_t)b)); s = a; d = b;
    EQ("zpl_min", zpl_min(a, b), mn(a, b)); EQ("zpl_min", zpl_min(a & ~3, b | 1), mn(a & ~3, b | 1)); EQ("zpl_min", zpl_min(k ? a : c, k ? c : b), mn(k ? a : c, k ? c : b)); EQ("zpl_min", 3 * zpl_min(a, b) - 1, 3 * mn(a, b) - 1); EQ("zpl_min", zpl_min(ca, cb), mn(ca, cb)); EQ("zpl_min", -zpl_min(a, b), -mn(a, b)); VZ_CHECK(zpl_min(x, y) == (x < y ? x : y), "number", "zpl_min of reals");
    EQ("zpl_max", zpl_max(a, b), mx(a, b)); EQ("zpl_max", zpl_max(a ^ 5, b + 2), mx(a ^ 5, b + 2)); EQ("zpl_max", zpl_max(k ? a : c, k ? c : b) * 2, mx(k ? a : c, k ? c : b) * 2); EQ("zpl_max", zpl_max(zpl_min(a, b), c), mx(mn(a, b), c)); VZ_CHECK(zpl_max(x, y) == (x > y ? x : y), "number", "zpl_max of reals");
    EQ("zpl_min3", zpl_min3(a, b, c), mn(a, mn(b, c))); EQ("zpl_min3", 1 + zpl_min3(k ? a : b, b & c, c | 7), 1 + mn(k ? a : b, mn(b & c, c | 7))); EQ("zpl_max3", zpl_max3(a, b, c), mx(a, mx(b, c))); EQ("zpl_max3", zpl_max3(a | b, k ? b : c, c & 7) - 1, mx(a | b, mx(k ? b : c, c & 7)) - 1);
    { int64_t lo = mn(b, c), hi = mx(b, c); EQ("zpl_clamp", zpl_clamp(a, lo, hi), mx(lo, mn(a, hi))); EQ("zpl_clamp", 2 * zpl_clamp(k ? a : -a, lo - 1, hi | 0), 2 * mx(lo - 1, mn(k ? a : -a, hi))); EQ("zpl_is_between", zpl_is_between(a, lo, hi), a >= lo && a <= hi); EQ("zpl_is_between", !zpl_is_between(a & 255, lo | 0, hi + 1), !((a & 255) >= lo && (a & 255) <= hi + 1)); EQ("zpl_is_between", zpl_is_between(lo, lo, hi), 1); EQ("zpl_is_between", zpl_is_between(hi, lo, hi), 1); EQ("zpl_is_between_limit", zpl_is_between_limit(hi, lo, hi), 0); EQ("zpl_is_between_limit", zpl_is_between_limit(k ? a : lo, lo, hi), (k ? a : lo) >= lo && (k ? a : lo) < hi); EQ("zpl_clamp01", zpl_clamp01(a), a < 0 ? 0 : a > 1 ? 1 : a); VZ_CHECK(zpl_clamp01(x * 0.1) == (x * 0.1 < 0 ? 0 : x * 0.1 > 1 ? 1 : x * 0.1), "number", "zpl_clamp01 of %g", x * 0.1); }
    { int64_t st = vz_range(1, 99); EQ("zpl_step", zpl_step(a, st), a / st * st); EQ("zpl_step", 5 + zpl_step(a + 3, st | 1), 5 + (a + 3) / (st | 1) * (st | 1)); EQ("zpl_step", zpl_step(k ? a : b, k ? st : 7), (k ? a : b) / (k ? st : 7) * (k ? st : 7)); }
    EQ("zpl_abs", zpl_abs(a), a < 0 ? -a : a); EQ("zpl_abs", zpl_abs(a - b), a - b < 0 ? b - a : a - b); EQ("zpl_abs", -zpl_abs(k ? a : b), (k ? a : b) < 0 ? (k ? a : b) : -(k ? a : b)); VZ_CHECK(zpl_abs(x - y) == fabs(x - y), "number", "zpl_abs of reals");
    { int64_t r = vz_range(-2000000, 2000000), r2 = vz_range(-900, 900); EQ("zpl_square", zpl_square(r + 1), (r + 1) * (r + 1)); EQ("zpl_square", zpl_square(k ? r : r2), k ? r * r : r2 * r2); EQ("zpl_square", 100 - zpl_square(r2), 100 - r2 * r2); EQ("zpl_cube", zpl_cube(r2 - 1), (r2 - 1) * (r2 - 1) * (r2 - 1)); EQ("zpl_cube", -zpl_cube(r2 | 1), -((r2 | 1) * (r2 | 1) * (r2 | 1))); }
    VZ_CHECK(zpl_sign(fx) == (fx >= 0 ? 1 : -1), "number", "zpl_sign(%g)", fx); VZ_CHECK(zpl_sign(k ? x : y) == ((k ? x : y) >= 0 ? 1 : -1), "number", "zpl_sign"); VZ_CHECK(zpl_sign0(fx) == (fx > 0) - (fx < 0), "number", "zpl_sign0(%g)", fx); VZ_CHECK(zpl_sign0(k ? z : y) == ((k ? z : y) > 0) - ((k ? z : y) < 0), "number", "zpl_sign0(%g) in a choice", k ? z : y); EQ("zpl_sign0", zpl_sign0(ca & 1), ca & 1); EQ("zpl_sign0", 2 * zpl_sign0(ca & 1 ? -1 : 0), ca & 1 ? -2 : 0); VZ_CHECK(zpl_sign0(x - x) == 0, "number", "zpl_sign0 of a difference");
    EQ("ZPL_BIT", ZPL_BIT(ca & 15), (int64_t)1 << (ca & 15)); EQ("ZPL_BIT", ZPL_BIT(k ? 3 : 4) | 1, (k ? 8 : 16) | 1); EQ("ZPL_BIT", ~ZPL_BIT(k + 2), ~(k ? 8 : 4));
    { unsigned var = (unsigned)vz_r(), m1 = (unsigned)vz_r(), m2 = (unsigned)vz_r(), *pv = &var, was = var, set = 0; int mask = 3; (void)mask; if (k) ZPL_MASK_SET(*pv, ca & 1, m1 | m2); else ZPL_MASK_SET(var, !(ca & 1), m1 ^ m2); EQ("ZPL_MASK_SET", var, k ? ((ca & 1) ? was | (m1 | m2) : was & ~(m1 | m2)) : (!(ca & 1) ? was | (m1 ^ m2) : was & ~(m1 ^ m2))); was = var; ZPL_MASK_SET(pv[set], k ? set : !set, k ? m1 : m2); EQ("ZPL_MASK_SET", var, k ? was & ~m1 : was | m2); }
    { int64_t kb = vz_range(-1000, 1000); EQ("zpl_kilobytes", zpl_kilobytes(kb + 1), (kb + 1) * 1024); EQ("zpl_megabytes", zpl_megabytes(k ? kb : 2), (k ? kb : 2) * 1048576); EQ("zpl_gigabytes", zpl_gigabytes((int)kb | 1), (kb | 1) * 1073741824); EQ("zpl_terabytes", 1 + zpl_terabytes((int)(kb & 63) + 2), 1 + ((kb & 63) + 2) * 1099511627776); }
    { static rec rs[13]; rec *pr = rs; short two[3][5]; EQ("zpl_count_of", zpl_count_of(rs), 13); EQ("zpl_count_of", 2 * zpl_count_of(pr[k].a), 14); EQ("zpl_count_of", 100 / zpl_count_of(two[k]), 20); EQ("zpl_count_of", zpl_count_of(two), 3); EQ("zpl_size_of", zpl_size_of(rec) * 2, 2 * (int64_t)sizeof(rec)); EQ("zpl_size_of", zpl_size_of(*pr) - zpl_size_of(pr->s), sizeof(rec) - 2); EQ("zpl_offset_of", zpl_offset_of(rec, d) + 1, offsetof(rec, d) + 1); EQ("zpl_offset_of", -zpl_offset_of(rec, s), -(int64_t)offsetof(rec, s)); EQ("zpl_align_of", zpl_align_of(double), __alignof__(double)); EQ("zpl_align_of", zpl_align_of(short) + 1, 3); }
    /* exchanging */
    tmp = (int)a; i = (int)b; if (k) zpl_swap(int, tmp, i); else i = i; EQ("zpl_swap", tmp, k ? (int)b : (int)a); EQ("zpl_swap", i, k ? (int)a : (int)b); { int64_t *ps = &s, *pd = &d, tmpv[2] = {a, b}; zpl_swap(int64_t, *ps, *(pd + 0)); EQ("zpl_swap", s, b); EQ("zpl_swap", d, a); zpl_swap(int64_t, tmpv[k], tmpv[!k]); EQ("zpl_swap", tmpv[0], b); EQ("zpl_swap", tmpv[1], a); { const char *l = "l", *tmp = "t"; zpl_swap(const char *, l, tmp); VZ_CHECK(*l == 't' && *tmp == 'l', "number", "zpl_swap of a variable named tmp"); } }
}

/* ------------------------------------------------------------ memory, order, text */
static int cmpi(const void *x, const void *y) { int m = *(const int *)x, n = *(const int *)y; return (m > n) - (m < n); }
typedef struct { int k; char pad[9]; } wide;
static int cmpw(const void *x, const void *y) { return cmpi(&((const wide *)x)->k, &((const wide *)y)->k); }
#define XJ 4
static int JOINED_4_b = 77, abc = 5, abcd = 6;
static void t_memory(void) {
    enum { N = 64 }; wide a[N], b[N], m[N]; int i, n = (int)vz_u(N - 8), at = (int)vz_u((uint64_t)(N - n) - 2), k = (int)vz_u(2); wide *pa = a; int r[N], key, tmp[N]; uint64_t sum = 0, sum2 = 0;
    for (i = 0; i < N; i++) { memset(a + i, 0, sizeof *a); a[i].k = (int)vz_r() % 50; memset(a[i].pad, i + 1, 9); b[i] = a[N - 1 - i]; } memcpy(b, a, sizeof a); for (i = 0; i < N; i++) b[i].k = i; memcpy(m, a, sizeof a); split(n); f = 1;
    vz_distinct(vz_hash(&n, 4, (uint64_t)at * 3 + (uint64_t)vz_r()));
    switch (vz_u(10)) {
        case 0: opn_ = "zpl_zero_array"; switch (vz_u(5)) { case 0: zpl_zero_array(a + at, n); break; case 1: zpl_zero_array(a + at, p + q); break; case 2: zpl_zero_array(k ? a + at : pa + at, k ? n : n); break; case 3: zpl_zero_array(&pa[at], u1 | u2); break; default: zpl_zero_array(pa + at, (int)u1 + (int)u2); } memset(m + at, 0, sizeof *m * (size_t)n); break;
        case 1: opn_ = "zpl_zero_item"; if (k) zpl_zero_item(a + at); else zpl_zero_item(k ? b : &pa[at]); memset(m + at, 0, sizeof *m); break;
        case 2: opn_ = "zpl_memcopy_array"; switch (vz_u(3)) { case 0: zpl_memcopy_array(a + at, b + 1, p + q); break; case 1: zpl_memcopy_array(k ? pa + at : a + at, k ? b + 1 : &b[1], u1 | u2); break; default: zpl_memcopy_array(&a[at], b + 1, f ? n : 3); } memcpy(m + at, b + 1, sizeof *m * (size_t)n); break;
        case 3: opn_ = "zpl_memmove_array"; switch (vz_u(3)) { case 0: zpl_memmove_array(a + at, a + 1, p + q); break; case 1: zpl_memmove_array(k ? pa + at : a + at, k ? pa + 1 : &a[1], u1 | u2); break; default: zpl_memmove_array(&a[at], a + 1, f ? n : 3); } memmove(m + at, m + 1, sizeof *m * (size_t)n); break;
        case 4: opn_ = "ZPL_BIT_CAST"; { float fl = 1.5f; unsigned bits[3] = {0, 0, 0}, *pb = bits; unsigned char by[8] = {9, 9, 9, 9, 9, 9, 9, 9}; unsigned short sh[4] = {0, 0, 0, 0}; uint64_t big = 0x1122334455667788ull, back = 0; double dd = vz_unit(); if (k) ZPL_BIT_CAST(pb + 1, fl); else ZPL_BIT_CAST(&pb[1], fl); VZ_CHECK(bits[1] == 0x3fc00000 && !bits[0] && !bits[2], "items", "ZPL_BIT_CAST of a float gave %x %x %x", bits[0], bits[1], bits[2]); ZPL_BIT_CAST(by + k, big); VZ_CHECK(by[k] == 0x88 && by[k + 1] == 9, "items", "ZPL_BIT_CAST into a byte changed %02x %02x", by[k], by[k + 1]); ZPL_BIT_CAST(sh + 1 + k, big); VZ_CHECK(sh[1 + k] == 0x7788 && !sh[2 + k] && !sh[k], "items", "ZPL_BIT_CAST into two bytes gave %04x %04x", sh[1 + k], sh[2 + k]); ZPL_BIT_CAST(&back, dd); VZ_CHECK(!memcmp(&back, &dd, 8), "items", "ZPL_BIT_CAST of a double"); } break;
        case 5: opn_ = "zpl_sort_array"; if (k) zpl_sort_array(pa + at, p + q, cmpw); else zpl_sort_array(k ? b : &a[at], u1 | u2, cmpw); qsort(m + at, (size_t)n, sizeof *m, cmpw); for (i = 0; i < N; i++) { VZ_CHECK(a[i].k == m[i].k, "items", "zpl_sort_array: item %d is %d instead of %d", i, a[i].k, m[i].k); m[i] = a[i]; } break;
        case 6: opn_ = "zpl_reverse_array"; if (k) zpl_reverse_array(pa + at, p + q); else zpl_reverse_array(k ? b : &a[at], f ? n : 2); for (i = 0; i < n / 2; i++) { wide t = m[at + i]; m[at + i] = m[at + n - 1 - i]; m[at + n - 1 - i] = t; } break;
        case 7: opn_ = "zpl_shuffle_array"; if (n < 1) break; if (k) zpl_shuffle_array(pa + at, p + q); else zpl_shuffle_array(k ? b : &a[at], f ? n : 2); for (i = at; i < at + n; i++) sum += vz_hash(&a[i], sizeof *a, 1), sum2 += vz_hash(&m[i], sizeof *m, 1); VZ_CHECK(sum == sum2, "items", "zpl_shuffle_array lost or doubled items"); memcpy(m + at, a + at, sizeof *m * (size_t)n); break;
        case 8: opn_ = "zpl_binary_search_array"; for (i = 0; i < N; i++) r[i] = i * 3 - 20; key = (int)vz_u(40) * 3 - 20; { int64_t g = zpl_binary_search_array(k ? r + at : &r[at], p + q, k ? &key : &key + 0, cmpi), want = (key + 20) / 3 - at; if (want < 0 || want >= n) want = -1; VZ_CHECK(g == want, "items", "zpl_binary_search_array found %d at %lld instead of %lld", key, (long long)g, (long long)want); } break;
        default: opn_ = "allocation"; { vz_track t; wide *one, *some; char *raw; vz_track_init(&t); { zpl_allocator A = vz_track_allocator(&t); one = zpl_alloc_item(k ? A : A, wide); some = zpl_alloc_array(k ? A : A, wide, p + q); raw = (char *)zpl_alloc_array(A, char, f ? n + 1 : 0); VZ_CHECK(one && some && raw, "alloc", "none"); memset(one, 1, sizeof *one); memset(some, 2, sizeof *some * (size_t)n); memset(raw, 3, (size_t)n + 1); zpl_free(A, one); zpl_free(A, some); zpl_free(A, raw); } VZ_TRACK_DONE(&t);
            { char *c = (char *)zpl_malloc(k ? n + 1 : p + q + 1); memset(c, 1, (size_t)n + 1); if (k) zpl_mfree(c); else zpl_mfree(k ? 0 : c); } }
    }
    (void)tmp; VZ_CHECK(!memcmp(a, m, sizeof a), "items", "%s of %d items at %d touched the wrong memory", opn_, n, at); vz_stat("macro uses compared", 1);
    { char t[40], *cur = t, **pc = &cur; int len = (int)vz_range(1, 20), stop = (int)vz_u((uint64_t)len); memset(t, 'a', sizeof t); t[len] = 0; t[stop] = ';'; cur = t - (stop > 0 ? 0 : 0);
      if (stop > 0) { zpl_str_advance_while(*pc, **pc && **pc != ';') VZ_CHECK(cur == t + stop, "text", "zpl_str_advance_while went to %td instead of %d", cur - t, stop); }
      { char d[60]; zpl_str_concat(d, sizeof d, zpl_str_expand(k ? "left" : t), zpl_str_expand(t + stop)); VZ_CHECK(strlen(d) == (k ? 4 : strlen(t)) + strlen(t + stop), "text", "zpl_str_expand joined to '%s'", d); }
      VZ_CHECK(ZPL_JOIN3(JOINED_, XJ, _b) == 77 && ZPL_JOIN2(ab, c) == 5 && ZPL_JOIN4(a, b, c, d) == 6, "text", "ZPL_JOIN"); VZ_CHECK(!strcmp(ZPL_MULTILINE(a "b", c + 1), "a \"b\", c + 1"), "text", "ZPL_MULTILINE gave '%s'", ZPL_MULTILINE(a "b", c + 1)); }
}

#ifndef CXX
/* ------------------------------------------------------------ values by their type */
static void t_generic(void) {
    zpl_adt_node root = {0}, *n; float fl = (float)((vz_unit() - 0.5) * 1000); double db = (vz_unit() - 0.5) * 1e6; int in = (int)vz_r(), k = (int)vz_u(2); int64_t bg = (int64_t)vz_edge64(); short sh = (short)vz_r(); unsigned char ch = (unsigned char)vz_r(); char txt[20] = "some text"; const char *ct = "const text"; zpl_b32 bo = (int)vz_u(2); int set = (int)vz_u(2), how = (int)vz_u(11);
    zpl_adt_make_branch(&root, zpl_heap(), "root", ZPL_ADT_TYPE_OBJECT); vz_distinct(vz_hash(&db, 8, (uint64_t)(how * 2 + set)));
#define PUT(v) do { if (set) { zpl_adt_append_int(&root, "x", 0); zpl_adt_set(root.nodes, "v", v); n = root.nodes; } else n = zpl_adt_append(&root, "v", v); } while (0)
#define REALV(v) VZ_CHECK(n && n->type == ZPL_ADT_TYPE_REAL && n->real == (double)(v) && !strcmp(n->name, "v"), "generic", "a real value %g was stored as type %d, integer %lld, real %g", (double)(v), n->type, (long long)n->integer, n->real)
#define INTV(v) VZ_CHECK(n && n->type == ZPL_ADT_TYPE_INTEGER && n->integer == (int64_t)(v) && !strcmp(n->name, "v"), "generic", "an integer %lld was stored as type %d, integer %lld", (long long)(v), n->type, (long long)n->integer)
#define STRV(v) VZ_CHECK(n && n->type == ZPL_ADT_TYPE_STRING && n->string == (v) && !strcmp(n->name, "v"), "generic", "a text was stored as type %d", n->type)
    switch (how) {
        case 0: PUT(fl); REALV(fl); break; case 1: PUT(db); REALV(db); break; case 2: PUT(k ? fl : 1.5f); REALV(k ? fl : 1.5f); break; case 3: PUT(in); INTV(in); break; case 4: PUT(bg); INTV(bg); break; case 5: PUT(sh); INTV(sh); break; case 6: PUT(ch); INTV(ch); break;
        case 7: PUT(txt); STRV(txt); break; case 8: PUT(ct); STRV(ct); break; case 9: PUT(bo); INTV(bo); break; default: PUT(fl * 2 + in % 5); REALV(fl * 2 + in % 5);
    }
    vz_stat("values stored by type", 1); zpl_adt_destroy_branch(&root);
}
VZ_MAIN({"arrays", t_array, 4}, {"buffers", t_buffer, 3}, {"numbers", t_numbers, 3}, {"memory", t_memory, 4}, {"values", t_generic, 1})
#else
VZ_MAIN({"arrays", t_array, 4}, {"buffers", t_buffer, 3}, {"numbers", t_numbers, 3}, {"memory", t_memory, 4})
#endif
