/* C50: one seeded workload, compiled in many configurations; prints what each part of the library
   answered.  C50_HAVE says which parts the configuration must offer; C50_CONSUMER leaves the
   implementation to another translation unit.  Valid both as C and as C++. */
#ifndef C50_CONSUMER
#define ZPL_IMPLEMENTATION
#endif
#include "zpl.h"
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <stdarg.h>
#include <unistd.h>
/* c52.c runs the workload in several threads at once: state per thread, output collected, no main */
#ifndef W_TLS
#define W_TLS
#define W_EMIT(f, va) do { printf("%d %s.%d ", I, SEC, K++); vprintf(f, va); putchar('\n'); } while (0)
#define W_TMP(b, n) sprintf(b, "c50-%d.tmp", n)
#endif
#define CORE 1
#define HASHING 2
#define OPTS 4
#define MATH 8
#define PARSER 16
#define THREADING 32
#define JOBS 64
#define ANALYSIS 128
#define EXACT 256
#define REGEX 512
#ifndef C50_HAVE
#define C50_HAVE (CORE|HASHING|OPTS|MATH|PARSER|THREADING|JOBS|ANALYSIS|EXACT|REGEX)
#endif
#define HAVE(x) (C50_HAVE & (x))
typedef unsigned long long u64t;
static W_TLS u64t S; static u64t rn(void) { u64t z = (S += 0x9e3779b97f4a7c15ull); z = (z ^ (z >> 30)) * 0xbf58476d1ce4e5b9ull; z = (z ^ (z >> 27)) * 0x94d049bb133111ebull; return z ^ (z >> 31); }
static unsigned ru(unsigned n) { return (unsigned)(rn() % n); }
static long long edge(void) { long long v; switch (ru(6)) { case 0: return (long long)ru(20) - 10; case 1: return (long long)ru(200000) - 100000; case 2: v = (long long)(1ull << ru(63)); return v - (long long)ru(3); case 3: v = -(long long)(1ull << ru(63)); return v + (long long)ru(3); default: v = (long long)rn(); return v >> ru(60); } }
/* the order in which arguments are evaluated is not fixed: at most one draw per argument list or expression, the rest drawn first */
static W_TLS unsigned q0, q1, q2, q3; static W_TLS long long g0, g1;
static void draw(void) { q0 = (unsigned)rn(); q1 = (unsigned)rn(); q2 = (unsigned)rn(); q3 = (unsigned)rn(); g0 = edge(); g1 = edge(); }
#define Q(i, n) ((int)(q##i % (n)))
static W_TLS int I; static W_TLS const char *SEC; static W_TLS int K;
static void sec(const char *s) { SEC = s; K = 0; S = (S & ~0ull) ^ 0x1234567; S = rn(); }
static void out(const char *f, ...) { va_list va; va_start(va, f); W_EMIT(f, va); va_end(va); }
static u64t fnv(const void *p, size_t n) { const unsigned char *b = (const unsigned char *)p; u64t h = 0xcbf29ce484222325ull; while (n--) { h ^= *b++; h *= 0x100000001b3ull; } return h; }
static void hex(const char *what, const void *p, long n) { char t[90]; long i; for (i = 0; i < n && i < 40; i++) sprintf(t + 2 * i, "%02x", ((const unsigned char *)p)[i]); t[2 * i] = 0; out("%s n=%ld h=%016llx %s", what, n, n > 0 ? fnv(p, (size_t)n) : 0, t); }
static void fl(const char *what, const float *p, int n) { char t[400]; int i, k = 0; for (i = 0; i < n; i++) { unsigned u; memcpy(&u, p + i, 4); if (p[i] != p[i]) k += sprintf(t + k, " nan"); else k += sprintf(t + k, " %08x", u); } out("%s%s", what, t); }
static void db(const char *what, double d) { u64t u; memcpy(&u, &d, 8); if (d != d) out("%s nan", what); else out("%s %016llx", what, u); }

/* ---- essentials ---- */
ZPL_TABLE(static, w_tbl, w_tbl_, zpl_i64);
ZPL_RING_DECLARE(extern, w_ring_, zpl_u32)
ZPL_RING_DEFINE(w_ring_, zpl_u32)
static W_TLS u64t mapsum; static void mp(zpl_u64 k, zpl_i64 v) { mapsum = mapsum * 31 + k * 7 + (u64t)v; }
typedef struct { char a; zpl_i64 b; char c; } w_odd;
static void essentials(void) {
    int i, n = 1 + (int)ru(200); unsigned char a[300], b[300];
    sec("mem");
    for (i = 0; i < 300; i++) a[i] = (unsigned char)(ru(4) ? rn() : 200 + ru(3));
    memcpy(b, a, 300); zpl_memswap(a, b + 20, n < 150 ? n : 150); hex("swap", a, 300); zpl_memset(a + 3, 0xab, n); zpl_memcopy(a, b, n); zpl_memmove(a + 5, a, n); hex("move", a, 300);
    out("cmp %d %d", zpl_memcompare(a, b, 300), zpl_memcompare(b, a, n)); { const void *p = zpl_memchr(b, 201, 300), *q = zpl_memrchr(b, 201, 300); out("chr %ld %ld", p ? (long)((const unsigned char *)p - b) : -1L, q ? (long)((const unsigned char *)q - b) : -1L); }
    zpl_zero_size(a + 2, n); hex("zero", a, 300); draw(); out("align %d %lld %llu %ld", (int)zpl_is_power_of_two(n), (long long)zpl_align_forward_i64(n * 7, 1 << Q(0, 6)), (u64t)zpl_align_forward_u64((zpl_u64)n * 5, 1ull << Q(1, 6)), (long)zpl_pointer_diff(a, zpl_pointer_add(a, n)));
    sec("alloc");
    { static W_TLS char pool[8192] __attribute__((aligned(64))); zpl_arena ar; zpl_stack_memory st; zpl_scratch_memory sc; char *p; int k;
      zpl_arena_init_from_memory(&ar, pool, 4096); for (k = 0; k < 20; k++) { int sz = 1 + (int)ru(200), al = 1 << ru(7); p = (char *)zpl_alloc_align(zpl_arena_allocator(&ar), sz, al); out("arena %d/%d at %ld used %ld left %ld", sz, al, p ? (long)(p - pool) : -1L, (long)ar.total_allocated, (long)zpl_arena_size_remaining(&ar, 8)); }
      zpl_stack_memory_init_from_memory(&st, pool, 8192); { void *ps[12]; for (k = 0; k < 12; k++) { int sz = 1 + (int)ru(100); ps[k] = zpl_alloc(zpl_stack_allocator(&st), sz); out("stack %d at %ld used %ld", sz, (long)((char *)ps[k] - pool), (long)st.allocated); } for (k = 11; k >= (int)ru(12); k--) zpl_free(zpl_stack_allocator(&st), ps[k]); out("stack used %ld", (long)st.allocated); }
      zpl_scratch_memory_init(&sc, pool, 2048); for (k = 0; k < 25; k++) { int sz = 1 + (int)ru(300); p = (char *)zpl_alloc(zpl_scratch_allocator(&sc), sz); out("scratch %d at %ld", sz, p ? (long)(p - pool) : -1L); if (p && ru(2)) zpl_free(zpl_scratch_allocator(&sc), p); } }
    { zpl_pool pl; int k; void *ps[16]; zpl_pool_init(&pl, zpl_heap_allocator(), 16, 24); for (k = 0; k < 16; k++) ps[k] = zpl_alloc(zpl_pool_allocator(&pl), 24); for (k = 0; k < 8; k++) zpl_free(zpl_pool_allocator(&pl), ps[k * 2]); for (k = 0; k < 8; k++) { void *q = zpl_alloc(zpl_pool_allocator(&pl), 24); out("pool %ld of %ld", (long)((char *)q - (char *)ps[0]) / (long)((char *)ps[1] - (char *)ps[0]), (long)pl.total_size / 16 > 0 ? 1L : 0L); } zpl_pool_free(&pl); }
    { char *s = zpl_alloc_str(zpl_heap_allocator(), "some text"); out("str %s", s); s = (char *)zpl_resize(zpl_heap_allocator(), s, 10, 400); out("resized %s", s); zpl_free(zpl_heap_allocator(), s); { int z[4] = { 1, 2, 3, 4 }; int *y = (int *)zpl_alloc_copy(zpl_heap_allocator(), z, sizeof z); out("copy %d %d", y[0], y[3]); zpl_free(zpl_heap_allocator(), y); } }
    sec("array");
    { zpl_array(zpl_i32) x; zpl_array(w_odd) y; zpl_i32 vs[9]; zpl_array_init(x, zpl_heap_allocator()); zpl_array_init_reserve(y, zpl_heap_allocator(), 3);
      for (i = 0; i < n; i++) { switch (ru(9)) { case 0: case 1: case 2: zpl_array_append(x, (zpl_i32)rn()); break; case 3: { int at = (int)ru((unsigned)zpl_array_count(x) + 1); zpl_i32 v = (zpl_i32)rn(); zpl_array_append_at(x, v, at); break; } case 4: { int k; for (k = 0; k < 9; k++) vs[k] = (zpl_i32)rn(); zpl_array_appendv(x, vs, 1 + (int)ru(9)); break; } case 5: { int k, at = (int)ru((unsigned)zpl_array_count(x) + 1); for (k = 0; k < 9; k++) vs[k] = (zpl_i32)rn(); zpl_array_appendv_at(x, vs, 1 + (int)ru(9), at); break; }
          case 6: if (zpl_array_count(x)) zpl_array_pop(x); break; case 7: if (zpl_array_count(x)) { int at = (int)ru((unsigned)zpl_array_count(x)); zpl_array_remove_at(x, at); } break; default: { w_odd o; memset(&o, 0, sizeof o); o.a = (char)ru(9); o.b = edge(); zpl_array_append(y, o); } } }
      out("array %ld/%ld odd %ld/%ld elem %ld", (long)zpl_array_count(x), (long)zpl_array_capacity(x), (long)zpl_array_count(y), (long)zpl_array_capacity(y), (long)zpl_array_elem_size(y)); if (zpl_array_count(x)) hex("items", x, (long)zpl_array_count(x) * 4);
      { int k = (int)zpl_array_count(x), at = (int)ru((unsigned)k + 1); if (k) { zpl_array_fill(x, 0, at, 77); hex("filled", x, k * 4L); } zpl_array_resize(x, k + 10); zpl_array_set_capacity(x, k + 3); out("shrunk %ld/%ld", (long)zpl_array_count(x), (long)zpl_array_capacity(x)); }
      { u64t h = 0; for (i = 0; i < zpl_array_count(y); i++) h = h * 33 + (u64t)y[i].b; out("odd sum %llu", h); } zpl_array_free(x); zpl_array_free(y); }
    { zpl_buffer(zpl_u16) bf = NULL; zpl_u16 vs[4] = { 9, 8, 7, 65535 }; zpl_buffer_init(bf, zpl_heap_allocator(), 300); for (i = 0; i < n; i++) zpl_buffer_append(bf, (zpl_u16)rn()); zpl_buffer_appendv(bf, vs, 4); zpl_buffer_pop(bf); out("buffer %ld/%ld", (long)zpl_buffer_count(bf), (long)zpl_buffer_capacity(bf)); hex("buffer", bf, (long)zpl_buffer_count(bf) * 2); zpl_buffer_free(bf); }
    sec("ring");
    { w_ring_zpl_u32 r; w_ring_init(&r, zpl_heap_allocator(), 1 + ru(12)); for (i = 0; i < n; i++) { if (ru(5) < 3) { zpl_u32 v = (zpl_u32)rn(); w_ring_append(&r, v); } else { zpl_u32 *p = w_ring_get(&r); out("get %u full %d empty %d", p ? *p : 0, (int)w_ring_full(&r), (int)w_ring_empty(&r)); } } { zpl_u32 *g = w_ring_get_array(&r, 5, zpl_heap_allocator()); out("left %ld", (long)zpl_array_count(g)); zpl_array_free(g); } w_ring_free(&r); }
    sec("list");
    { zpl_list h, it[10]; zpl_list *c; u64t s = 0; zpl_list_init(&h, "h"); for (i = 0; i < 10; i++) { zpl_list_init(it + i, "0123456789" + i); zpl_list_add(i ? it + ru((unsigned)i) : &h, it + i); } for (i = 0; i < 3; i++) if (it[i * 3 + 1].prev) zpl_list_remove(it + i * 3 + 1); for (c = h.next; c; c = c->next) s = s * 11 + (u64t)*(const char *)c->ptr; out("order %llu", s); }
    sec("table");
    { w_tbl t; w_tbl_init(&t, zpl_heap_allocator()); for (i = 0; i < n * 2; i++) { zpl_u64 k = ru(3) ? ru(60) : (zpl_u64)edge(); if (ru(4)) w_tbl_set(&t, k, edge()); else w_tbl_remove(&t, k); } { u64t f = 0; for (i = 0; i < 60; i++) { zpl_i64 *v = w_tbl_get(&t, (zpl_u64)i); f = f * 131 + (v ? (u64t)*v : 12345); } out("found %llu of %ld", f, (long)zpl_array_count(t.entries)); } mapsum = 0; w_tbl_map(&t, mp); out("map %llu", mapsum); w_tbl_rehash(&t, 500); mapsum = 0; w_tbl_map(&t, mp); out("rehashed %llu", mapsum); w_tbl_destroy(&t); }
    sec("types"); out("%d %d %d %d %d %d %d", (int)sizeof(zpl_allocator), (int)sizeof(zpl_arena), (int)sizeof(zpl_pool), (int)sizeof(zpl_list), (int)sizeof(zpl_stack_memory), (int)sizeof(zpl_b32), (int)sizeof(zpl_rune));
    out("consts %lld %llu %d %u %g %d", (long long)ZPL_I64_MIN, (u64t)ZPL_U64_MAX, (int)ZPL_I8_MIN, (unsigned)ZPL_U32_MAX, (double)ZPL_F32_MAX, 1);
}

#if HAVE(CORE)
static W_TLS char txt[600];
static char *text(int n, int kind) { int i; for (i = 0; i < n; i++) txt[i] = (char)(kind == 0 ? 32 + ru(95) : kind == 1 ? 1 + ru(255) : kind == 2 ? "ab ,\t\n01\"\\"[ru(10)] : 'a' + (int)ru(26)); txt[n] = 0; return txt; }
static void core(void) {
    int i, n = (int)ru(200); char b[1200], c[1200], *e;
    sec("chars"); { char t[2600]; int k = 0; for (i = 0; i < 256; i++) { char ch = (char)i; k += sprintf(t + k, "%d%d%d%d%d%d", !!zpl_char_is_space(ch), !!zpl_char_is_digit(ch), !!zpl_char_is_hex_digit(ch), !!zpl_char_is_alpha(ch), !!zpl_char_is_alphanumeric(ch), !!zpl_char_is_control(ch)); b[i] = zpl_char_to_upper(ch); c[i] = zpl_char_to_lower(ch); } out("classes %016llx", fnv(t, (size_t)k)); hex("upper", b, 256); hex("lower", c, 256); }
    sec("cstr"); { char *t = text(n, (int)ru(3)), u[700]; strcpy(b, t); draw(); strcpy(c, text(Q(0, 200), Q(1, 3)));
      { int x = zpl_strcmp(b, c), y = zpl_strncmp(b, c, 5); out("cmp %d %d len %ld %ld", (x > 0) - (x < 0), (y > 0) - (y < 0), (long)zpl_strlen(b), (long)zpl_strnlen(b, 7)); } out("lcpy %ld", (long)zpl_strlcpy(u, b, 1 + (long)ru(300))); hex("lcpy", u, (long)strlen(u)); { const char *p = zpl_char_first_occurence(b, c[0]), *q = zpl_char_last_occurence(b, c[0]); out("occ %ld %ld", p ? (long)(p - b) : -1L, q ? (long)(q - b) : -1L); }
      out("skips %ld %ld %ld %ld", (long)(zpl_str_trim(b, 0) - b), (long)(zpl_str_skip(b, ',') - b), (long)(zpl_str_skip_any(b, "\t0\"") - b), (long)(zpl_str_control_skip(b, '"') - b)); out("fix %d %d", (int)zpl_str_has_prefix(b, "a"), (int)zpl_str_has_suffix(b, "a")); strcpy(u, b); zpl_str_to_upper(u); hex("up", u, n); zpl_str_to_lower(u); hex("low", u, n); zpl_strrev(u); hex("rev", u, n);
      { const char *p = b; for (i = 0; i < 6 && *p; i++) { u[0] = 0; p = zpl_strtok(u, p, ",\n "); hex("tok", u, (long)strlen(u)); if (!p) break; } }
      { char *d = zpl_strdup(zpl_heap_allocator(), b, 50); hex("dup", d, (long)strlen(d)); zpl_free(zpl_heap_allocator(), d); } strcpy(u, b); { char **l = zpl_str_split_lines(zpl_heap_allocator(), u, (int)ru(2)); out("lines %ld", (long)zpl_array_count(l)); for (i = 0; i < zpl_array_count(l); i++) hex("line", l[i], (long)strlen(l[i])); zpl_array_free(l); } }
    sec("num"); for (i = 0; i < 12; i++) { static const int BS[] = { 2, 8, 10, 16, 3, 7 }; int base = BS[ru(6)]; long long v = edge(); zpl_i64_to_str(v, b, base); out("i64 %s", b); zpl_u64_to_str((zpl_u64)v, c, base); out("u64 %s", c); out("back %lld %llu", (long long)zpl_str_to_i64(b, &e, base), (u64t)zpl_str_to_u64(c, NULL, base));
        draw(); sprintf(b, "%.*g", 1 + Q(0, 17), (double)g0 / (double)(1 + Q(1, 99999))); db("f64", zpl_str_to_f64(b, &e)); out("end %ld", (long)(e - b)); { char *t = text((int)ru(12), 2); { long long jv = (long long)zpl_str_to_i64(t, &e, 0); out("junk %lld %ld", jv, (long)(e - t)); } } }
    sec("utf8"); { unsigned char raw[80]; zpl_u16 w[100]; zpl_rune r; int k = 0; for (i = 0; i < 12; i++) { zpl_rune q = (zpl_rune)(ru(3) ? ru(3) ? ru(0x80) + 1 : ru(0xd7ff) + 1 : 0x10000 + ru(0xfffff)); long l = (long)zpl_utf8_encode_rune(raw + k, q); out("enc %ld", l); k += (int)l; } raw[k] = 0; hex("utf8", raw, k); for (i = 0; i < k;) { long l = (long)zpl_utf8_decode(raw + i, k - i, &r); out("dec %ld %ld", l, (long)r); i += l > 0 ? (int)l : 1; } { zpl_u16 *p = zpl_utf8_to_ucs2(w, 100, raw); if (p) { int m = 0; while (p[m]) m++; hex("ucs2", p, m * 2L); { zpl_u8 *q = zpl_ucs2_to_utf8((zpl_u8 *)b, 300, p); hex("again", q, q ? (long)strlen((char *)q) : 0); } } else out("refused"); }
      for (i = 0; i < 8; i++) raw[i] = (unsigned char)rn(); raw[8] = 0; for (i = 0; i < 8; i++) { long l = (long)zpl_utf8_decode(raw + i, 8 - i, &r); out("wild %ld %ld", l, (long)r); } }
    sec("print"); for (i = 0; i < 10; i++) { static const char *const F[] = { "%d|%5d|%-5d|%05d|", "%x|%X|%o|%#x|%8x|", "%u|%hd|%hhd|%c|%3c|" }; int k = (int)ru(3); long r; int v = (int)edge(), v2 = (int)ru(900), v3 = (int)edge(); draw(); r = (long)zpl_snprintf(b, 1 + Q(0, 200), F[k], v, v2, v3, 33 + Q(1, 90), 40 + Q(2, 50)); out("%ld %s", r, b);
        r = (long)zpl_snprintf(b, 300, "%lld %llx %.3s|%10s|%-10s|%%", g0, (u64t)g1, "abcdef", "right", "left"); out("%ld %s", r, b); { double d = (double)edge() / 1024.0; if (d > 1e15 || d < -1e15) d /= 1e9; r = (long)zpl_snprintf(b, 300, "%f %.2f %8.1f %.0f %g", d, d, d, d, (double)(int)(d / 1e9)); out("%ld %s", r, b); } }
    { char *p = NULL; long r = (long)zpl_asprintf(zpl_heap_allocator(), &p, "<%s:%d>", "x", n); out("as %ld %s", r, p); zpl_free(zpl_heap_allocator(), p); out("b %s", zpl_bprintf("%d-%s", n, "y")); }
    sec("string"); { zpl_string s = zpl_string_make(zpl_heap_allocator(), text(n, 0)), t; for (i = 0; i < 12; i++) { switch (ru(7)) { case 0: s = zpl_string_appendc(s, text((int)ru(40), 1)); break; case 1: s = zpl_string_append_fmt(s, "[%d]", (int)ru(1000)); break; case 2: s = zpl_string_append_rune(s, (zpl_rune)(1 + ru(0xd000))); break; case 3: s = zpl_string_trim(s, "ab "); break; case 4: t = zpl_string_duplicate(zpl_heap_allocator(), s); out("eq %d", (int)zpl_string_are_equal(s, t)); s = zpl_string_append(s, t); zpl_string_free(t); break; case 5: s = zpl_string_set(s, text((int)ru(90), 2)); break; default: s = zpl_string_trim_space(s); } if (zpl_string_length(s) > 4000) zpl_string_clear(s); }
      out("len %ld cap %ld", (long)zpl_string_length(s), (long)zpl_string_capacity(s)); hex("str", s, (long)zpl_string_length(s)); zpl_string_free(s); { const char *ps[3] = { "one", "", "three" }; s = zpl_string_join(zpl_heap_allocator(), ps, 3, "--"); out("join %s", s); zpl_string_free(s); } }
    sec("sort"); { zpl_i32 v[120]; zpl_f32 f[120]; zpl_u32 u[120], tmp[120]; int m = 1 + (int)ru(120); for (i = 0; i < m; i++) { draw(); v[i] = (zpl_i32)(q0 % (Q(1, 2) ? 20u : 1u << 31)) - 10; f[i] = (float)v[i] / 3.0f; u[i] = (zpl_u32)rn(); } zpl_sort(v, m, 4, zpl_i32_cmp(0)); hex("i32", v, m * 4L); zpl_sort(f, m, 4, zpl_f32_cmp(0)); hex("f32", f, m * 4L); zpl_radix_sort_u32(u, tmp, m); hex("radix", u, m * 4L); zpl_reverse(u, m, 4); hex("rev", u, m * 4L); { zpl_i32 key = v[ru((unsigned)m)]; long at = (long)zpl_binary_search(v, m, 4, &key, zpl_i32_cmp(0)); out("found %d", at >= 0 && v[at] == key); }
      { const char *ss[6] = { "pear", "apple", "\xe9" "a", "fig", "", "apples" }; zpl_sort((void *)ss, 6, sizeof *ss, zpl_str_cmp(0)); for (i = 0; i < 6; i++) hex("word", ss[i], (long)strlen(ss[i])); } { zpl_u8 q[60], tq[60]; for (i = 0; i < 60; i++) q[i] = (zpl_u8)rn(); zpl_radix_sort_u8(q, tq, 60); hex("u8", q, 60); zpl_sort(q, 60, 1, zpl_u8_cmp(0)); hex("u8s", q, 60); } }
    sec("random"); { zpl_random r; memset(&r, 0, sizeof r); for (i = 0; i < 8; i++) r.offsets[i] = (zpl_u32)rn(); r.value = (zpl_u32)rn(); for (i = 0; i < 6; i++) { out("u32 %u", zpl_random_gen_u32(&r)); out("u64 %llu", (u64t)zpl_random_gen_u64(&r)); out("range %lld", (long long)zpl_random_range_i64(&r, -1000, 5000)); out("range %ld", (long)zpl_random_range_isize(&r, 3, 9)); db("f64", zpl_random_range_f64(&r, -2, 7)); } }
    sec("misc"); { zpl_u64 v = (zpl_u64)edge(); out("bits %ld %x %x %llx", (long)zpl_count_set_bits(v), (unsigned)zpl_endian_swap16((zpl_u16)v), zpl_endian_swap32((zpl_u32)v), (u64t)zpl_endian_swap64(v)); out("time %llu %llu", (u64t)zpl_time_win32_to_unix(v >> 3), (u64t)zpl_time_unix_to_win32(v >> 5)); }
    sec("path"); { static const char *const P[] = { "/", "", "a", "/a/b.c", "a/b/", "x.tar.gz", ".hidden", "/a.b/c", "../x", "c:/d.e" }; for (i = 0; i < 10; i++) { const char *x = zpl_path_extension(P[i]); strcpy(b, P[i]); zpl_path_fix_slashes(b); out("%s: %d%d%d base %s ext %s fix %s", P[i], (int)zpl_path_is_absolute(P[i]), (int)zpl_path_is_relative(P[i]), (int)zpl_path_is_root(P[i]), zpl_path_base_name(P[i]), x ? x : "-", b); } }
    sec("file"); { zpl_file f; zpl_isize got = -1; int m = (int)ru(900); unsigned char *d = (unsigned char *)malloc(1000); for (i = 0; i < 1000; i++) d[i] = (unsigned char)rn(); W_TMP(b, (int)ru(1000)); out("open %d", (int)zpl_file_create(&f, b)); out("write %d", (int)zpl_file_write(&f, d, m)); out("at %d", (int)zpl_file_write_at(&f, "XYZ", 3, ru((unsigned)m + 1))); out("size %ld tell %ld", (long)zpl_file_size(&f), (long)zpl_file_tell(&f)); zpl_file_seek(&f, 0); memset(d, 0, 1000); { int okr = (int)zpl_file_read_at_check(&f, d, 1000, 0, &got); out("read %d %ld", okr, (long)got); } hex("data", d, got > 0 ? (long)got : 0); out("close %d", (int)zpl_file_close(&f));
      { zpl_file_contents fc = zpl_file_read_contents(zpl_heap_allocator(), 1, b); out("contents %ld", (long)fc.size); hex("contents", fc.data, (long)fc.size); zpl_file_free_contents(&fc); } out("exists %d", (int)zpl_fs_exists(b)); out("remove %d", (int)zpl_fs_remove(b)); out("gone %d", (int)zpl_fs_exists(b)); out("open %d", (int)zpl_file_open(&f, b)); free(d);
      { zpl_isize sz; zpl_u8 *bb; memset(&f, 0, sizeof f); zpl_file_stream_new(&f, zpl_heap_allocator()); zpl_fprintf(&f, "%s-%d", "stream", n); zpl_file_seek(&f, 2); zpl_file_write(&f, "RR", 2); bb = zpl_file_stream_buf(&f, &sz); hex("stream", bb, (long)sz); zpl_file_close(&f); } }
}
#endif
#if HAVE(HASHING)
static void hashing(void) { unsigned char d[400]; int i, n = 1 + (int)ru(399); zpl_u8 *p, *q; sec("hash"); for (i = 0; i < 400; i++) d[i] = (unsigned char)rn();
    out("%x %x %llx %x %llx %x %llx %x", zpl_adler32(d, n), zpl_crc32(d, n), (u64t)zpl_crc64(d, n), zpl_fnv32(d, n), (u64t)zpl_fnv64(d, n), zpl_fnv32a(d, n), (u64t)zpl_fnv64a(d, n), zpl_murmur32(d, n)); out("m64 %llx %x", (u64t)zpl_murmur64_seed(d, n & ~7, 99), zpl_murmur32_seed(d + 1, n / 2, 7)); p = zpl_base64_encode(zpl_heap_allocator(), d, n); out("b64 %s", (char *)p); q = zpl_base64_decode(zpl_heap_allocator(), p, (long)strlen((char *)p)); hex("raw", q, n); zpl_free(zpl_heap_allocator(), p); zpl_free(zpl_heap_allocator(), q); }
#endif
#if HAVE(OPTS)
static void opts(void) { zpl_opts o; char arg[16][40], *av[17]; int i, n = 1 + (int)ru(9), r; sec("opts"); zpl_opts_init(&o, zpl_heap_allocator(), "app"); zpl_opts_add(&o, "f", "foo", "a string", ZPL_OPTS_STRING); zpl_opts_add(&o, "n", "num", "a number", ZPL_OPTS_INT); zpl_opts_add(&o, "r", "real", "a real", ZPL_OPTS_FLOAT); zpl_opts_add(&o, "v", "verbose", "a flag", ZPL_OPTS_FLAG); zpl_opts_positional_add(&o, "foo"); if (ru(2)) zpl_opts_positional_add(&o, "num");
    strcpy(arg[0], "app"); av[0] = arg[0]; for (i = 1; i < n; i++) { static const char *const A[] = { "--foo=bar", "--num=42", "-n=7", "--real=2.5", "-v", "--verbose", "plain", "--num", "12", "-f", "--bogus", "-r", "0x1f", "--foo=", "--num=abc" }; strcpy(arg[i], A[ru(15)]); av[i] = arg[i]; } av[n] = NULL; r = (int)zpl_opts_compile(&o, n, av); out("ok %d", r); { zpl_string s = zpl_opts_string(&o, "foo", "none"); out("foo %s num %lld has %d%d%d%d pos %d errors %ld", s ? s : "(null)", (long long)zpl_opts_integer(&o, "num", -1), (int)zpl_opts_has_arg(&o, "foo"), (int)zpl_opts_has_arg(&o, "num"), (int)zpl_opts_has_arg(&o, "real"), (int)zpl_opts_has_arg(&o, "verbose"), (int)zpl_opts_positionals_filled(&o), (long)zpl_array_count(o.errors)); } db("real", zpl_opts_real(&o, "real", -1)); zpl_opts_free(&o); }
#endif
#if HAVE(MATH)
static float rf(void) { return (float)((double)(long long)(rn() >> 11) / 4503599627370496.0 * 20 - 20); }
static zpl_vec3 rv3(void) { zpl_vec3 v; v.x = rf(); v.y = rf(); v.z = rf(); return v; }
static void math(void) { float a = rf(), b = rf(), t = (float)ru(1000) / 999.0f, r[16]; int i; sec("scalar");
    r[0] = zpl_to_radians(a); r[1] = zpl_to_degrees(b); r[2] = zpl_angle_diff(a, b); r[3] = zpl_copy_sign(a, b); r[4] = zpl_remainder(a, b); r[5] = zpl_mod(a, b); r[6] = zpl_round(a); r[7] = zpl_floor(b); r[8] = zpl_ceil(a); r[9] = zpl_sqrt(a * a); r[10] = zpl_quake_rsqrt(b * b + 1); r[11] = zpl_lerp(a, b, t); r[12] = zpl_unlerp(t, a, b); r[13] = zpl_smooth_step(a, b, t); r[14] = zpl_smoother_step(a, b, t); r[15] = zpl_fast_exp(t); fl("s", r, 16);
    { double x = (double)edge() / 4096.0, y = (double)(1 + ru(500)) / 16; db("f", zpl_floor64(x)); db("c", zpl_ceil64(x)); db("r", zpl_round64(x)); db("m", zpl_mod64(x, y)); db("e", zpl_remainder64(x, y)); db("s", zpl_sign64(x)); db("a", zpl_abs64(x)); db("cs", zpl_copy_sign64(x, -y)); }
    out("half %x", (unsigned)zpl_float_to_half(a)); r[0] = zpl_half_to_float((zpl_half)rn()); fl("half", r, 1);
    sec("libm"); r[0] = zpl_sin(a); r[1] = zpl_cos(a); r[2] = zpl_tan(a); r[3] = zpl_arcsin(t); r[4] = zpl_arccos(t); r[5] = zpl_arctan(a); r[6] = zpl_arctan2(a, b); r[7] = zpl_exp(a); r[8] = zpl_log(a * a + 1); r[9] = zpl_pow(a * a, t); r[10] = zpl_hypot(a, b); r[11] = zpl_exp2(a); r[12] = zpl_log2(a * a + 1); r[13] = zpl_rsqrt(a * a + 1); r[14] = zpl_fast_exp2(t); fl("m", r, 15);
    sec("vec"); { zpl_vec3 u = rv3(), v = rv3(), d; zpl_vec2 p, q, o; zpl_vec4 w, z, y; p.x = rf(); p.y = rf(); q.x = rf(); q.y = rf(); w = zpl_vec4f(a, b, t, 1); z = zpl_vec4f(b, 2, a, t); zpl_vec3_add(&d, u, v); fl("add", d.e, 3); zpl_vec3_sub(&d, u, v); fl("sub", d.e, 3); zpl_vec3_mul(&d, u, a); fl("mul", d.e, 3); zpl_vec3_cross(&d, u, v); fl("cross", d.e, 3); zpl_vec3_norm(&d, u); fl("norm", d.e, 3); zpl_vec3_reflect(&d, u, v); fl("refl", d.e, 3); zpl_vec3_lerp(&d, u, v, t); fl("lerp", d.e, 3); zpl_vec3_cslerp(&d, u, v, v, u, t); fl("cs", d.e, 3); r[0] = zpl_vec3_dot(u, v); r[1] = zpl_vec3_mag(u); r[2] = zpl_vec3_mag2(v); r[3] = zpl_vec2_dot(p, q); r[4] = zpl_vec4_dot(w, z); r[5] = zpl_vec2_side(p, q, p); r[6] = zpl_vec3_max(u); fl("dots", r, 7); zpl_vec2_addeq(&p, q); zpl_vec2_norm0(&o, p); fl("v2", o.e, 2); zpl_vec4_addeq(&w, z); zpl_vec4_muleq(&w, b); zpl_vec4_norm(&y, w); fl("v4", y.e, 4); zpl_vec3_subeq(&u, v); zpl_vec3_diveq(&u, 3); fl("eq", u.e, 3); }
    sec("mat"); { zpl_mat4 m, n, o; zpl_mat3 k, l; zpl_mat2 c2, d2; zpl_vec3 v1 = rv3(), v2 = rv3(); zpl_vec4 w = zpl_vec4f(a, b, t, 1), x; zpl_mat4_perspective(&m, 1.1f, 1.5f, 0.1f, 100); zpl_mat4_look_at(&n, v1, v2, zpl_vec3f(0, 1, 0)); zpl_mat4_mul(&o, &m, &n); fl("pv", o.e, 16); zpl_mat4_inverse(&m, &n); fl("inv", m.e, 16); zpl_mat4_mul_vec4(&x, &o, w); fl("mv", x.e, 4); zpl_mat4_transpose(&o); fl("tr", o.e, 16); zpl_mat4_rotate(&o, rv3(), a); zpl_mat4_translate(&o, rv3()); zpl_mat4_scale(&o, rv3()); fl("srt", o.e, 16); zpl_mat4_ortho3d(&o, a, a + 2, b, b + 3, 0.5f, 90); fl("or", o.e, 16); zpl_mat4_ortho2d_dx(&o, a, a + 2, b, b + 3); fl("dx", o.e, 16); for (i = 0; i < 9; i++) k.e[i] = rf(); zpl_mat3_inverse(&l, &k); fl("m3", l.e, 9); r[0] = zpl_mat3_determinate(&k); for (i = 0; i < 4; i++) c2.e[i] = rf(); zpl_mat2_inverse(&d2, &c2); fl("m2", d2.e, 4); r[1] = zpl_mat2_determinate(&c2); fl("det", r, 2); }
    sec("quat"); { zpl_quat q = zpl_quat_axis_angle(rv3(), a), p = zpl_quat_euler_angles(a, b, t), d; zpl_vec3 v; zpl_mat4 m; zpl_quat_mul(&d, q, p); fl("mul", d.e, 4); zpl_quat_div(&d, q, p); fl("div", d.e, 4); zpl_quat_slerp(&d, q, p, t); fl("slerp", d.e, 4); zpl_quat_nlerp(&d, q, p, t); fl("nlerp", d.e, 4); zpl_quat_inverse(&d, q); fl("inv", d.e, 4); zpl_quat_rotate_vec3(&v, p, rv3()); fl("rot", v.e, 3); zpl_mat4_from_quat(&m, p); fl("m", m.e, 16); zpl_quat_from_mat4(&d, &m); fl("q", d.e, 4); r[0] = zpl_quat_pitch(p); r[1] = zpl_quat_yaw(p); r[2] = zpl_quat_roll(p); r[3] = zpl_quat_angle(p); fl("ang", r, 4); zpl_quat_squad(&d, q, p, p, q, t); fl("squad", d.e, 4); }
    sec("geom"); { float f0 = rf(), f1 = rf(), f2 = rf(), f3 = rf(); zpl_rect2 x = zpl_rect2f(zpl_vec2f(f0, f1), zpl_vec2f(9, 7)), y = zpl_rect2f(zpl_vec2f(f2, f3), zpl_vec2f(5, 8)), z; zpl_aabb2 bb = zpl_aabb2f(a, b, a + 10, b + 10), k; int hit; memset(&z, 0, sizeof z); hit = zpl_rect2_intersection_result(x, y, &z); out("hit %d %d", zpl_rect2_intersects(x, y), hit); fl("inter", (float *)&z, 4); k = zpl_aabb2_cut_left(&bb, 3); fl("cut", (float *)&k, 4); fl("rest", (float *)&bb, 4); out("in %d", zpl_aabb2_contains(bb, a + 4, b + 4)); }
}
#endif
#if HAVE(PARSER)
static void dump(zpl_adt_node *n, int depth) { int i; u64t u; memcpy(&u, &n->real, 8); if (depth > 40) return; switch (n->type) { case ZPL_ADT_TYPE_OBJECT: case ZPL_ADT_TYPE_ARRAY: out("%d %d %s [%ld]", depth, n->type, n->name ? n->name : "-", n->nodes ? (long)zpl_array_count(n->nodes) : -1L); for (i = 0; i < (n->nodes ? zpl_array_count(n->nodes) : 0); i++) dump(n->nodes + i, depth + 1); break; case ZPL_ADT_TYPE_STRING: case ZPL_ADT_TYPE_MULTISTRING: hex(n->name ? n->name : "-", n->string, (long)strlen(n->string)); break; case ZPL_ADT_TYPE_INTEGER: out("%s int %lld", n->name ? n->name : "-", (long long)n->integer); break; default: out("%s t%d p%d %016llx", n->name ? n->name : "-", n->type, n->props, u); } }
static W_TLS char jb[9000]; static W_TLS int jlen;
static void js(const char *s) { jlen += sprintf(jb + jlen, "%s", s); }
static void jgen(int d, int relaxed) { int i, n; static const char *const SP[] = { "", " ", "\n", "\t ", "/* c */", "// l\n" }; if (jlen > 7000) { js("1"); return; } js(SP[ru(relaxed ? 6 : 4)]); switch (d > 5 ? 2 + ru(6) : ru(8)) { case 0: js("{"); n = (int)ru(5); for (i = 0; i < n; i++) { if (i) js(","); if (relaxed && ru(2)) jlen += sprintf(jb + jlen, "key%d", (int)ru(90)); else jlen += sprintf(jb + jlen, "\"k\\\" %d\"", (int)ru(90)); js(relaxed && ru(2) ? "=" : ":"); jgen(d + 1, relaxed); } js("}"); break; case 1: js("["); n = (int)ru(6); for (i = 0; i < n; i++) { if (i) js(","); jgen(d + 1, relaxed); } js("]"); break; case 2: jlen += sprintf(jb + jlen, "%lld", edge()); break; case 3: draw(); jlen += sprintf(jb + jlen, "%.*f", 1 + Q(0, 6), (double)(int)g0 / 64.0); break; case 4: jlen += sprintf(jb + jlen, "%s", ru(2) ? "true" : ru(2) ? "false" : "null"); break; case 5: draw(); jlen += sprintf(jb + jlen, "%de%d", 1 + Q(0, 99), Q(1, 9)); break; default: jlen += sprintf(jb + jlen, "\"t%d \\n \\u00e9 \xc3\xa9 \\\\\"", (int)ru(99)); } js(SP[ru(4)]); }
static void parser(void) { zpl_adt_node root; int e, relaxed = (int)ru(2), broken = !ru(5), i, k; zpl_string s; sec("json"); jlen = 0; k = (int)ru(2); js(k ? "[" : "{"); for (i = 0; i < 4; i++) { if (i) js(","); if (!k) jlen += sprintf(jb + jlen, "\"m%d\":", i); jgen(1, relaxed); } js(k ? "]" : "}"); if (broken) { draw(); jb[q0 % (unsigned)jlen] = "{}[]\":,x"[Q(1, 8)]; }
    memset(&root, 0, sizeof root); e = zpl_json_parse(&root, jb, zpl_heap_allocator()); out("error %d", e); if (!e) { dump(&root, 0);
        { zpl_adt_node *q = zpl_adt_query(&root, k ? "1" : "m1"); out("query %d", q ? q->type : -1); q = zpl_adt_query(&root, k ? "2/0" : "m2/0"); out("query %d", q ? q->type : -1); q = zpl_adt_find(&root, "key1", 1); out("find %ld", q ? (long)q->type : -1L); }
#if HAVE(ANALYSIS)
        s = zpl_json_write_string(zpl_heap_allocator(), &root, 0); out("text %016llx %ld", fnv(s, strlen(s)), (long)strlen(s)); zpl_string_free(s); s = zpl_json_write_string(zpl_heap_allocator(), &root, ZPL_JSON_INDENT_STYLE_COMPACT); out("compact %016llx %ld", fnv(s, strlen(s)), (long)strlen(s)); zpl_string_free(s);
#endif
    }
    zpl_json_free(&root);
    sec("built"); { zpl_adt_node o, *c, *g; zpl_adt_set_obj(&o, 0, zpl_heap_allocator()); for (i = 0; i < 6; i++) { static W_TLS char nm[6][8]; sprintf(nm[i], "n%d", i); switch (ru(4)) { case 0: c = zpl_adt_append_arr(&o, nm[i]); zpl_adt_append_int(c, 0, edge()); zpl_adt_append_flt(c, 0, (double)(int)ru(999) / 8); break; case 1: zpl_adt_append_str(&o, nm[i], "a \"q\" b"); break; case 2: zpl_adt_append_flt(&o, nm[i], (double)(int)edge() / 16 + 0.5); break; default: c = zpl_adt_append_obj(&o, nm[i]); g = zpl_adt_append_int(c, "g", (int)ru(50)); if (ru(2)) zpl_adt_move_node(g, &o); } } dump(&o, 0); s = zpl_json_write_string(zpl_heap_allocator(), &o, 4); hex("text", s, (long)strlen(s)); { zpl_adt_node r2; char *cp = zpl_alloc_str(zpl_heap_allocator(), s); out("again %d", zpl_json_parse(&r2, cp, zpl_heap_allocator())); dump(&r2, 0); zpl_json_free(&r2); zpl_free(zpl_heap_allocator(), cp); } zpl_string_free(s); zpl_adt_destroy_branch(&o); }
    sec("csv"); jlen = 0; k = 1 + (int)ru(4); { int j, rows = 2 + (int)ru(5), hdr = (int)ru(2); for (j = 0; j < rows; j++) { for (i = 0; i < k; i++) { if (i) js(","); switch (ru(5)) { case 0: jlen += sprintf(jb + jlen, "%d", (int)edge()); break; case 1: jlen += sprintf(jb + jlen, "\"q,%d \"\" x\"", (int)ru(99)); break; case 2: jlen += sprintf(jb + jlen, "%.2f", (double)(int)ru(9999) / 4); break; default: jlen += sprintf(jb + jlen, "w%d", (int)ru(99)); } } js("\n"); } e = zpl_csv_parse(&root, jb, zpl_heap_allocator(), hdr); out("error %d", e); if (!e) { dump(&root, 0); s = zpl_csv_write_string(zpl_heap_allocator(), &root); if (HAVE(ANALYSIS)) hex("text", s, (long)strlen(s)); zpl_string_free(s); } zpl_csv_free(&root); }
    sec("uri"); jlen = 0; js(ru(2) ? "http://h/p?" : "?"); k = 1 + (int)ru(5); for (i = 0; i < k; i++) { if (i) js("&"); draw(); jlen += sprintf(jb + jlen, Q(0, 4) ? "f%d=%s%d" : "f%d", Q(1, 9), Q(2, 2) ? "" : "a%20b+", Q(3, 999)); } e = zpl_uri_parse(&root, jb, zpl_heap_allocator()); out("error %d", e); if (!e) { dump(&root, 0); s = zpl_uri_write_string(zpl_heap_allocator(), &root); hex("text", s, (long)strlen(s)); zpl_string_free(s); } zpl_uri_free(&root);
    sec("number"); for (i = 0; i < 10; i++) { char b[80]; zpl_adt_node n; memset(&n, 0, sizeof n); draw(); switch (ru(4)) { case 0: sprintf(b, "%lld", edge()); break; case 1: sprintf(b, "0x%llx", (u64t)edge() >> 1); break; case 2: sprintf(b, "%.*g", 1 + Q(0, 17), (double)g0 / (1 + Q(1, 9999))); break; default: sprintf(b, "%d.%dx", Q(0, 99), Q(1, 999)); } { char *q = zpl_adt_parse_number(&n, b); out("%s at %ld type %d %s %016llx", b, q ? (long)(q - b) : -1L, n.type, n.type ? "v" : "-", n.type ? (u64t)n.integer : 0); } n.type = ZPL_ADT_TYPE_STRING; n.string = b; e = zpl_adt_str_to_number(&n); out("conv %d type %d", e, n.type); }
}
#endif
#if HAVE(THREADING)
static zpl_atomic32 ga; static zpl_atomic64 gb; static zpl_mutex gm; static long gc_; static zpl_isize thr(struct zpl_thread *t) { int i; (void)t; for (i = 0; i < 50; i++) { zpl_atomic32_fetch_add(&ga, 3); zpl_atomic64_fetch_add(&gb, 5); zpl_mutex_lock(&gm); gc_++; zpl_mutex_unlock(&gm); } return 7; }
static void threads(void) { zpl_thread t[3]; int i; zpl_semaphore sm; sec("atomic"); { zpl_i32 v = (zpl_i32)edge(), w = (zpl_i32)edge(); zpl_i64 x = edge(), y = edge(); zpl_atomic32_store(&ga, v); out("x %d", zpl_atomic32_exchange(&ga, w)); out("cas %d", zpl_atomic32_compare_exchange(&ga, w, v)); out("and %d", zpl_atomic32_fetch_and(&ga, w)); out("or %d", zpl_atomic32_fetch_or(&ga, v)); out("now %d", zpl_atomic32_load(&ga)); zpl_atomic64_store(&gb, x); out("x %lld", (long long)zpl_atomic64_exchange(&gb, y)); out("cas %lld", (long long)zpl_atomic64_compare_exchange(&gb, y, x)); out("and %lld", (long long)zpl_atomic64_fetch_and(&gb, y)); out("or %lld", (long long)zpl_atomic64_fetch_or(&gb, y)); out("now %lld", (long long)zpl_atomic64_load(&gb)); }
    sec("thread"); if (I % 8) { out("skipped"); return; } zpl_atomic32_store(&ga, 0); zpl_atomic64_store(&gb, 0); gc_ = 0; zpl_mutex_init(&gm); for (i = 0; i < 3; i++) { zpl_thread_init(t + i); zpl_thread_start(t + i, thr, NULL); } for (i = 0; i < 3; i++) { zpl_thread_join(t + i); out("ret %ld", (long)t[i].return_value); zpl_thread_destroy(t + i); } out("sums %d %lld %ld", zpl_atomic32_load(&ga), (long long)zpl_atomic64_load(&gb), gc_); zpl_mutex_destroy(&gm); zpl_semaphore_init(&sm); zpl_semaphore_post(&sm, 3); for (i = 0; i < 3; i++) zpl_semaphore_wait(&sm); out("sem %d", (int)zpl_semaphore_trywait(&sm)); zpl_semaphore_destroy(&sm); }
#endif
#if HAVE(JOBS)
static zpl_atomic32 gj; static void job(void *d) { zpl_atomic32_fetch_add(&gj, *(int *)d); }
static void jobs(void) { zpl_jobs_system p; static int vs[40]; int i, want = 0; sec("jobs"); if (I % 8 != 1) { out("skipped"); return; } zpl_atomic32_store(&gj, 0); zpl_jobs_init_with_limit(&p, zpl_heap_allocator(), 3, 64); for (i = 0; i < 40; i++) { vs[i] = (int)ru(100); want += vs[i]; zpl_jobs_enqueue_with_priority(&p, job, vs + i, (zpl_jobs_priority)ru(5)); } while (!zpl_jobs_done(&p)) zpl_jobs_process(&p); out("sum %d", zpl_atomic32_load(&gj) - want); zpl_jobs_free(&p); }
#endif
#if HAVE(REGEX)
static void regex(void) { static const char *const PT[] = { "a+b", "^[0-9]+$", "(foo|bar)(baz)?", "[^,]*,", "\\d\\d?\\s", "(a*)(b|c)+x", ".+@.+", "x?y*?z", "[a-c", "(a", "*", "\\x41|\\t", "" }; int i, k; zpl_re re; zpl_re_capture c[8]; zpl_isize off;
    sec("regex"); for (i = 0; i < 8; i++) { const char *pt = PT[ru(13)]; int e = (int)zpl_re_compile(&re, zpl_heap_allocator(), pt, (zpl_isize)strlen(pt)); out("compile %s %d", pt, e); if (e) continue; { zpl_isize n = zpl_re_capture_count(&re); out("groups %ld", (long)n);
        for (k = 0; k < 5; k++) { char t[40]; int l = (int)ru(30), j, m; for (j = 0; j < l; j++) t[j] = "aabbcxyzfoo bar1290,\t@A"[ru(23)]; off = -1; memset(c, 0, sizeof c); m = zpl_re_match(&re, t, l, c, 8, &off); if (!m) { out("no"); continue; } out("yes %ld", (long)off); for (j = 0; j < n && j < 8; j++) out("%d %ld+%ld", j, c[j].str ? (long)(c[j].str - t) : -1L, (long)c[j].len); } } zpl_re_destroy(&re); } }
#endif
static void w_round(u64t seed) {
#define GO(f, id) S = seed * 0x9e3779b97f4a7c15ull + (u64t)I * 1000003 + id; rn(); f();
        GO(essentials, 1)
#if HAVE(CORE)
        GO(core, 2)
#endif
#if HAVE(HASHING)
        GO(hashing, 3)
#endif
#if HAVE(OPTS)
        GO(opts, 4)
#endif
#if HAVE(MATH)
        GO(math, 5)
#endif
#if HAVE(PARSER)
        GO(parser, 6)
#endif
#if HAVE(THREADING)
        GO(threads, 7)
#endif
#if HAVE(JOBS)
        GO(jobs, 8)
#endif
#if HAVE(REGEX)
        GO(regex, 9)
#endif
}
#ifndef W_NOMAIN
int main(int ac, char **av) {
    u64t seed; int lo, hi; if (ac < 4) return 2; alarm(45); seed = strtoull(av[1], 0, 10); lo = atoi(av[2]); hi = atoi(av[3]);
    for (I = lo; I < hi; I++) w_round(seed);
    printf("end\n"); return fflush(stdout);
}
#endif
