/* C07 hash table against an association list, with colliding and random keys */
#include "vz.h"
typedef struct { uint64_t id; uint32_t w[3]; } val;
ZPL_TABLE(static, tab, tab_, val)
#define MAXK 300
static struct { uint64_t k, v; } M[MAXK]; static int mn;
static struct { uint64_t k, v; } seen[MAXK + 4]; static int sn;
static int mfind(uint64_t k) { int i; for (i = 0; i < mn; i++) if (M[i].k == k) return i; return -1; }
static val mk(uint64_t id) { val v; v.id = id; v.w[0] = (uint32_t)id * 3; v.w[1] = (uint32_t)id ^ 77; v.w[2] = 5; return v; }
static void onmap(zpl_u64 k, val v) { if (sn < MAXK + 4) { seen[sn].k = k; seen[sn++].v = v.id; } }
static uint64_t bump;
static void onmut(zpl_u64 k, val *v) { (void)k; *v = mk(v->id + bump); }
static void t_table(void) {
    vz_track t; tab h; int ops = 20 + (int)vz_u(300), k, mode = (int)vz_u(5), kr = 4 + (int)vz_u(120); uint64_t id = 1, hs = (uint64_t)mode, mod;
    vz_track_init(&t); tab_init(&h, vz_track_allocator(&t)); mn = 0; mod = vz_u(2) ? 8 + vz_u(2) * 16 : 1 + vz_u(60);
    for (k = 0; k < ops; k++) {
        uint64_t key = mode == 0 ? vz_u((uint64_t)kr) : mode == 1 ? mod * vz_u((uint64_t)kr) : mode == 2 ? ~0ull - vz_u((uint64_t)kr) : mode == 3 ? vz_hash("x", 1, vz_u((uint64_t)kr)) : (uint64_t)1 << vz_u(64); int o = (int)vz_u(100), i = mfind(key);
        hs = hs * 31 + (uint64_t)o / 10 + key * 7;
        if (o < 50 && (i >= 0 || mn < MAXK)) { tab_set(&h, key, mk(id)); if (i >= 0) M[i].v = id; else { M[mn].k = key; M[mn++].v = id; } id++; }
        else if (o < 70) { tab_remove(&h, key); if (i >= 0) { M[i] = M[--mn]; vz_stat("removals", 1); } }
        else if (o < 76) { zpl_isize s = tab_slot(&h, key); VZ_CHECK((s >= 0) == (i >= 0), "slot", "slot of key %llx is %ld", (long long)key, (long)s); if (s >= 0) { VZ_CHECK(h.entries[s].key == key, "slot", "slot holds another key"); tab_remove_entry(&h, s); M[i] = M[--mn]; vz_stat("entry removals", 1); } }
        else if (o < 80) { tab_grow(&h); vz_stat("grows", 1); } else if (o < 84) { tab_rehash(&h, (zpl_isize)(1 + vz_u(200))); vz_stat("rehashes", 1); } else if (o < 86) tab_rehash_fast(&h);
        else if (o == 86 && vz_pct(30)) { tab_clear(&h); mn = 0; }
        else if (o == 87) { bump = vz_u(3) * 1000; tab_map_mut(&h, onmut); for (i = 0; i < mn; i++) M[i].v += bump; id += bump; }
        { val *p = tab_get(&h, key); i = mfind(key); VZ_CHECK((p != 0) == (i >= 0), "lookup-presence", "key %llx: %s, expected %s (op %d, %d live)", (long long)key, p ? "found" : "absent", i >= 0 ? "present" : "absent", o, mn); if (p) VZ_CHECK(p->id == M[i].v && p->w[0] == (uint32_t)p->id * 3 && p->w[1] == ((uint32_t)p->id ^ 77), "lookup-value", "key %llx: value %llu want %llu", (long long)key, (long long)p->id, (long long)M[i].v); }
        if (k % 7 == 0 || k == ops - 1) { /* everything at once */
            for (i = 0; i < mn; i++) { val *p = tab_get(&h, M[i].k); VZ_CHECK(p, "lost-key", "key %llx lost (op %d)", (long long)M[i].k, o); VZ_CHECK(p->id == M[i].v, "lookup-value", "key %llx: value %llu want %llu", (long long)M[i].k, (long long)p->id, (long long)M[i].v); }
            sn = 0; tab_map(&h, onmap); VZ_CHECK(sn == mn, "iteration-count", "%d entries visited, %d live", sn, mn);
            { int j, a; for (j = 0; j < sn; j++) { a = mfind(seen[j].k); VZ_CHECK(a >= 0 && M[a].v == seen[j].v, "iteration", "visited key %llx", (long long)seen[j].k); for (a = 0; a < j; a++) VZ_CHECK(seen[a].k != seen[j].k, "iteration-twice", "key %llx twice", (long long)seen[j].k); } }
            { int j; for (j = 0; j < 8; j++) { uint64_t x = vz_r(); if (mfind(x) < 0) VZ_CHECK(!tab_get(&h, x), "phantom", "key %llx found", (long long)x); } }
            vz_stat("full comparisons", 1);
        }
    }
    vz_distinct(hs); vz_sample("%d ops in key mode %d, %d keys live at end", ops, mode, mn);
    tab_destroy(&h); VZ_TRACK_DONE(&t);
}
/* many entries: more than sixteen bits can count */
static uint64_t lsum, lcnt; static void onlarge(zpl_u64 k, val v) { lcnt++; lsum += k * 3 + v.id; }
static void t_large(void) {
    vz_track t; tab h; size_t n = vz_near2(9, 17), i, q, live = 0; uint64_t base = vz_pct(50) ? 0 : vz_r(), st = vz_pct(50) ? 1 : vz_r() | 1, s = 0; uint32_t *m = calloc(n, sizeof *m); uint32_t id = 1;
    vz_track_init(&t); tab_init(&h, vz_track_allocator(&t)); if (vz_pct(20)) tab_rehash(&h, (zpl_isize)n);
    for (i = 0; i < n; i++) { tab_set(&h, base + i * st, mk(id)); m[i] = id++; }
    for (q = 0; q < 2000; q++) { i = vz_u(n); switch (vz_u(60)) { case 0: tab_remove(&h, base + i * st); m[i] = 0; break; case 1: case 2: case 3: case 4: case 5: tab_set(&h, base + i * st, mk(id)); m[i] = id++; break; default: { val *p = tab_get(&h, base + i * st); VZ_CHECK(!p == !m[i] && (!p || p->id == m[i]), "large-lookup", "key %zu of %zu: %s", i, n, p ? "found" : "absent"); } } }
    if (vz_pct(30)) tab_rehash(&h, (zpl_isize)vz_near2(9, 17)); else if (vz_pct(30)) tab_rehash_fast(&h); else if (vz_pct(30)) tab_grow(&h);
    for (i = 0; i < n; i++) { val *p = tab_get(&h, base + i * st); VZ_CHECK(!p == !m[i] && (!p || (p->id == m[i] && p->w[0] == m[i] * 3)), "large-lookup", "key %zu of %zu: %s", i, n, p ? "found" : "absent"); if (m[i]) { live++; s += (base + i * st) * 3 + m[i]; } }
    lsum = lcnt = 0; tab_map(&h, onlarge); VZ_CHECK(lcnt == live && lsum == s, "large-iteration", "%llu entries visited, %zu live", (unsigned long long)lcnt, live);
    VZ_CHECK(!tab_get(&h, base + n * st), "phantom", "a key that was never set is found"); vz_stat("large tables", 1); vz_stat("entries of large tables", n); vz_distinct(vz_hash(&base, 8, n)); vz_sample("%zu entries, %zu live in the end", n, live);
    tab_destroy(&h); VZ_TRACK_DONE(&t); free(m);
}
VZ_MAIN({"table", t_table, 250}, {"large", t_large, 1})
