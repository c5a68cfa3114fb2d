/* virtual memory regions: live regions carry a pattern per page; mincore() tells which pages are mapped */
#include "vz.h"
typedef struct { zpl_virtual_memory v; uint32_t *tag; size_t pages; } reg;
static reg R[24]; static int N; static size_t PS;
static int mapped(void *p) { unsigned char c; return mincore(p, PS, &c) == 0; }
static size_t npages(size_t n) { return (n + PS - 1) / PS; }
static unsigned char *pg(reg *r, size_t k) { return (unsigned char *)r->v.data + k * PS; }
static void stamp(reg *r, size_t k) { uint32_t t = (uint32_t)vz_r() | 1; size_t i; unsigned char *p = pg(r, k); size_t n = k + 1 == r->pages && (size_t)r->v.size % PS ? (size_t)r->v.size % PS : PS; r->tag[k] = t; for (i = 0; i + 4 <= n; i += 64) { uint32_t w = t + (uint32_t)i; memcpy(p + i, &w, 4); } p[n - 1] = (unsigned char)t; }
static int intact(reg *r, size_t k) { size_t i; unsigned char *p = pg(r, k); size_t n = k + 1 == r->pages && (size_t)r->v.size % PS ? (size_t)r->v.size % PS : PS; if (!r->tag[k]) { for (i = 0; i < n; i += 61) if (p[i]) return 0; return 1; } for (i = 0; i + 4 <= n; i += 64) { uint32_t w = r->tag[k] + (uint32_t)i, g; memcpy(&g, p + i, 4); if (g != w && !(i + 4 > n - 1)) return 0; } return p[n - 1] == (unsigned char)r->tag[k]; }
static void all(const char *op) { int i; size_t k; for (i = 0; i < N; i++) for (k = 0; k < R[i].pages; k++) { VZ_CHECK(mapped(pg(&R[i], k)), "lost", "after %s page %zu of %zu of a live region is not mapped", op, k, R[i].pages); VZ_CHECK(intact(&R[i], k), "contents", "after %s page %zu of %zu of a live region changed", op, k, R[i].pages); } }
static void rel(int i) { free(R[i].tag); R[i] = R[--N]; }
static void t_hist(void) {
    int ops = (int)vz_range(4, 50), k; char d[4000]; size_t dl = 0; void *last = 0; zpl_isize al = 0; PS = (size_t)sysconf(_SC_PAGESIZE); N = 0;
    VZ_CHECK((size_t)zpl_virtual_memory_page_size(&al) == PS && (size_t)al >= PS && (size_t)al % PS == 0, "page_size", "%lld", (long long)zpl_virtual_memory_page_size(0));
    for (k = 0; k < ops; k++) { uint64_t c = vz_u(10); const char *op = "?"; int i = N ? (int)vz_u((uint64_t)N) : 0; size_t j;
        if ((c < 4 && N < 20) || !N) { reg *r = &R[N]; size_t n = vz_pct(60) ? PS * (1 + vz_u(12)) : 1 + vz_u(PS * 6); int x; op = "alloc"; r->v = zpl_vm_alloc(vz_pct(15) ? last : 0, (zpl_isize)n);
            VZ_CHECK(r->v.data, "alloc", "%zu bytes refused", n); VZ_CHECK((uintptr_t)r->v.data % PS == 0, "alignment", "%p", r->v.data); VZ_CHECK((size_t)r->v.size >= n, "size", "%zd for %zu", (ssize_t)r->v.size, n);
            r->pages = npages((size_t)r->v.size); r->tag = calloc(r->pages, 4);
            for (x = 0; x < N; x++) VZ_CHECK((char *)r->v.data >= (char *)R[x].v.data + R[x].pages * PS || (char *)R[x].v.data >= (char *)r->v.data + r->pages * PS, "overlap", "a new region overlaps a live one");
            for (j = 0; j < (size_t)r->v.size; j++) if (((volatile unsigned char *)r->v.data)[j]) VZ_FAIL("zero", "byte %zu of a fresh region is not zero", j);
            for (j = 0; j < r->pages; j++) if (vz_pct(80)) stamp(r, j); N++; dl += (size_t)snprintf(d + dl, sizeof d - dl, "a%zu,", n);
        } else if (c < 6) { reg o = R[i]; size_t lead = vz_u(o.pages + 1), keep; zpl_virtual_memory t; if ((size_t)o.v.size % PS) { op = "skip"; lead = 0; } keep = vz_u(o.pages - lead + 1); if ((size_t)o.v.size % PS) keep = o.pages; if (!keep) continue; op = "trim";
            t = zpl_vm_trim(o.v, (zpl_isize)(lead * PS), (size_t)o.v.size % PS ? o.v.size : (zpl_isize)(keep * PS)); VZ_CHECK((char *)t.data == (char *)o.v.data + lead * PS && t.size == ((size_t)o.v.size % PS ? o.v.size : (zpl_isize)(keep * PS)), "trim", "returned %p,%zd for base %p lead %zu keep %zu", t.data, (ssize_t)t.size, o.v.data, lead * PS, keep * PS);
            for (j = 0; j < o.pages; j++) if (j < lead || j >= lead + keep) VZ_CHECK(!mapped(pg(&o, j)), "trim-kept", "page %zu is still mapped after keeping pages %zu..%zu", j, lead, lead + keep);
            R[i].v = t; R[i].pages = keep; memmove(R[i].tag, o.tag + lead, keep * 4); dl += (size_t)snprintf(d + dl, sizeof d - dl, "t%zu+%zu/%zu,", lead, keep, o.pages);
        } else if (c < 7) { op = "purge"; VZ_CHECK(zpl_vm_purge(R[i].v), "purge", "reported failure"); for (j = 0; j < R[i].pages; j++) { VZ_CHECK(mapped(pg(&R[i], j)), "purge", "unmapped the region"); stamp(&R[i], j); } dl += (size_t)snprintf(d + dl, sizeof d - dl, "p,");
        } else if (c < 9) { reg o = R[i]; op = "free"; VZ_CHECK(zpl_vm_free(o.v), "free", "reported failure"); for (j = 0; j < o.pages; j++) VZ_CHECK(!mapped(pg(&o, j)), "free-kept", "page %zu of %zu is still mapped", j, o.pages); last = o.v.data; rel(i); dl += (size_t)snprintf(d + dl, sizeof d - dl, "f,");
        } else { zpl_virtual_memory b; op = "impossible request"; switch (vz_u(3)) { case 0: b = zpl_vm_alloc(0, (zpl_isize)1 << (57 + vz_u(5))); VZ_CHECK(!b.data, "alloc-failure", "an impossible reservation returned %p", b.data); break;
              case 1: b = R[i].v; b.data = (char *)b.data + 1 + vz_u(PS - 1); VZ_CHECK(!zpl_vm_free(b), "free-failure", "releasing a misaligned range reported success"); break;
              default: b = R[i].v; b.data = (char *)b.data + 1 + vz_u(PS - 1); VZ_CHECK(!zpl_vm_purge(b), "purge-failure", "purging a misaligned range reported success"); } }
        all(op); vz_stat("operations", 1); if (dl > sizeof d - 100) dl = sizeof d - 100; }
    { zpl_virtual_memory v = zpl_vm(&k, 77); VZ_CHECK(v.data == &k && v.size == 77, "vm", "fields"); }
    while (N) { zpl_vm_free(R[0].v); rel(0); } d[dl] = 0; vz_distinct(vz_hash(d, dl, 1)); vz_sample("%.200s", d);
}
/* regions larger than four gigabytes, of which only a few pages are ever touched */
static void t_huge(void) {
    size_t n, lead, keep, k, at[6]; zpl_virtual_memory v, t; uint64_t tag = vz_r() | 1; PS = (size_t)sysconf(_SC_PAGESIZE); n = ((size_t)1 << 31) + PS * vz_u(((size_t)3 << 30) / PS); v = zpl_vm_alloc(0, (zpl_isize)n); if (!v.data) { vz_stat("huge regions refused", 1); return; }
    VZ_CHECK((uint64_t)v.size == n, "size", "%lld for %zu", (long long)v.size, n); at[0] = 0; at[1] = n / PS - 1; at[2] = ((size_t)1 << 31) / PS - 1; for (k = 3; k < 6; k++) at[k] = vz_u(n / PS);
    for (k = 0; k < 6; k++) { unsigned char *p = (unsigned char *)v.data + at[k] * PS; uint64_t w = tag ^ at[k]; VZ_CHECK(mapped(p), "lost", "page %zu of a region of %zu bytes is not mapped", at[k], n); memcpy(p, &w, 8); memcpy(p + PS - 8, &w, 8); }
    lead = vz_u(at[1]) ; if (vz_pct(50)) lead = vz_u(8); keep = 1 + vz_u(at[1] + 1 - lead); if (vz_pct(40)) keep = at[1] + 1 - lead; if (vz_pct(30)) lead = 0, keep = at[1] + 1;
    t = zpl_vm_trim(v, (zpl_isize)(lead * PS), (zpl_isize)(keep * PS)); VZ_CHECK((char *)t.data == (char *)v.data + lead * PS && (uint64_t)t.size == keep * PS, "trim", "keeping %zu bytes after %zu of %zu gave %lld at offset %lld", keep * PS, lead * PS, n, (long long)t.size, (long long)((char *)t.data - (char *)v.data));
    for (k = 0; k < 6; k++) { unsigned char *p = (unsigned char *)v.data + at[k] * PS; uint64_t w = tag ^ at[k], g; int in = at[k] >= lead && at[k] < lead + keep; VZ_CHECK(mapped(p) == in, in ? "lost" : "trim-kept", "page %zu after keeping pages %zu..%zu of %zu", at[k], lead, lead + keep, n / PS); if (in) { memcpy(&g, p + PS - 8, 8); VZ_CHECK(g == w, "contents", "page %zu of a huge region changed", at[k]); } }
    VZ_CHECK(zpl_vm_purge(t), "purge", "a huge region"); VZ_CHECK(mapped(t.data) && mapped((char *)t.data + (keep - 1) * PS), "purge", "unmapped the region");
    VZ_CHECK(zpl_vm_free(t), "free", "a huge region"); VZ_CHECK(!mapped(t.data) && !mapped((char *)t.data + (keep - 1) * PS) && !mapped((char *)t.data + keep / 2 * PS), "free-kept", "parts of a region of %zu bytes stay mapped", keep * PS);
    vz_stat("huge regions", 1); vz_distinct(n); vz_sample("%zu bytes, kept %zu pages after %zu", n, keep, lead);
}
VZ_MAIN({"history", t_hist, 40}, {"huge", t_huge, 1})
