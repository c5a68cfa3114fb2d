/* memory streams against a byte-array model */
#include "vz.h"
#define CAP 200000
static unsigned char M[CAP]; static size_t ML;
static void t_ops(void) {
    int kind = (int)vz_u(5), k, ops = (int)vz_range(4, 80), grow, wr; vz_track T; zpl_allocator A; zpl_file f; size_t n0 = vz_pct(15) ? 0 : vz_u(vz_pct(80) ? 60 : 2000), i, sl = n0; unsigned char *src = malloc(n0 ? n0 : 1), *orig; int64_t cur = 0; uint64_t hh = (uint64_t)kind; char hist[300] = ""; size_t hl = 0;
    static const char *kn[] = {"new", "clone", "clone+writable", "fixed", "read-only"};
    vz_track_init(&T); A = vz_track_allocator(&T); for (i = 0; i < n0; i++) src[i] = (unsigned char)vz_r(); orig = vz_dup(src, n0); memset(&f, 0x5a, sizeof f);
    grow = kind <= 2; wr = kind <= 3; 
    if (kind == 0) { VZ_CHECK(zpl_file_stream_new(&f, A), "new", "failed"); ML = 0; }
    else { int fl = kind == 1 ? ZPL_FILE_STREAM_CLONE_WRITABLE : kind == 2 ? ZPL_FILE_STREAM_CLONE_WRITABLE | ZPL_FILE_STREAM_WRITABLE : kind == 3 ? ZPL_FILE_STREAM_WRITABLE : 0;
        VZ_CHECK(zpl_file_stream_open(&f, A, src, (zpl_isize)n0, (zpl_file_stream_flags)fl), "open", "failed"); memcpy(M, src, n0); ML = n0; }
    for (k = 0; k < ops; k++) {
        int code = (int)vz_u(12); const char *op = "?"; size_t n = vz_u(400) == 0 ? vz_near2(8, 16) : vz_pct(85) ? vz_u(40) : vz_u(1500), want; unsigned char *b = malloc(n ? n : 1); int64_t off = vz_pct(75) ? (int64_t)vz_u(ML + 1) : (int64_t)vz_u(ML + 200); zpl_isize done = -9; zpl_b32 r;
        for (i = 0; i < n; i++) b[i] = (unsigned char)vz_r();
        if (ML + 200 + n > CAP) { free(b); break; }
        switch (code) {
            case 0: case 1: case 2: { int64_t at = code == 2 ? off : cur; unsigned char *o = malloc(n ? n : 1); memset(o, 0x5a, n); op = code == 2 ? "read_at" : "read"; want = (size_t)at < ML ? (ML - (size_t)at < n ? ML - (size_t)at : n) : 0;
                if (code == 2) { r = zpl_file_read_at_check(&f, o, (zpl_isize)n, off, &done); VZ_CHECK(r && (size_t)done == want, "read_at", "%s stream of %zu: %zu bytes at %lld reported %zd", kn[kind], ML, n, (long long)off, (ssize_t)done); }
                else { r = zpl_file_read(&f, o, (zpl_isize)n); VZ_CHECK(r, "read", "failed"); cur += (int64_t)want; }
                VZ_CHECK(!memcmp(o, M + at, want), op, "%s stream of %zu: bytes at %lld differ", kn[kind], ML, (long long)at); for (i = want; i < n; i++) VZ_CHECK(o[i] == 0x5a, op, "%s stream of %zu: more than the %zu bytes present were delivered", kn[kind], ML, want);
                free(o); break; }
            case 3: case 4: case 5: case 6: { int64_t at = code >= 5 ? off : cur; op = code >= 5 ? "write_at" : "write";
                if (code >= 5) r = zpl_file_write_at_check(&f, b, (zpl_isize)n, off, &done); else r = zpl_file_write(&f, b, (zpl_isize)n);
                if (!wr) { VZ_CHECK(!r, "read-only", "%s succeeded on a read-only view", op); break; }
                want = grow ? n : (size_t)at < ML ? (ML - (size_t)at < n ? ML - (size_t)at : n) : 0;
                if (want == n) VZ_CHECK(r, op, "%s stream of %zu: %zu bytes at %lld failed", kn[kind], ML, n, (long long)at);
                if (code >= 5 && r) VZ_CHECK((size_t)done == want, op, "%s stream of %zu: %zu bytes at %lld reported %zd", kn[kind], ML, n, (long long)at, (ssize_t)done);
                if (want) { if ((size_t)at > ML) memset(M + ML, 0, (size_t)at - ML); memcpy(M + at, b, want); if ((size_t)at + want > ML) ML = (size_t)at + want; }
                if (code < 5) cur += (int64_t)want; break; }
            case 7: op = "seek"; { int64_t e = off > (int64_t)ML ? (int64_t)ML : off, t; if (vz_pct(5)) { off = -off; e = 0; } t = zpl_file_seek(&f, off); cur = e; VZ_CHECK(t == e, "seek", "to %lld in %zu returned %lld", (long long)off, ML, (long long)t); } break;
            case 8: op = "seek_to_end"; { int64_t t = zpl_file_seek_to_end(&f); cur = (int64_t)ML; VZ_CHECK(t == cur, "seek_to_end", "returned %lld of %zu", (long long)t, ML); } break;
            case 9: op = "skip"; { int64_t s = vz_range(-30, 30), e = cur + s, t; e = e < 0 ? 0 : e > (int64_t)ML ? (int64_t)ML : e; t = zpl_file_skip(&f, s); cur = e; VZ_CHECK(t == e, "skip", "%lld returned %lld, expected %lld", (long long)s, (long long)t, (long long)e); } break;
            case 10: op = "negative"; { unsigned char c = 0x5a; done = 0; r = zpl_file_read_at_check(&f, &c, 1, -(zpl_i64)vz_range(1, 100), &done); VZ_CHECK((!r || !done) && c == 0x5a, "negative", "read before the start"); done = 0; r = zpl_file_write_at_check(&f, &c, 1, -(zpl_i64)vz_range(1, 100), &done); VZ_CHECK(!r || !done, "negative", "write before the start"); } break;
            default: op = "fprintf"; { char t[60]; int v = (int)vz_r(); if (!grow) break; sprintf(t, "<%d|%s>", v, "abc"); zpl_fprintf(&f, "<%d|%s>", v, "abc"); memcpy(M + cur, t, strlen(t)); if ((size_t)cur + strlen(t) > ML) ML = (size_t)cur + strlen(t); cur += (int64_t)strlen(t); }
        }
        free(b);
        if (hl < 280) hl += (size_t)snprintf(hist + hl, sizeof hist - hl, "%s ", op);
        hh = hh * 131 + (uint64_t)code * 11 + n;
        { zpl_isize s = -1; unsigned char *p = zpl_file_stream_buf(&f, &s); int64_t t = zpl_file_tell(&f);
          VZ_CHECK((size_t)s == ML, "size", "after %s the %s stream has %zd bytes, expected %zu", op, kn[kind], (ssize_t)s, ML); VZ_CHECK(!memcmp(p, M, ML), "contents", "after %s the %s stream's bytes differ", op, kn[kind]);
          VZ_CHECK(t == cur, "cursor", "after %s the %s stream's cursor is %lld, expected %lld of %zu", op, kn[kind], (long long)t, (long long)cur, ML);
          VZ_CHECK(zpl_file_size(&f) == (zpl_i64)ML && zpl_file_tell(&f) == cur, "size", "after %s", op); }
        if (kind != 3) VZ_CHECK(!memcmp(src, orig, sl), "source", "%s on a %s stream changed the source", op, kn[kind]); else VZ_CHECK(!memcmp(src, M, sl), "fixed", "%s: the buffer does not show the stream's bytes", op);
    }
    VZ_CHECK(zpl_file_close(&f) == ZPL_FILE_ERROR_NONE, "close", "failed"); VZ_TRACK_DONE(&T);
    vz_undup(orig); free(src); vz_stat(kn[kind], 1); vz_distinct(hh); vz_sample("%s: %s", kn[kind], hist);
}
/* two streams over one allocator do not disturb each other */
static void t_many(void) {
    zpl_file f[6]; int n = (int)vz_range(2, 6), i, k; vz_track T; zpl_allocator A; unsigned char m[6][800]; size_t l[6];
    vz_track_init(&T); A = vz_track_allocator(&T); for (i = 0; i < n; i++) { VZ_CHECK(zpl_file_stream_new(&f[i], A), "new", "failed"); l[i] = 0; }
    for (k = 0; k < 30; k++) { size_t j, c; i = (int)vz_u((uint64_t)n); c = vz_u(25); for (j = 0; j < c; j++) m[i][l[i] + j] = (unsigned char)vz_r(); VZ_CHECK(zpl_file_write(&f[i], m[i] + l[i], (zpl_isize)c), "write", "failed"); l[i] += c; }
    for (i = 0; i < n; i++) { zpl_isize s; unsigned char *p = zpl_file_stream_buf(&f[i], &s); VZ_CHECK((size_t)s == l[i] && !memcmp(p, m[i], l[i]), "contents", "stream %d of %d", i, n); zpl_file_close(&f[i]); }
    VZ_TRACK_DONE(&T); vz_distinct(vz_r());
}
VZ_MAIN({"operations", t_ops, 10}, {"several", t_many, 1})
