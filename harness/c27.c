/* C27 sockets on the loopback interface: byte/datagram ledgers, readiness against what is pending, descriptors counted */
#include "vz.h"
#include <sys/socket.h>
#include <netinet/in.h>
#include <netinet/tcp.h>
#include <netdb.h>
#include <pthread.h>
static int fds(void) { int i, n = 0; for (i = 0; i < 400; i++) if (fcntl(i, F_GETFD) >= 0) n++; return n; }
static int v6ok = -1; static const char *host(void) { if (v6ok < 0) { struct sockaddr_in6 a; int s = socket(AF_INET6, SOCK_DGRAM, 0); memset(&a, 0, sizeof a); a.sin6_family = AF_INET6; a.sin6_addr = in6addr_loopback; v6ok = s >= 0 && !bind(s, (void *)&a, sizeof a); if (s >= 0) close(s); } return v6ok && vz_pct(35) ? "::1" : "127.0.0.1"; }
static int port_of(int s, char *t) { struct sockaddr_storage a; socklen_t l = sizeof a; int p; memset(&a, 0, sizeof a); if (getsockname(s, (void *)&a, &l)) VZ_BROKEN("getsockname"); p = ntohs(a.ss_family == AF_INET6 ? ((struct sockaddr_in6 *)&a)->sin6_port : ((struct sockaddr_in *)&a)->sin_port); sprintf(t, "%d", p); return p; }
static void same_addr(zpl_socket_addr *z, int s, int peer, const char *what) { struct sockaddr_storage a; socklen_t l = sizeof a; memset(&a, 0, sizeof a); if (peer ? getpeername(s, (void *)&a, &l) : getsockname(s, (void *)&a, &l)) VZ_BROKEN("name"); VZ_CHECK(((struct sockaddr *)z)->sa_family == a.ss_family, what, "family %d, expected %d", ((struct sockaddr *)z)->sa_family, a.ss_family);
    if (a.ss_family == AF_INET) VZ_CHECK(((struct sockaddr_in *)z)->sin_port == ((struct sockaddr_in *)&a)->sin_port && ((struct sockaddr_in *)z)->sin_addr.s_addr == ((struct sockaddr_in *)&a)->sin_addr.s_addr, what, "another IPv4 address");
    else VZ_CHECK(((struct sockaddr_in6 *)z)->sin6_port == ((struct sockaddr_in6 *)&a)->sin6_port && !memcmp(&((struct sockaddr_in6 *)z)->sin6_addr, &((struct sockaddr_in6 *)&a)->sin6_addr, 16), what, "another IPv6 address"); }
static void check_info(zpl_socket_addr *z, int s) { char h[200], sv[40], wh[200], ws[40]; struct sockaddr_storage a; socklen_t l = sizeof a; int r, w, k = (int)vz_u(4); getsockname(s, (void *)&a, &l); r = zpl_socket_get_address_info(z, k == 1 ? 0 : h, k == 1 ? 0 : (int)sizeof h, k == 2 ? 0 : sv, k == 2 ? 0 : (int)sizeof sv); w = getnameinfo((void *)&a, l, k == 1 ? 0 : wh, k == 1 ? 0 : sizeof wh, k == 2 ? 0 : ws, k == 2 ? 0 : sizeof ws, 0); VZ_CHECK(!r == !w, "address-info", "result %d, expected %d", r, w); if (!r) { if (k != 1) VZ_CHECK(!strcmp(h, wh), "address-info", "host %s, expected %s", h, wh); if (k != 2) VZ_CHECK(!strcmp(sv, ws), "address-info", "service %s, expected %s", sv, ws); } }
static void rst(int s) { struct linger l = {1, 0}; setsockopt(s, SOL_SOCKET, SO_LINGER, &l, sizeof l); zpl_socket_close(s); }
static uint8_t at(uint64_t stream, uint64_t off) { uint64_t z = stream * 0x9E3779B97F4A7C15ull + (off >> 3) * 0xBF58476D1CE4E5B9ull; z ^= z >> 29; return (uint8_t)(z >> (8 * (off & 7))); }
typedef struct { int l, c, s; } conn; /* listener, client, server end */
static conn join_(char flags, zpl_socket_addr *pa) {
    conn k; char p[20]; const char *h = host(); zpl_socket_addr a, ca; int i;
    k.l = zpl_socket_create(ZPL_SOCKET_TCP, ZPL_SOCKET_BIND, vz_pct(50) ? ZPL_SOCKET_NON_BLOCKING : 0, h, "0"); VZ_CHECK(k.l >= 0, "create", "binding %s failed: %s", h, strerror(errno)); VZ_CHECK(!zpl_socket_listen(k.l, 5), "listen", "failed");
    VZ_CHECK(!zpl_socket_get_address(k.l, &a), "get-address", "failed: %s", strerror(errno)); same_addr(&a, k.l, 0, "get-address"); if (vz_pct(20)) check_info(&a, k.l); port_of(k.l, p);
    VZ_CHECK(zpl_socket_select(k.l, 0) == 0, "readable", "listener without connections is readable");
    if (fcntl(k.l, F_GETFL) & O_NONBLOCK) VZ_CHECK(zpl_socket_accept(k.l, vz_pct(50) ? &a : 0) == -1, "accept", "accepted without a connection");
    k.c = zpl_socket_create(ZPL_SOCKET_TCP, ZPL_SOCKET_CONNECT, flags, h, p); VZ_CHECK(k.c >= 0, "connect", "connecting to %s:%s failed: %s", h, p, strerror(errno));
    VZ_CHECK(!!(fcntl(k.c, F_GETFL) & O_NONBLOCK) == !!(flags & ZPL_SOCKET_NON_BLOCKING), "flags", "blocking mode"); { int nd = 0; socklen_t l = sizeof nd; getsockopt(k.c, IPPROTO_TCP, TCP_NODELAY, &nd, &l); VZ_CHECK(!!nd == !!(flags & ZPL_SOCKET_NO_DELAY), "flags", "no-delay is %d", nd); }
    VZ_CHECK((i = zpl_socket_select(k.l, 10.0)) == 1, "readable", "pending connection not reported: %d", i); memset(&ca, 0, sizeof ca); k.s = zpl_socket_accept(k.l, pa || vz_pct(60) ? &ca : 0); VZ_CHECK(k.s >= 0, "accept", "failed: %s", strerror(errno)); if (pa) { same_addr(&ca, k.c, 0, "accept-address"); *pa = ca; }
    VZ_CHECK(zpl_socket_select(k.l, 0) == 0, "readable", "listener readable after its only connection was taken"); return k;
}
static char *exact(size_t n) { return malloc(n ? n : 1); }
static void t_stream(void) {
    int before = fds(), ops = 10 + (int)vz_u(90), i, closed = 0; char fl = (char)((vz_pct(50) ? ZPL_SOCKET_NO_DELAY : 0) | (vz_pct(50) ? ZPL_SOCKET_NON_BLOCKING : 0)); zpl_socket_addr pa; conn k = join_(fl, &pa); int e[2]; uint64_t st[2], sent[2] = {0, 0}, got[2] = {0, 0}, id = vz_r(), hs = (uint64_t)fl;
    e[0] = k.c; e[1] = k.s; st[0] = id; st[1] = ~id; /* st[d]: bytes from end d */
    for (i = 0; i < ops; i++) { int d = (int)vz_u(2), o = (int)vz_u(100), r; uint64_t pend = sent[1 - d] - got[1 - d]; hs = hs * 31 + (uint64_t)(o / 10) + (uint64_t)d;
        if (o < 50) { size_t n = 1 + vz_u(vz_pct(80) ? 300 : 20000), j; char *b; if (sent[d] - got[d] + n > 60000) continue; b = exact(n); for (j = 0; j < n; j++) b[j] = (char)at(st[d], sent[d] + j); r = zpl_socket_send(e[d], b, (int)n); free(b); VZ_CHECK(r > 0 && r <= (int)n, "send", "sending %zu bytes returned %d: %s", n, r, strerror(errno)); sent[d] += (uint64_t)r; vz_stat("bytes sent", (uint64_t)r); }
        else if (o < 85) { size_t n = 1 + vz_u(vz_pct(70) ? 400 : 30000); char *b; int j;
            if (!pend) { VZ_CHECK(zpl_socket_select(e[d], 0) == 0, "readable", "readable with nothing pending"); if (fcntl(e[d], F_GETFL) & O_NONBLOCK) { b = exact(n); VZ_CHECK(zpl_socket_receive(e[d], b, (int)n) == -1, "receive", "received with nothing pending"); free(b); } vz_stat("queries with nothing pending", 1); continue; }
            VZ_CHECK((r = zpl_socket_select(e[d], 10.0)) == 1, "readable", "select is %d with %llu bytes pending", r, (long long)pend); b = exact(n); r = zpl_socket_receive(e[d], b, (int)n); VZ_CHECK(r > 0 && r <= (int)n && (uint64_t)r <= pend, "receive", "asked %zu, got %d with %llu pending", n, r, (long long)pend); for (j = 0; j < r; j++) VZ_CHECK((uint8_t)b[j] == at(st[1 - d], got[1 - d] + (uint64_t)j), "stream-order", "byte %llu differs", (long long)(got[1 - d] + (uint64_t)j)); got[1 - d] += (uint64_t)r; free(b); }
        else if (o < 95) { zpl_socket v[6]; int n = 1 + (int)vz_u(5), want = 0, j, lo = 0, uc = 0, us = 0; for (j = 0; j < n; j++) { int w = (int)vz_u(4); v[j] = w == 0 ? k.l : w == 1 ? k.c : w == 2 ? k.s : -1; if (w == 1) uc = 1; if (w == 2) us = 1; } (void)lo; if (uc && sent[1] > got[1]) want++; if (us && sent[0] > got[0]) want++; if (want) { zpl_socket one; if (uc && sent[1] > got[1]) { one = k.c; zpl_socket_select(one, 10.0); } if (us && sent[0] > got[0]) { one = k.s; zpl_socket_select(one, 10.0); } } r = zpl_socket_multi_select(v, n, vz_pct(50) || !want ? 0 : 5.0); VZ_CHECK(r == want, "multi-readable", "%d reported, %d are readable", r, want); vz_stat("multi queries", 1); }
        else { zpl_socket_addr a; VZ_CHECK(!zpl_socket_get_address(e[d], &a), "get-address", "failed"); same_addr(&a, e[d], 0, "get-address"); same_addr(&a, e[1 - d], 1, "get-address"); }
    }
    if (vz_pct(50)) { int d = (int)vz_u(2); /* orderly shutdown of end d: the other drains, then sees the end */
        /* unread data at the closing end would reset the connection */
        while (got[1 - d] < sent[1 - d]) { char b[4096]; int r = zpl_socket_select(e[d], 10.0) == 1 ? zpl_socket_receive(e[d], b, sizeof b) : -2, j; VZ_CHECK(r > 0, "receive", "draining returned %d", r); for (j = 0; j < r; j++) VZ_CHECK((uint8_t)b[j] == at(st[1 - d], got[1 - d] + (uint64_t)j), "stream-order", "byte %llu differs", (long long)(got[1 - d] + (uint64_t)j)); got[1 - d] += (uint64_t)r; }
        zpl_socket_close(e[d]); closed = 1 + d;
        for (;;) { char b[4096]; int r, j; VZ_CHECK((r = zpl_socket_select(e[1 - d], 10.0)) == 1, "readable", "after the peer closed: %d", r); r = zpl_socket_receive(e[1 - d], b, sizeof b); if (got[d] == sent[d]) { VZ_CHECK(r == 0, "shutdown", "received %d after everything", r); break; } VZ_CHECK(r > 0, "shutdown", "received %d with %llu bytes pending", r, (long long)(sent[d] - got[d])); for (j = 0; j < r; j++) VZ_CHECK((uint8_t)b[j] == at(st[d], got[d] + (uint64_t)j), "stream-order", "byte %llu differs", (long long)(got[d] + (uint64_t)j)); got[d] += (uint64_t)r; }
        vz_stat("orderly shutdowns", 1); }
    if (closed != 1) rst(k.c); if (closed != 2) rst(k.s); zpl_socket_close(k.l); VZ_CHECK(fds() == before, "descriptor-leak", "%d descriptors before, %d after", before, fds()); vz_distinct(hs ^ id); vz_sample("%d operations, %llu bytes", ops, (long long)(sent[0] + sent[1]));
}
static conn BK; static uint64_t btotal, bid; static volatile int bfail;
static void *bulk(void *u) { uint64_t off = 0; char b[30000]; (void)u; while (off < btotal) { size_t n = 1 + (size_t)((off * 7919 + 13) % sizeof b), j; int r; if (n > btotal - off) n = (size_t)(btotal - off); for (j = 0; j < n; j++) b[j] = (char)at(bid, off + j); r = zpl_socket_send(BK.c, b, (int)n); if (r <= 0) { bfail = r - 1000; break; } off += (uint64_t)r; } return 0; }
static void t_bulk(void) { /* more than the kernel buffers, both ends blocking */
    int before = fds(); pthread_t t; uint64_t g = 0; BK = join_(0, 0); btotal = 200000 + vz_u(3000000); bid = vz_r(); bfail = 0; pthread_create(&t, 0, bulk, 0);
    while (g < btotal) { static char b[100000]; int n = 1 + (int)vz_u(sizeof b), r = zpl_socket_receive(BK.s, b, n), j; if (r <= 0) { zpl_socket_close(BK.s); pthread_join(t, 0); VZ_FAIL("bulk", "received %d after %llu of %llu bytes", r, (long long)g, (long long)btotal); } for (j = 0; j < r; j++) if ((uint8_t)b[j] != at(bid, g + (uint64_t)j)) { zpl_socket_close(BK.s); pthread_join(t, 0); VZ_FAIL("stream-order", "byte %llu differs", (long long)(g + (uint64_t)j)); } g += (uint64_t)r; }
    pthread_join(t, 0); VZ_CHECK(!bfail, "send", "sending returned %d", bfail + 1000); vz_stat("bulk bytes", g); rst(BK.c); rst(BK.s); zpl_socket_close(BK.l); VZ_CHECK(fds() == before, "descriptor-leak", "%d descriptors before, %d after", before, fds()); vz_distinct(bid);
}
typedef struct { int from, to, len; uint64_t id; int done; } dg;
static void t_dgram(void) {
    int before = fds(), n = 2 + (int)vz_u(3), s[5], i, k, nd = 0, ops = 20 + (int)vz_u(80), pend[5] = {0}; zpl_socket_addr a[5]; static dg D[200]; const char *h = host(); uint64_t hs = (uint64_t)n; size_t outst[5] = {0};
    for (i = 0; i < n; i++) { s[i] = zpl_socket_create(ZPL_SOCKET_UDP, ZPL_SOCKET_BIND, ZPL_SOCKET_NON_BLOCKING, h, "0"); VZ_CHECK(s[i] >= 0, "create", "datagram socket on %s: %s", h, strerror(errno)); VZ_CHECK(!zpl_socket_get_address(s[i], &a[i]), "get-address", "failed: %s", strerror(errno)); same_addr(&a[i], s[i], 0, "get-address"); }
    for (k = 0; k < ops; k++) { int f = (int)vz_u((uint64_t)n), t = (int)vz_u((uint64_t)n), r, o = (int)vz_u(100); hs = hs * 31 + (uint64_t)(f * 50 + t * 10 + o / 20);
        if (o < 50 && nd < 200) { dg *d = &D[nd]; int len = (int)vz_u(vz_pct(80) ? 300 : 20000), j; char *b; if (outst[t] > 60000 || pend[t] > 20) continue; b = exact((size_t)len); d->from = f; d->to = t; d->len = len; d->id = vz_r(); d->done = 0; for (j = 0; j < len; j++) b[j] = (char)at(d->id, (uint64_t)j); r = zpl_socket_send_to(s[f], &a[t], b, len); free(b); VZ_CHECK(r == len, "send-to", "%d bytes returned %d: %s", len, r, strerror(errno)); nd++; pend[t]++; outst[t] += (size_t)len + 700; vz_stat("datagrams sent", 1); }
        else { int cap = vz_pct(80) ? 20000 : 1 + (int)vz_u(300), j, i2; char *b; zpl_socket_addr from; int want = vz_pct(85);
            if (!pend[t]) { VZ_CHECK(zpl_socket_select(s[t], 0) == 0, "readable", "readable with nothing pending"); b = exact((size_t)cap); VZ_CHECK(zpl_socket_receive_from(s[t], &from, b, cap) == -1, "receive-from", "received with nothing pending"); free(b); continue; }
            VZ_CHECK((r = zpl_socket_select(s[t], 10.0)) == 1, "readable", "select is %d with %d datagrams pending", r, pend[t]); b = exact((size_t)cap); memset(&from, 0, sizeof from); r = zpl_socket_receive_from(s[t], want ? &from : 0, b, cap); VZ_CHECK(r >= 0 && r <= cap, "receive-from", "returned %d: %s", r, strerror(errno));
            for (i2 = 0; i2 < nd; i2++) { dg *d = &D[i2]; if (d->done || d->to != t || (d->len < cap ? d->len : cap) != r) continue; for (j = 0; j < r && (uint8_t)b[j] == at(d->id, (uint64_t)j); j++) {} if (j < r) continue; if (want) { struct sockaddr_storage x; socklen_t l = sizeof x; memset(&x, 0, sizeof x); getsockname(s[d->from], (void *)&x, &l); if (((struct sockaddr_in *)&x)->sin_port != ((struct sockaddr_in *)&from)->sin_port && r < 8) continue; /* short ones may be ambiguous */ } break; }
            VZ_CHECK(i2 < nd, "datagram", "socket %d received %d bytes that were not sent to it", t, r); if (want) same_addr(&from, s[D[i2].from], 0, "sender"); D[i2].done = 1; pend[t]--; outst[t] -= (size_t)D[i2].len + 700; free(b); vz_stat("datagrams received", 1); } }
    for (i = 0; i < n; i++) zpl_socket_close(s[i]); VZ_CHECK(fds() == before, "descriptor-leak", "%d descriptors before, %d after", before, fds()); vz_distinct(hs);
    { int c, l = zpl_socket_create(ZPL_SOCKET_UDP, ZPL_SOCKET_BIND, 0, h, "0"); char p[20], b[100]; int r; if (l >= 0) { port_of(l, p); c = zpl_socket_create(ZPL_SOCKET_UDP, ZPL_SOCKET_CONNECT, 0, h, p); VZ_CHECK(c >= 0, "connect", "datagram connect failed"); VZ_CHECK(zpl_socket_send(c, "hello", 5) == 5, "send", "connected datagram"); VZ_CHECK(zpl_socket_select(l, 10.0) == 1, "readable", "datagram pending"); r = zpl_socket_receive(l, b, 100); VZ_CHECK(r == 5 && !memcmp(b, "hello", 5), "datagram", "received %d", r); zpl_socket_close(c); zpl_socket_close(l); } }
}
static void t_session(void) { /* starting and ending the use of sockets costs nothing and may be repeated */
    int before = fds(), i, n = 1 + (int)vz_u(3), k; zpl_socket_addr a; zpl_socket s;
    for (i = 0; i < n; i++) { VZ_CHECK(zpl_socket_init() == 0, "init", "starting the use of sockets was refused"); for (k = (int)vz_u(3); k; k--) { s = zpl_socket_create(ZPL_SOCKET_UDP, ZPL_SOCKET_BIND, 0, host(), "0"); VZ_CHECK(s >= 0 && zpl_socket_get_address(s, &a) == 0, "create", "no socket in use %d", i); zpl_socket_close(s); } zpl_socket_terminate(); VZ_CHECK(fds() == before, "descriptor-leak", "%d descriptors before, %d after", before, fds()); }
    vz_distinct((uint64_t)n);
}
static void t_fail(void) { /* failures are reported and cost no descriptor */
    int before = fds(), l, l2, i; char p[20]; const char *h = host(); zpl_socket_addr a; char fl = vz_pct(50) ? ZPL_SOCKET_NON_BLOCKING : 0;
    l = zpl_socket_create(ZPL_SOCKET_TCP, ZPL_SOCKET_BIND, 0, h, "0"); VZ_CHECK(l >= 0, "create", "binding failed"); zpl_socket_listen(l, 1); port_of(l, p);
    for (i = 0; i < 3; i++) { l2 = zpl_socket_create(ZPL_SOCKET_TCP, ZPL_SOCKET_BIND, fl, h, p); VZ_CHECK(l2 == -1, "bind", "a port in use was bound"); } VZ_CHECK(fds() == before + 1, "descriptor-leak", "failed binds left %d descriptors", fds() - before - 1); zpl_socket_close(l);
    for (i = 0; i < 2; i++) { l2 = zpl_socket_create(ZPL_SOCKET_TCP, ZPL_SOCKET_CONNECT, 0, h, p); if (l2 >= 0) { /* someone else took the port meanwhile */ zpl_socket_close(l2); vz_stat("ports taken meanwhile", 1); } } VZ_CHECK(fds() == before, "descriptor-leak", "failed connects left %d descriptors", fds() - before);
    VZ_CHECK(zpl_socket_create(ZPL_SOCKET_TCP, ZPL_SOCKET_CONNECT, fl, "127.0.0.1", "no-such-service") == -1, "create", "an unknown service was accepted"); VZ_CHECK(zpl_socket_get_address(-1, &a) != 0 && zpl_socket_listen(-1, 1) != 0 && zpl_socket_accept(-1, &a) == -1 && zpl_socket_send(-1, "x", 1) == -1 && zpl_socket_receive(-1, (char *)&a, 4) == -1 && zpl_socket_receive_from(-1, &a, (char *)&a, 4) == -1, "invalid", "an operation on no socket succeeded");
    VZ_CHECK(zpl_socket_select(-1, 0.001) == 0, "select", "nothing selected is readable"); VZ_CHECK(fds() == before, "descriptor-leak", "%d left", fds() - before);
    { int u = zpl_socket_create(ZPL_SOCKET_UDP, ZPL_SOCKET_BIND, 0, h, "0"), hi = fcntl(u, F_DUPFD, 1024 + (int)vz_u(500)); if (hi >= 0) { zpl_socket v[2]; v[0] = u; v[1] = hi; i = zpl_socket_select(hi, 0); VZ_CHECK(i == 0 || i == -1, "select", "%d for an idle socket", i); i = zpl_socket_multi_select(v, 2, 0); VZ_CHECK(i == 0 || i == -1, "select", "%d for idle sockets", i); close(hi); vz_stat("high descriptors", 1); } zpl_socket_close(u); }
    vz_distinct(vz_r());
}
static double mono(void) { struct timespec t; clock_gettime(CLOCK_MONOTONIC, &t); return t.tv_sec + 1e-9 * t.tv_nsec; }
static int late_fd; static double late_by; static void *late(void *x) { struct timespec t; (void)x; t.tv_sec = (time_t)late_by; t.tv_nsec = (long)((late_by - t.tv_sec) * 1e9); while (nanosleep(&t, &t)); if (send(late_fd, "!", 1, 0) != 1) return &late_fd; return 0; }
static void t_wait(void) { /* a query with a time limit waits for data that long, and no data is missed meanwhile */
    const char *h = host(); zpl_socket a = zpl_socket_create(ZPL_SOCKET_UDP, ZPL_SOCKET_BIND, 0, h, "0"), b, v[4]; char p[20], c[4]; double lim, t0, t1; int r, multi = vz_pct(50), n = 1 + (int)vz_u(3), i, arrives = vz_pct(50); pthread_t th; void *bad;
    if (a < 0) return;
    port_of(a, p); lim = vz_pct(8) ? 1.0 + vz_u(2) + 0.25 + 0.01 * (double)vz_u(50) : 0.001 * (double)vz_u(40) + 1e-6 * (double)vz_u(1000);
    for (i = 0; i < n; i++) v[i] = -1; v[vz_u((uint64_t)n)] = a;
    b = zpl_socket_create(ZPL_SOCKET_UDP, ZPL_SOCKET_CONNECT, 0, h, p);
    if (b < 0) { zpl_socket_close(a); return; }
    if (arrives && lim > 1) { late_fd = b; late_by = lim - 0.2; lim += 8; /* far enough away for a busy machine */ } else arrives = 0;
    t0 = mono(); if (arrives) VZ_CHECK(!pthread_create(&th, 0, late, 0), "harness", "no thread");
    r = multi ? zpl_socket_multi_select(v, n, lim) : zpl_socket_select(a, lim); t1 = mono();
    if (arrives) { pthread_join(th, &bad); VZ_CHECK(!bad, "harness", "the late datagram was not sent"); VZ_CHECK(r == 1, multi ? "multi-wait" : "wait", "data sent after %.3f of %.3f seconds was missed: %d after %.3f", late_by, lim, r, t1 - t0); VZ_CHECK(zpl_socket_receive(a, c, 4) == 1, "wait", "readable without data"); vz_stat("data arriving during a wait", 1); }
    else { VZ_CHECK(r == 0, multi ? "multi-wait" : "wait", "waiting %.6f seconds with nothing arriving gives %d (%s)", lim, r, strerror(errno)); VZ_CHECK(t1 - t0 >= lim - 0.001, multi ? "multi-wait" : "wait", "gave up after %.6f of %.6f seconds", t1 - t0, lim); vz_stat("waits to the end", 1); }
    close(b); zpl_socket_close(a); vz_distinct(vz_r());
}
VZ_MAIN({"stream", t_stream, 10}, {"bulk stream", t_bulk, 1}, {"datagrams", t_dgram, 8}, {"failures", t_fail, 4}, {"sessions", t_session, 1}, {"waits", t_wait, 1})
