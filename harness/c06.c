/* C06 doubly linked list against a plain sequence, walked both ways after each edit */
#include "vz.h"
static void t_list(void) {
    enum { N = 40 }; zpl_list nodes[N], *order[N]; int used[N] = {0}, n = 1, k, ops = 10 + (int)vz_u(120); uint64_t h = 0;
    memset(nodes, 0x5A, sizeof nodes); zpl_list_init(&nodes[0], &nodes[0]); used[0] = 1; order[0] = &nodes[0];
    for (k = 0; k < ops; k++) {
        int i, j; zpl_list *p, *last = 0;
        if (vz_pct(60) && n < N) { int at = (int)vz_u((uint64_t)n); for (j = 0; used[j]; j++); zpl_list_init(&nodes[j], &nodes[j]); used[j] = 1;
            p = zpl_list_add(order[at], &nodes[j]); VZ_CHECK(p == &nodes[j], "add-ret", "add returned another node"); memmove(&order[at + 2], &order[at + 1], (size_t)(n - at - 1) * sizeof *order); order[at + 1] = &nodes[j]; n++; h = h * 31 + (uint64_t)at; vz_stat(at == n - 2 ? "insert at tail" : "insert in middle", 1); }
        else if (n > 1) { int at = (int)vz_u((uint64_t)n); zpl_list *x = order[at], *want = at + 1 < n ? order[at + 1] : 0; p = zpl_list_remove(x); VZ_CHECK(p == want, "remove-ret", "remove did not return the following node"); memmove(&order[at], &order[at + 1], (size_t)(n - at - 1) * sizeof *order); n--; used[x - nodes] = 0; h = h * 31 + 100 + (uint64_t)at; vz_stat(at == 0 ? "remove head" : at == n ? "remove tail" : "remove middle", 1); }
        for (i = 0, p = order[0]; p && i <= n; p = p->next, i++) { VZ_CHECK(i < n && p == order[i], "forward", "position %d of %d", i, n); VZ_CHECK(p->ptr == p, "payload", "payload changed"); last = p; }
        VZ_CHECK(i == n, "forward", "walk saw %d of %d", i, n);
        for (i = n - 1, p = last; p && i >= -1; p = p->prev, i--) VZ_CHECK(i >= 0 && p == order[i], "backward", "position %d of %d after op %d", i, n, k);
        VZ_CHECK(i == -1, "backward", "walk ended at %d", i);
    }
    vz_distinct(h); vz_sample("%d edits, %d nodes at end", ops, n);
}
VZ_MAIN({"list", t_list, 1})
