/* the whole stream of unique 32-bit draws: 2^32 draws from one state, none twice (8 threads share a bitmap) */
#define VZ_CPU_LIMIT 3000
#include "vz.h"
#include <pthread.h>
static uint32_t *map; static zpl_random R; static int dup_at[8]; static uint32_t dupv[8];
static void *part(void *u) { int k = (int)(size_t)u; zpl_random r = R; uint64_t i; r.value = R.value + (uint32_t)k * 0x20000000u; for (i = 0; i < 0x20000000u; i++) { uint32_t x = zpl_random_gen_u32_unique(&r), b = 1u << (x & 31); if (__atomic_fetch_or(&map[x >> 5], b, __ATOMIC_RELAXED) & b) { dup_at[k] = 1; dupv[k] = x; return 0; } } return 0; }
static void t_all(void) { pthread_t t[8]; int i; map = calloc(1u << 27, 4); if (!map) VZ_BROKEN("memory"); zpl_random_init(&R); for (i = 0; i < 8; i++) { R.offsets[i] = (zpl_u32)vz_r(); } R.value = (zpl_u32)vz_r();
    for (i = 0; i < 8; i++) if (pthread_create(&t[i], 0, part, (void *)(size_t)i)) VZ_BROKEN("thread"); for (i = 0; i < 8; i++) pthread_join(t[i], 0);
    for (i = 0; i < 8; i++) VZ_CHECK(!dup_at[i], "unique", "%u drawn twice in one cycle of 2^32 unique draws", dupv[i]); vz_stat("complete cycles of 2^32 unique draws", 1); vz_sample("all 2^32 unique draws from state %08x", R.value); vz_distinct(R.value); free(map); }
VZ_MAIN({"whole cycle", t_all, 1})
