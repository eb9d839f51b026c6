/*
 * Pool allocator: every alloc/free/reset history over adversarial sizes and
 * alignments on small storages at every base alignment.
 */
#include "mc.h"
#include <bfdev/allocpool.h>

#define MAXB 12
static bfdev_allocpool_t *pool;
static unsigned char *base;
static size_t psize, last;
static struct blk { unsigned char *p; size_t size; unsigned char fill; } *blk;
static int nblk;

static void
s_pool(void)
{
    int depth = mc_bound, i, j;
    bool by_count = mc_arg & 256;

    psize = mc_arg & 63;
    base = mc_malloc(psize + 96);
    base = (unsigned char *)(((uintptr_t)base + 63) & ~63UL) + ((mc_arg >> 6) & 3) * 4 + ((mc_arg >> 6) & 1);
    memset(base, 0xee, psize);
    base[psize] = 0xcc;
    pool = mc_malloc(sizeof(*pool));
    blk = mc_zalloc(sizeof(*blk) * MAXB);
    memset(pool, 0x5a, sizeof(*pool));
    bfdev_allocpool_init(pool, base, psize);
    last = nblk = 0;
    for (;;) {
        uint64_t h = mc_mix(last, nblk);
        for (i = 0; i < nblk; ++i) {
            h = mc_mix(h, (blk[i].p - base) * 64 + blk[i].size);
            for (j = 0; j < (int)blk[i].size; ++j)
                mc_assert(blk[i].p[j] == blk[i].fill, "a live piece was overwritten");
        }
        mc_assert(base[psize] == 0xcc, "overrun");
        h = mc_mix(h, mc_mix(pool->last, pool->count));
        if (!mc_next(mc_mix(h, mc_graph(pool, sizeof(*pool))), &depth))
            break;
        i = mc_choose(nblk + 2);
        if (i < nblk) {
            mc_step("free piece at %ld", (long)(blk[i].p - base));
            bfdev_allocpool_free(pool, blk[i].p);
            blk[i] = blk[--nblk];
            if (!nblk)
                last = 0;
        } else if (i == nblk) {
            mc_step("reset");
            bfdev_allocpool_reset(pool);
            last = nblk = 0;
        } else {
            size_t sizes[] = { 0, 1, 7, 8, 9, 16, psize - last, psize - last + 1, psize, psize + 1, (size_t)-1, (size_t)-8, (size_t)-16, (size_t)-32 };
            static const size_t aligns[] = { 0, 1, 2, 8, 16, 32 };
            size_t size = sizes[mc_choose(MC_ARRAY_SIZE(sizes))];
            size_t align = aligns[mc_choose(MC_ARRAY_SIZE(aligns))], eff, off;
            unsigned char *p;
            if (nblk == MAXB)
                mc_prune();
            eff = align < sizeof(void *) ? sizeof(void *) : align;
            off = (((uintptr_t)base + last + eff - 1) & ~(eff - 1)) - (uintptr_t)base;
            p = bfdev_allocpool_alloc(pool, size, align);
            mc_step("alloc size %zd align %zu -> offset %ld", (ssize_t)size, align, p ? (long)(p - base) : -1L);
            if (!size || off > psize || size > psize - off) {
                mc_assert(!p, "a piece of %zu bytes was handed out of %zu free", size, off > psize ? 0 : psize - off);
                continue;
            }
            mc_assert(p, "refused although it fits");
            mc_assert(p >= base && p + size <= base + psize, "outside the storage");
            mc_assert((uintptr_t)p % (align ?: 1) == 0 && (uintptr_t)p % sizeof(void *) == 0, "misaligned piece");
            for (j = 0; j < nblk; ++j)
                mc_assert(p + size <= blk[j].p || blk[j].p + blk[j].size <= p, "pieces overlap");
            last = p - base + size;
            blk[nblk].p = p;
            blk[nblk].size = size;
            blk[nblk].fill = 0x10 + nblk;
            memset(p, blk[nblk].fill, size);
            nblk++;
        }
    }
    (void)by_count;
    while (nblk)
        bfdev_allocpool_free(pool, blk[--nblk].p);
    mc_assert(bfdev_allocpool_alloc(pool, 1, 1), "the storage is not reusable after freeing every piece");
}

const mc_scenario_t mc_scenarios[] = {
    { "aligned-24", s_pool, { 20, 20 }, 24 },
    { "odd-40", s_pool, { 40, 40 }, 40 + (1 << 6) },
    { "base8-48", s_pool, { 7, 10 }, 48 + (2 << 6) },
    { NULL }
};
