/*
 * Region allocator: every alloc/realloc/free history over one region for each
 * fit policy; chunk layout, disjointness, contents and policy against a model.
 */
#include "mc.h"
#include <bfdev/memalloc.h>
#include <bfdev/list.h>

#define NB 6
#define MAXC 32

static bfdev_memalloc_head_t pool;
static uint8_t *region;
static size_t rsize;
static struct blk { uint8_t *addr; size_t size; uint8_t pat; } blk[NB];
static int nblk;

/* chunk layout as the bookkeeping tells it */
static struct chunk { uint8_t *data; size_t size; bool used; int forder; } chunk[MAXC];
static int nchunk;

static const size_t sizes_small[] = { 1, 32, 33, 96, 200, 0 };
static const size_t sizes_big[] = { 8, 64, 128, 320, 0 };
static const size_t *sizes;

static uint64_t
verify(void)
{
    bfdev_memalloc_chunk_t *pos;
    uint8_t *expect = region;
    size_t avail = 0, k;
    uint64_t h = 1;
    int i, j, nfree = 0, order = 0;

    nchunk = 0;
    bfdev_list_for_each_entry(pos, &pool.block_list, block) {
        struct chunk *c = &chunk[nchunk++];
        mc_assert(nchunk < MAXC, "endless chunk list");
        mc_assert((uint8_t *)pos == expect, "chunk %d does not follow its neighbour", nchunk);
        c->data = (uint8_t *)pos->data;
        c->size = pos->usize & ~(size_t)1;
        c->used = pos->usize & 1;
        c->forder = -1;
        expect = c->data + c->size;
        mc_assert(expect <= region + rsize, "chunk %d reaches beyond the region", nchunk);
        if (!c->used) {
            nfree++;
            avail += c->size;
            mc_assert(nchunk < 2 || chunk[nchunk - 2].used, "adjacent free chunks were not merged");
        }
    }
    mc_assert(expect == region + (rsize & ~(size_t)1), "chunks do not cover the region");
    bfdev_list_for_each_entry(pos, &pool.free_list, free) {
        for (j = 0; j < nchunk && chunk[j].data != (uint8_t *)pos->data; ++j);
        mc_assert(j < nchunk && !chunk[j].used && chunk[j].forder < 0, "free list entry is no free chunk");
        chunk[j].forder = order++;
    }
    mc_assert(order == nfree, "%d free chunks but %d on the free list", nfree, order);
    mc_assert((pool.avail & ~(size_t)1) == avail, "avail %zu, free chunks hold %zu", pool.avail, avail);

    for (i = 0; i < nblk; ++i) {
        struct blk *b = &blk[i];
        mc_assert(!((uintptr_t)b->addr % sizeof(void *)), "block is not word aligned");
        for (j = 0; j < nchunk && chunk[j].data != b->addr; ++j);
        mc_assert(j < nchunk && chunk[j].used && chunk[j].size >= b->size, "block %d is not backed by a used chunk", i);
        for (k = 0; k < b->size; ++k)
            mc_assert(b->addr[k] == (uint8_t)(b->pat + k * 3), "byte %zu of block %d changed", k, i);
    }
    for (j = i = 0; j < nchunk; ++j)
        i += chunk[j].used;
    mc_assert(i == nblk, "%d used chunks for %d blocks", i, nblk);
    for (j = 0; j < nchunk; ++j) {
        size_t req = 0;
        for (i = 0; i < nblk; ++i)
            if (blk[i].addr == chunk[j].data)
                req = blk[i].size;
        h = mc_mix(h, chunk[j].size * 4 + chunk[j].used);
        h = mc_mix(h, mc_mix(req, chunk[j].forder));
    }
    return mc_mix(h, pool.avail);
}

static void
fill(struct blk *b, uint8_t *addr, size_t size, uint8_t pat)
{
    size_t k;
    b->addr = addr;
    b->size = size;
    b->pat = pat;
    for (k = 0; k < size; ++k)
        addr[k] = (uint8_t)(pat + k * 3);
}

/* the chunk the policy has to take, judged on the layout before the call */
static void
check_policy(void *addr, size_t size)
{
    size_t need = (size + BFDEV_MEMALLOC_ALIGN - 1) / BFDEV_MEMALLOC_ALIGN * BFDEV_MEMALLOC_ALIGN;
    size_t best = SIZE_MAX, worst = 0;
    int j, first = -1, got = -1;

    for (j = 0; j < nchunk; ++j) {
        if (chunk[j].used || chunk[j].size < need)
            continue;
        if (first < 0 || chunk[j].forder < chunk[first].forder)
            first = j;
        if (chunk[j].size < best)
            best = chunk[j].size;
        if (chunk[j].size > worst)
            worst = chunk[j].size;
        if (chunk[j].data == addr)
            got = j;
    }
    if (!addr) {
        mc_assert(first < 0 || !need, "request of %zu refused although a free chunk of %zu exists", size, worst);
        return;
    }
    mc_assert(got >= 0, "request of %zu served from no fitting free chunk", size);
    if (mc_arg % 3 == 0)
        mc_assert(got == first, "first fit took a later chunk");
    if (mc_arg % 3 == 1)
        mc_assert(chunk[got].size == best, "best fit took %zu although %zu fits", chunk[got].size, best);
    if (mc_arg % 3 == 2)
        mc_assert(chunk[got].size == worst, "worst fit took %zu although %zu is free", chunk[got].size, worst);
}

static void
one_free(int i)
{
    bfdev_memalloc_free(&pool, blk[i].addr);
    blk[i] = blk[--nblk];
}

static void
s_memalloc(void)
{
    static const bfdev_memalloc_find_t find[] = {
        bfdev_memalloc_first_fit, bfdev_memalloc_best_fit, bfdev_memalloc_worst_fit,
    };
    int depth = mc_bound, i, nsz, max = 2 + mc_arg / 3 % 4;
    size_t size, k;
    void *addr;
    uint8_t pat = 7;

    sizes = mc_arg >= 24 ? sizes_big : sizes_small;
    for (nsz = 0; sizes[nsz]; ++nsz);
    rsize = (mc_arg >= 12 ? 841 : 552);
    region = mc_buffer(rsize + 64);
    region += -(uintptr_t)region % 64;
    nblk = 0;
    region[rsize] = 0x5a;
    bfdev_memalloc_init(&pool, find[mc_arg % 3], region, rsize);

    for (;;) {
        uint64_t h = verify();
        mc_assert(region[rsize] == 0x5a, "byte behind the region changed");
        h = mc_mix(h, mc_graph(&pool, sizeof(pool)));
        if (!mc_next(h, &depth))
            break;
        pat += 41;
        switch (mc_choose(nblk ? 3 : 1)) {
        case 0:
            i = mc_choose(nsz + 3);
            size = i < nsz ? sizes[i] : i == nsz ? 0 : i == nsz + 1 ? SIZE_MAX : SIZE_MAX - 31;
            if (nblk == max && size && size < 1000)
                mc_prune();
            addr = bfdev_memalloc_alloc(&pool, size);
            mc_step("alloc %zu -> %s", size, addr ? "ok" : "refused");
            if (size > 2000) {
                mc_assert(!addr, "request of %zu bytes served", size);
                break;
            }
            check_policy(addr, size);
            if (!addr)
                break;
            if (nblk == max) {  /* zero size at the limit: give it back */
                bfdev_memalloc_free(&pool, addr);
                break;
            }
            fill(&blk[nblk++], addr, size, pat);
            break;
        case 1:
            i = mc_choose(nblk);
            mc_step("free block of %zu", blk[i].size);
            one_free(i);
            break;
        case 2: {
            int next, cur;
            size_t csz, old;
            uint8_t *was;
            bool fits;

            i = mc_choose(nblk);
            cur = mc_choose(nsz + 2);
            size = cur < nsz ? sizes[cur] : cur == nsz ? blk[i].size : SIZE_MAX - 5;
            old = blk[i].size;
            was = blk[i].addr;
            for (cur = 0; chunk[cur].data != was; ++cur);
            csz = chunk[cur].size;
            addr = bfdev_memalloc_realloc(&pool, was, size);
            mc_step("realloc block of %zu to %zu -> %s", old, size, !addr ? "refused" : addr == was ? "in place" : "moved");
            if (!addr) {
                mc_assert(size > csz, "realloc of a block of %zu to %zu refused", csz, size);
                mc_assert(size > 2000 || cur + 1 == nchunk || chunk[cur + 1].used ||
                          (uint8_t *)was + (size + 31) / 32 * 32 > chunk[cur + 1].data + chunk[cur + 1].size,
                          "realloc to %zu refused although the next chunk is free and large enough", size);
                for (next = 0, fits = false; next < nchunk; ++next)
                    fits |= !chunk[next].used && chunk[next].size >= (size + 31) / 32 * 32;
                mc_assert(size > 2000 || !fits, "realloc to %zu refused although a free chunk fits", size);
                break;
            }
            mc_assert(size < 2000, "realloc to %zu served", size);
            for (k = 0; k < old && k < size; ++k)
                mc_assert(((uint8_t *)addr)[k] == (uint8_t)(blk[i].pat + k * 3), "realloc lost byte %zu", k);
            if (addr != was)
                check_policy(addr, size);
            fill(&blk[i], addr, size, pat);
            break;
        }
        }
    }
    i = mc_choose(2);
    while (nblk) {
        one_free(i ? 0 : nblk - 1);
        verify();
    }
    mc_assert(nchunk == 1 && !chunk[0].used && chunk[0].size == ((rsize - sizeof(bfdev_memalloc_chunk_t)) & ~(size_t)1),
              "freeing everything leaves %d chunks", nchunk);
    /* the whole region can be handed out once more */
    addr = bfdev_memalloc_alloc(&pool, chunk[0].size / 32 * 32);
    mc_assert(addr == chunk[0].data, "the coalesced region cannot be allocated");
}

#define P(first, max) (first) + 3 * ((max) - 2)
const mc_scenario_t mc_scenarios[] = {
    { "first-fit", s_memalloc, { 7, 9 }, 0 + 3 * 1 },
    { "best-fit", s_memalloc, { 7, 9 }, 1 + 3 * 1 },
    { "worst-fit", s_memalloc, { 7, 9 }, 2 + 3 * 1 },
    { "first-fit-4", s_memalloc, { 5, 7 }, 12 + 0 + 3 * 2 },
    { "best-fit-4", s_memalloc, { 5, 7 }, 12 + 1 + 3 * 2 },
    { "worst-fit-4", s_memalloc, { 5, 7 }, 12 + 2 + 3 * 2 },
    { "first-fit-big", s_memalloc, { 6, 8 }, 24 + 0 + 3 * 2 },
    { "best-fit-big", s_memalloc, { 6, 8 }, 24 + 1 + 3 * 2 },
    { "worst-fit-big", s_memalloc, { 6, 8 }, 24 + 2 + 3 * 2 },
    { "memory-first-fit", s_memalloc, { 4, 5 }, 0 + 3 * 1, .graph = 1 },
    { NULL }
};
