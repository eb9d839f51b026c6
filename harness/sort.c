/*
 * Array sort, list sort and binary search over every small input.
 * The compare callbacks also check that they are only given real elements.
 */
#include "mc.h"
#include <bfdev/sort.h>
#include <bfdev/list.h>
#include <bfdev/bsearch.h>

static int n, nkeys, dir;
static long scale;
static unsigned char *base;
static size_t cells;
static int key[20];

/* fills key[] with every array (mode 0) or every permutation (mode 1) */
static uint64_t
pick(int maxlen, int alphabet, int perm)
{
    uint64_t h = 3;
    int i, j, k;

    if (perm) {
        n = maxlen;
        unsigned used = 0;
        for (i = 0; i < n; ++i) {
            j = mc_choose(n - i);
            for (k = 0; ; ++k)
                if (!(used & (1u << k)) && !j--)
                    break;
            used |= 1u << k;
            key[i] = k;
        }
        nkeys = n;
    } else {
        n = mc_choose(maxlen + 1);
        nkeys = alphabet ?: n;
        for (i = 0; i < n; ++i)
            key[i] = mc_choose(nkeys);
    }
    for (i = 0; i < n; ++i)
        h = mc_mix(h, key[i]);
    return mc_mix(h, n * 64 + perm);
}

/*
 * Ascending or descending; results as close to zero as they get, or so
 * wide that a truncated result would lose its sign.
 */
static void
choose_order(void)
{
    dir = mc_choose(2) ? -1 : 1;
    scale = mc_choose(2) ? 0x100000000L : 1;
}

static long
acmp(const void *a, const void *b, void *pdata)
{
    const unsigned char *x = a, *y = b;
    mc_assert(pdata == (void *)&cells, "compare data lost");
    mc_assert(x >= base && x + cells <= base + n * cells && (x - base) % cells == 0, "compare called outside the array");
    mc_assert(y >= base && y + cells <= base + n * cells && (y - base) % cells == 0, "compare called outside the array");
    return ((long)*x - *y) * dir * scale;
}

static void
s_array(void)
{
    static const int sizes[] = { 1, 2, 3, 4, 8, 12, 24 };
    int i, seen[20] = { 0 }, total[20] = { 0 }, ret;
    uint64_t h;

    cells = sizes[mc_choose(MC_ARRAY_SIZE(sizes))];
    choose_order();
    h = pick(mc_bound & 255, (mc_bound >> 8) & 255, mc_bound >> 16);
    base = mc_buffer(n * cells ?: 1);
    for (i = 0; i < n; ++i) {
        memset(base + i * cells, 0x40 + i, cells);
        base[i * cells] = key[i];
        total[key[i]]++;
    }
    mc_trace("array of %d cells of %zu bytes", n, cells);
    for (i = 0; i < n; ++i)
        mc_trace("  key %d", key[i]);
    mc_case(mc_mix(h, cells) + dir + scale);
    ret = bfdev_sort(base, n, cells, acmp, &cells);
    mc_step("sort -> %d", ret);
    mc_assert(n < 2 || ret == 0, "sort of %d elements returned %d", n, ret);
    for (i = 0; i < n; ++i) {
        unsigned char *cell = base + i * cells;
        mc_assert(i == 0 || dir * (cell[0] - cell[-(long)cells]) >= 0, "elements %d and %d are unordered", i - 1, i);
        mc_assert(cell[0] < nkeys && total[cell[0]]-- > 0, "keys were not preserved");
        if (cells > 1) {
            int id = cell[cells - 1] - 0x40;
            size_t j;
            mc_assert(id >= 0 && id < n && !seen[id]++, "an element was lost or duplicated");
            mc_assert(cell[0] == key[id], "an element was torn");
            for (j = 1; j < cells; ++j)
                mc_assert(cell[j] == 0x40 + id, "an element was torn");
        }
    }
}

struct ent {
    long pad;
    bfdev_list_head_t list;
    int key, id;
};

static bfdev_list_head_t *head;

static long
lcmp(const bfdev_list_head_t *a, const bfdev_list_head_t *b, void *pdata)
{
    mc_assert(pdata == (void *)&cells, "compare data lost");
    mc_assert(a != head && b != head, "compare called with the list head");
    return ((long)bfdev_list_entry(a, struct ent, list)->key - bfdev_list_entry(b, struct ent, list)->key) * dir * scale;
}

static void
s_list(void)
{
    struct ent *ents, *e, *prev = NULL;
    int i, count = 0, seen[20] = { 0 };
    uint64_t h;

    choose_order();
    h = pick(mc_bound & 255, (mc_bound >> 8) & 255, mc_bound >> 16);
    head = mc_malloc(sizeof(*head));
    ents = mc_malloc(sizeof(*ents) * (n ?: 1));
    bfdev_list_head_init(head);
    for (i = 0; i < n; ++i) {
        ents[i].key = key[i];
        ents[i].id = i;
        bfdev_list_add_prev(head, &ents[i].list);
        mc_trace("  key %d", key[i]);
    }
    mc_case(mc_mix(h, dir + 7 + scale));
    mc_step("list sort of %d", n);
    bfdev_list_sort(head, lcmp, &cells);
    bfdev_list_for_each_entry(e, head, list) {
        mc_assert(++count <= n, "the list does not end");
        mc_assert(e >= ents && e < ents + n && !seen[e->id]++, "a node was lost or duplicated");
        if (prev) {
            mc_assert(dir * (e->key - prev->key) >= 0, "nodes %d and %d are unordered", prev->id, e->id);
            mc_assert(e->key != prev->key || e->id > prev->id, "equal nodes %d and %d changed their order", prev->id, e->id);
        }
        mc_assert(e->list.prev == (prev ? &prev->list : head), "prev link of node %d", e->id);
        prev = e;
    }
    mc_assert(count == n, "%d nodes, expected %d", count, n);
    mc_assert(head->prev == (prev ? &prev->list : head), "prev link of the head");
}

static long
find(const void *elem, const void *pdata)
{
    const unsigned char *x = elem;
    mc_assert(x >= base && x + cells <= base + n * cells && (x - base) % cells == 0, "find called outside the array");
    return ((long)*x - *(const int *)pdata) * scale;
}

static void
s_search(void)
{
    static const int sizes[] = { 1, 3, 8 };
    int i, want, has = 0;
    unsigned char *res;

    cells = sizes[mc_choose(MC_ARRAY_SIZE(sizes))];
    scale = mc_choose(2) ? 0x100000000L : 1;
    n = mc_choose(mc_bound + 1);
    base = mc_buffer(n * cells ?: 1);
    nkeys = 4;
    want = mc_choose(2 * nkeys + 1);
    for (i = 0; i < n; ++i) {
        int prev = i ? base[(i - 1) * cells] : 1;
        key[i] = prev + 2 * mc_choose((2 * nkeys - 1 - prev) / 2 + 1);
        base[i * cells] = key[i];
        has |= key[i] == want;
        mc_trace("  key %d", key[i]);
    }
    mc_case(mc_mix_bytes(scale + want * 100 + n, base, n * cells) + cells);
    res = bfdev_bsearch(base, n, cells, find, &want);
    mc_step("search %d in %d -> %p", want, n, res);
    if (!has)
        mc_assert(!res, "an absent key was found");
    else {
        mc_assert(res, "a present key was not found");
        mc_assert(res >= base && res < base + n * cells && (res - base) % cells == 0 && *res == want, "wrong element found");
    }
    mc_assert(bfdev_bsearch_inline(base, n, cells, find, &want) == res, "inline search differs");
}

#define ALL(len) (len)
#define ALPHA(len, k) ((len) | (k) << 8)
#define PERM(len) ((len) | 1 << 16)
const mc_scenario_t mc_scenarios[] = {
    { "array-all-orders", s_array, { ALL(6), ALL(7) }, 0, 5 },
    { "array-three-keys", s_array, { ALPHA(9, 3), ALPHA(11, 3) }, 0, 5 },
    { "array-two-keys", s_array, { ALPHA(14, 2), ALPHA(18, 2) }, 0, 5 },
    { "array-permutations", s_array, { PERM(8), PERM(9) }, 0, 5 },
    { "list-all-orders", s_list, { ALL(7), ALL(8) }, 0, 4 },
    { "list-three-keys", s_list, { ALPHA(11, 3), ALPHA(13, 3) }, 0, 4 },
    { "list-two-keys", s_list, { ALPHA(17, 2), ALPHA(19, 2) }, 0, 4 },
    { "list-permutations", s_list, { PERM(8), PERM(9) }, 0, 4 },
    { "bsearch", s_search, { 14, 20 }, 0, 3 },
    { NULL }
};
