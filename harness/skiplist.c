/*
 * Skip list: every insert/delete/reset history over a small key universe with
 * every outcome of the random tower height, and every allocation failure.
 */
#include "mc.h"
#include <bfdev/skiplist.h>

#define MAXN 8
static bfdev_skip_head_t *head;
static int count[8];            /* model: how often each key is stored */
static int n, maxn, nkeys, levels;
static int keys[8] = { 0, 1, 2, 3, 4, 5, 6, 7 };
static int marker, heights;

int
rand(void)
{
    /* each draw either extends the tower or ends it */
    int more = mc_choose(2);
    heights += more;
    return more ? 0 : RAND_MAX;
}

static long
cmp(const void *a, const void *b, void *pdata)
{
    mc_assert(pdata == &marker, "compare data lost");
    mc_assert((int *)a >= keys && (int *)a < keys + 8 && (int *)b >= keys && (int *)b < keys + 8, "compare called with a foreign key");
    return ((long)*(const int *)a - *(const int *)b) * 0x100000000L;
}

static long
find(const void *key, const void *pdata)
{
    mc_assert((int *)key >= keys && (int *)key < keys + 8, "find called with a foreign key");
    return ((long)*(const int *)key - *(const int *)pdata) * 0x100000000L;
}

static int released[8];
static void
release(void *key, void *pdata)
{
    mc_assert(pdata == &marker, "release data lost");
    mc_assert((int *)key >= keys && (int *)key < keys + 8, "foreign key released");
    released[(int *)key - keys]++;
}

static bfdev_skip_node_t *below[MAXN + 1], *level_seq[MAXN + 1];

static uint64_t
verify(void)
{
    uint64_t h = mc_mix(head->curr, n);
    bfdev_skip_node_t *pos, *tmp, *got[MAXN + 1];
    int nbelow = 0, i, j, k, len;

    for (k = 0; k < levels; ++k) {
        len = 0;
        bfdev_skiplist_for_each(pos, head, k) {
            mc_assert(len < n, "level %d does not end", k);
            mc_assert(mc_is_block(pos), "a freed node is linked at level %d", k);
            level_seq[len++] = pos;
        }
        h = mc_mix(h, len);
        if (k == 0) {
            int at = 0;
            mc_assert(len == n, "%d elements, expected %d", len, n);
            for (i = 0; i < nkeys; ++i)
                for (j = 0; j < count[i]; ++j, ++at)
                    mc_assert(level_seq[at]->key == &keys[i], "element %d is wrong", at);
        }
        if (k) {
            for (i = j = 0; i < len; ++i, ++j) {
                while (j < nbelow && below[j] != level_seq[i])
                    ++j;
                mc_assert(j < nbelow, "level %d is no ordered sublist of the one below", k);
                h = mc_mix(h, j);
            }
        } else
            for (i = 0; i < len; ++i)
                h = mc_mix(h, *(int *)level_seq[i]->key);
        j = len;
        bfdev_skiplist_for_each_reverse(pos, head, k) {
            mc_assert(j > 0 && level_seq[j - 1] == pos, "reverse traversal of level %d", k);
            j--;
        }
        mc_assert(!j, "reverse traversal of level %d ends early", k);
#define COLLECT(want, cnt, macro, args...) do {                          \
            int g = 0;                                              \
            macro(args) {                                           \
                mc_assert(g < n, #macro " does not end");           \
                got[g++] = pos;                                     \
            }                                                       \
            mc_assert(g == (cnt), #macro " visits %d, expected %d", g, cnt); \
            for (j = 0; j < g; ++j)                                 \
                mc_assert(got[j] == want, #macro " visit %d", j);   \
        } while (0)
        COLLECT(level_seq[j], len, bfdev_skiplist_for_each_safe, pos, tmp, head, k);
        COLLECT(level_seq[len - 1 - j], len, bfdev_skiplist_for_each_reverse_safe, pos, tmp, head, k);
        for (i = 0; i < len; ++i) {
            pos = level_seq[i]; COLLECT(level_seq[i + j], len - i, bfdev_skiplist_for_each_from, pos, head, k);
            pos = level_seq[i]; COLLECT(level_seq[i + 1 + j], len - i - 1, bfdev_skiplist_for_each_continue, pos, head, k);
            pos = level_seq[i]; COLLECT(level_seq[i - j], i + 1, bfdev_skiplist_for_each_reverse_from, pos, head, k);
            pos = level_seq[i]; COLLECT(level_seq[i - 1 - j], i, bfdev_skiplist_for_each_reverse_continue, pos, head, k);
            pos = level_seq[i]; COLLECT(level_seq[i + j], len - i, bfdev_skiplist_for_each_from_safe, pos, tmp, head, k);
            pos = level_seq[i]; COLLECT(level_seq[i + 1 + j], len - i - 1, bfdev_skiplist_for_each_continue_safe, pos, tmp, head, k);
            pos = level_seq[i]; COLLECT(level_seq[i - j], i + 1, bfdev_skiplist_for_each_reverse_from_safe, pos, tmp, head, k);
            pos = level_seq[i]; COLLECT(level_seq[i - 1 - j], i, bfdev_skiplist_for_each_reverse_continue_safe, pos, tmp, head, k);
        }
        memcpy(below, level_seq, sizeof(below));
        nbelow = len;
    }
    for (i = 0; i < nkeys; ++i) {
        pos = bfdev_skiplist_find(head, find, &keys[i]);
        mc_assert(!pos == !count[i], "find of key %d", i);
        mc_assert(!pos || (mc_is_block(pos) && pos->key == &keys[i]), "find of key %d returned another element", i);
    }
    mc_assert(mc_live == n + 1, "%ld blocks live for %d elements", mc_live, n);
    return h;
}

static void
check_released(bool called)
{
    int i;
    for (i = 0; i < nkeys; ++i)
        mc_assert(released[i] == (called ? count[i] : 0), "key %d released %d times, expected %d", i, released[i], count[i]);
}

/* elements with unique keys are deleted by a loop that allows for it */
static void
drop(bool back, int which)
{
    bfdev_skip_node_t *pos, *tmp;
    int visits = 0, total = n, i;

    mc_step("delete elements in a %s loop", back ? "reverse" : "forward");
#define DROP {                                                              \
    i = (int *)pos->key - keys;                                             \
    mc_assert(visits++ < total, "the loop does not end");                   \
    if (count[i] == 1 && (which == 2 || which == (visits & 1))) {           \
        bfdev_skiplist_delete(head, find, &keys[i]);                        \
        count[i] = 0;                                                       \
        n--;                                                                \
    }                                                                       \
}
    if (back)
        bfdev_skiplist_for_each_reverse_safe(pos, tmp, head, 0) DROP
    else
        bfdev_skiplist_for_each_safe(pos, tmp, head, 0) DROP
    mc_assert(visits == total, "the loop visited %d of %d elements", visits, total);
    verify();
}

static void
s_skip(void)
{
    int depth = mc_bound, i, ret;
    bool cb;

    maxn = mc_arg & 15;
    nkeys = (mc_arg >> 4) & 15;
    levels = (mc_arg >> 8) & 15;
    memset(count, 0, sizeof(count));
    n = 0;
    mc_assert(!bfdev_skiplist_create(&mc_alloc, 0), "created without levels");
    mc_fault_budget = mc_arg >> 12;
    head = bfdev_skiplist_create(&mc_alloc, levels);
    if (!head) {
        mc_assert(mc_faults == 1 && !mc_live, "create");
        return;
    }
    for (;;) {
        int save = mc_fault_budget;
        uint64_t h = mc_mix(verify(), save);
        h = mc_mix(h, mc_graph(head, mc_block_size(head)));
        if (!mc_next(h, &depth))
            break;
        switch (mc_choose(n < maxn ? 3 : 2)) {
            case 0:
                i = mc_choose(nkeys);
                mc_step("delete key %d", i);
                bfdev_skiplist_delete(head, find, &keys[i]);
                if (count[i]) {
                    count[i]--;
                    n--;
                }
                break;
            case 1:
                cb = mc_choose(2);
                memset(released, 0, sizeof(released));
                mc_step("reset");
                bfdev_skiplist_reset(head, cb ? release : NULL, &marker);
                check_released(cb);
                memset(count, 0, sizeof(count));
                n = 0;
                break;
            case 2: {
                int faults = mc_faults;
                i = mc_choose(nkeys);
                heights = 1;
                ret = bfdev_skiplist_insert(head, &keys[i], cmp, &marker);
                mc_step("insert key %d (height up to %d) -> %d", i, heights, ret);
                if (mc_faults != faults)
                    mc_assert(ret == -BFDEV_ENOMEM, "failed insert returned %d", ret);
                else {
                    mc_assert(ret == 0, "insert returned %d", ret);
                    count[i]++;
                    n++;
                }
                break;
            }
        }
    }
    i = mc_choose(7);
    if (i--)
        drop(i % 2, i / 2);
    memset(released, 0, sizeof(released));
    bfdev_skiplist_destroy(head, release, &marker);
    check_released(true);
    mc_no_leaks("skiplist");
}

const mc_scenario_t mc_scenarios[] = {
    { "three-levels", s_skip, { 40, 40 }, 4 + (3 << 4) + (3 << 8), .graph = 1 },
    { "one-level", s_skip, { 40, 40 }, 5 + (3 << 4) + (1 << 8), .graph = 1 },
    { "two-levels", s_skip, { 40, 40 }, 5 + (4 << 4) + (2 << 8), .graph = 1 },
    { "three-levels-faults", s_skip, { 40, 40 }, 3 + (3 << 4) + (3 << 8) + (2 << 12), .graph = 1 },
    { "four-levels", s_skip, { 40, 40 }, 5 + (3 << 4) + (4 << 8), .graph = 1 },
    { "four-levels-faults", s_skip, { 40, 40 }, 4 + (4 << 4) + (4 << 8) + (1 << 12), .graph = 1 },
    { NULL }
};
