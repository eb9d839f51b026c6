/*
 * Radix tree: every alloc/free/charge/release history over indexes around
 * each block and level boundary, for several cell types, with allocation
 * failures.
 */
#include "mc.h"
#include <bfdev/radix.h>

#define NI 10
struct c12 { uint8_t b[12]; };
struct c256 { uint8_t b[256]; };
struct c100 { uint8_t b[100]; };

static uintptr_t idx[NI];       /* ascending */
static int nidx;
static size_t cells;
static uint8_t *addr[NI];       /* model: address of each allocated cell, or NULL */

static void
pick_indexes(const char *sel)
{
    uintptr_t num = 256 / cells, max = num * ((uintptr_t)-1 / 256) + (num - 1);
    uintptr_t all[] = {
        0, 1, num - 1, num, 2 * num - 1,                        /* a-e: first blocks */
        num * 32 - 1, num * 32, num * 33 + (num > 1),           /* f-h: level 1/2 */
        num * 1024 - 1, num * 1024, num * (1024 + 37) + num / 2,/* i-k: level 2/3 */
        num * (1024 * 3 + 2),                                   /* l */
        num << 30, num << 54, num << 55, max,                   /* m-p: the top levels */
    };
    int i, j;

    nidx = 0;
    for (; *sel; ++sel) {
        uintptr_t v = all[*sel - 'a'];
        for (i = 0; i < nidx && idx[i] < v; ++i);
        if (i < nidx && idx[i] == v)
            continue;
        for (j = nidx++; j > i; --j)
            idx[j] = idx[j - 1];
        idx[i] = v;
    }
}

static uint64_t
shape(bfdev_radix_node_t *node, unsigned level)
{
    uint64_t h = level;
    unsigned i;

    if (!node)
        return 1;
    mc_assert(mc_is_block(node), "a freed node is linked");
    if (level) {
        for (i = 0; i < BFDEV_RADIX_ARY; ++i)
            if (node->child[i])
                h = mc_mix(mc_mix(h, i), shape(node->child[i], level - 1));
        return mc_mix(h, node->refcount);
    }
    return mc_mix_bytes(h, node->bitmap, sizeof(node->bitmap));
}

static int
pos_of(uintptr_t index)
{
    int i;
    for (i = 0; i < nidx; ++i)
        if (idx[i] == index)
            return i;
    mc_fail("iteration reported index %lu which was never used", index);
}

static void
fill(int i)
{
    size_t k;
    for (k = 0; k < cells; ++k)
        addr[i][k] = 0x30 + i * 16 + k;
}

static int list[NI], nlist;

#define CHECK_SEQ(what, from, dir, count) do {                                  \
    int _k;                                                                     \
    mc_assert(ngot == (count), what " visited %d cells, expected %d", ngot, count); \
    for (_k = 0; _k < ngot; ++_k)                                                 \
        mc_assert(got[_k] == list[(from) + (dir) * _k], what ": visit %d is wrong", _k); \
} while (0)
#define SEE(val) do {                                                           \
    int _i = pos_of(index);                                                     \
    mc_assert(ngot < nlist, "iteration does not end");                          \
    mc_assert((uint8_t *)(val) == addr[_i], "iteration: wrong address or index %lu", index); \
    got[ngot++] = _i;                                                           \
} while (0)

#define DROP(name) {                                                            \
    i = pos_of(index);                                                          \
    mc_assert(n < nlist && i == list[back ? nlist - 1 - n : n], "visit %d of the loop is wrong", n); \
    mc_assert((uint8_t *)val == addr[i], "loop: wrong address of index %lu", index); \
    if (keep == 2 || keep == (n & 1)) {                                         \
        mc_assert(!bfdev_radix_free(&tree_##name, index), "free in the loop");  \
        addr[i] = NULL;                                                         \
    }                                                                           \
    n++;                                                                        \
}

#define SCENARIO(name, type)                                                    \
static BFDEV_DECLARE_RADIX(tree_##name, type);                                  \
static uint64_t                                                                 \
verify_##name(void)                                                             \
{                                                                               \
    uintptr_t index, tidx, index2, tidx2;                                       \
    int i, j, got[NI], ngot;                                                    \
    type *val, *tval;                                                           \
    size_t k;                                                                   \
                                                                                \
    nlist = 0;                                                                  \
    for (i = 0; i < nidx; ++i) {                                                \
        val = bfdev_radix_find(&tree_##name, idx[i]);                           \
        mc_assert((uint8_t *)val == addr[i], "find of index %lu: %s", idx[i],   \
                  !val ? "missing" : addr[i] ? "moved" : "found although never allocated or freed"); \
        if (!val) {                                                             \
            index = idx[i];                                                     \
            mc_assert(!bfdev_radix_next(&tree_##name, &index), "an absent cell has a next one"); \
            index = idx[i];                                                     \
            mc_assert(!bfdev_radix_prev(&tree_##name, &index), "an absent cell has a previous one"); \
            continue;                                                           \
        }                                                                       \
        list[nlist++] = i;                                                      \
        for (k = 0; k < cells; ++k)                                             \
            mc_assert(addr[i][k] == (uint8_t)(0x30 + i * 16 + k), "content of index %lu changed", idx[i]); \
        for (j = 0; j < i; ++j)                                                 \
            mc_assert(!addr[j] || addr[i] + cells <= addr[j] || addr[j] + cells <= addr[i], "cells overlap"); \
    }                                                                           \
    ngot = 0;                                                                   \
    bfdev_radix_for_each(val, &tree_##name, &index) SEE(val);                   \
    CHECK_SEQ("for_each", 0, 1, nlist);                                         \
    ngot = 0;                                                                   \
    bfdev_radix_for_each_reverse(val, &tree_##name, &index) SEE(val);           \
    CHECK_SEQ("for_each_reverse", nlist - 1, -1, nlist);                        \
    ngot = 0;                                                                   \
    bfdev_radix_for_each_safe(val, &tree_##name, &index, tval, &tidx) SEE(val); \
    CHECK_SEQ("for_each_safe", 0, 1, nlist);                                    \
    ngot = 0;                                                                   \
    bfdev_radix_for_each_reverse_safe(val, &tree_##name, &index, tval, &tidx) SEE(val); \
    CHECK_SEQ("for_each_reverse_safe", nlist - 1, -1, nlist);                   \
    for (i = 0; i < nlist; ++i) {                                               \
        index2 = index = idx[list[i]];                                          \
        val = (void *)addr[list[i]];                                            \
        ngot = 0;                                                               \
        bfdev_radix_for_each_form(val, &tree_##name, &index) SEE(val);          \
        CHECK_SEQ("for_each_form", i, 1, nlist - i);                            \
        index = index2; ngot = 0;                                               \
        bfdev_radix_for_each_continue(val, &tree_##name, &index) SEE(val);      \
        CHECK_SEQ("for_each_continue", i + 1, 1, nlist - i - 1);                \
        index = index2; ngot = 0; val = (void *)addr[list[i]];                  \
        bfdev_radix_for_each_reverse_form(val, &tree_##name, &index) SEE(val);  \
        CHECK_SEQ("for_each_reverse_form", i, -1, i + 1);                       \
        index = index2; ngot = 0;                                               \
        bfdev_radix_for_each_reverse_continue(val, &tree_##name, &index) SEE(val); \
        CHECK_SEQ("for_each_reverse_continue", i - 1, -1, i);                   \
        /* the safe continuations resume an interrupted safe loop */            \
        index = index2; tidx = index2; ngot = 0; val = (void *)addr[list[i]];   \
        tval = bfdev_radix_next(&tree_##name, &tidx);                           \
        tidx2 = tidx;                                                           \
        bfdev_radix_for_each_form_safe(val, &tree_##name, &index, tval, &tidx) SEE(val); \
        CHECK_SEQ("for_each_form_safe", i, 1, nlist - i);                       \
        index = index2; tidx = tidx2; ngot = 0; val = (void *)addr[list[i]];    \
        tval = i + 1 < nlist ? (void *)addr[list[i + 1]] : NULL;                \
        bfdev_radix_for_each_continue_safe(val, &tree_##name, &index, tval, &tidx) SEE(val); \
        CHECK_SEQ("for_each_continue_safe", i + 1, 1, nlist - i - 1);           \
        index = index2; tidx = index2; ngot = 0; val = (void *)addr[list[i]];   \
        tval = bfdev_radix_prev(&tree_##name, &tidx);                           \
        tidx2 = tidx;                                                           \
        bfdev_radix_for_each_reverse_form_safe(val, &tree_##name, &index, tval, &tidx) SEE(val); \
        CHECK_SEQ("for_each_reverse_form_safe", i, -1, i + 1);                  \
        index = index2; tidx = tidx2; ngot = 0; val = (void *)addr[list[i]];    \
        tval = i ? (void *)addr[list[i - 1]] : NULL;                            \
        bfdev_radix_for_each_reverse_continue_safe(val, &tree_##name, &index, tval, &tidx) SEE(val); \
        CHECK_SEQ("for_each_reverse_continue_safe", i - 1, -1, i);              \
    }                                                                           \
    return mc_mix(tree_##name.tree.level, shape(tree_##name.tree.node, tree_##name.tree.level)); \
}                                                                               \
                                                                                \
static void                                                                     \
s_##name(void)                                                                  \
{                                                                               \
    int depth = mc_bound, i, j, ret, faults;                                    \
    size_t count;                                                               \
    type *val;                                                                  \
                                                                                \
    cells = sizeof(type);                                                       \
    pick_indexes(selections[mc_arg & 15]);                                      \
    memset(addr, 0, sizeof(addr));                                              \
    mc_fault_budget = mc_arg >> 4;                                              \
    tree_##name = BFDEV_RADIX_INIT(&tree_##name, &mc_alloc);                    \
    for (;;) {                                                                  \
        uint64_t h = verify_##name();                                           \
        h = mc_mix(h, mc_graph(&tree_##name, sizeof(tree_##name)));             \
        if (!mc_next(mc_mix(h, mc_fault_budget), &depth))                       \
            break;                                                              \
        faults = mc_faults;                                                     \
        switch (mc_choose(mc_arg & 8 ? 4 : 3)) {                                \
        case 0:                                                                 \
            i = mc_choose(nidx);                                                \
            if (addr[i] && mc_choose(2)) {                                      \
                mc_step("alloc index %lu again", idx[i]);                       \
                val = bfdev_radix_alloc(&tree_##name, idx[i]);                  \
                mc_assert((uint8_t *)val == addr[i], "second alloc of index %lu", idx[i]); \
            } else if (addr[i]) {                                               \
                ret = bfdev_radix_free(&tree_##name, idx[i]);                   \
                mc_step("free index %lu -> %d", idx[i], ret);                   \
                mc_assert(!ret, "free returned %d", ret);                       \
                addr[i] = NULL;                                                 \
            } else if (mc_choose(2)) {                                          \
                ret = bfdev_radix_free(&tree_##name, idx[i]);                   \
                mc_step("free absent index %lu -> %d", idx[i], ret);            \
                mc_assert(ret == -BFDEV_ENOENT, "free of an absent cell returned %d", ret); \
            } else {                                                            \
                val = bfdev_radix_alloc(&tree_##name, idx[i]);                  \
                mc_step("alloc index %lu -> %s", idx[i], val ? "ok" : "failed");\
                mc_assert(!val == (mc_faults != faults), "alloc of index %lu", idx[i]); \
                if ((addr[i] = (void *)val))                                    \
                    fill(i);                                                    \
            }                                                                   \
            break;                                                              \
        case 1:                                                                 \
            mc_step("release");                                                 \
            bfdev_radix_release(&tree_##name);                                  \
            mc_no_leaks("released radix tree");                                 \
            memset(addr, 0, sizeof(addr));                                      \
            break;                                                              \
        case 2: /* cells are freed by a loop that allows for it */              \
            {                                                                   \
                int back = mc_choose(2), keep = mc_choose(3), n = 0;            \
                uintptr_t index, tidx;                                          \
                type *tval;                                                     \
                mc_step("free %s cells in a %s loop", keep == 2 ? "all" : keep ? "the odd" : "the even", back ? "reverse" : "forward"); \
                if (back) {                                                     \
                    bfdev_radix_for_each_reverse_safe(val, &tree_##name, &index, tval, &tidx) \
                        DROP(name);                                             \
                } else {                                                        \
                    bfdev_radix_for_each_safe(val, &tree_##name, &index, tval, &tidx) \
                        DROP(name);                                             \
                }                                                               \
                mc_assert(n == nlist, "the loop visited %d of %d cells", n, nlist); \
            }                                                                   \
            break;                                                              \
        case 3:                                                                 \
            i = mc_choose(nidx);                                                \
            count = (size_t[]){ 1, 256 / cells, 256 / cells + 1, 600 / cells }[mc_choose(4)]; \
            if (bfdev_radix_offset(idx[i], cells) + bfdev_radix_offset(count, cells) < bfdev_radix_offset(idx[i], cells)) { \
                mc_step("charge beyond the end");                               \
                mc_assert(bfdev_radix_charge(&tree_##name, idx[i], count) == -BFDEV_EOVERFLOW, "overflowing charge"); \
                break;                                                          \
            }                                                                   \
            ret = bfdev_radix_charge(&tree_##name, idx[i], count);              \
            mc_step("charge %lu..+%zu -> %d", idx[i], count, ret);              \
            mc_assert(ret == (mc_faults != faults ? -BFDEV_ENOMEM : 0), "charge returned %d", ret); \
            /* cells of the range may now be present */                         \
            {                                                                   \
                uintptr_t c;                                                    \
                int save = mc_fault_budget;                                     \
                long live = mc_live;                                            \
                mc_fault_budget = 0;                                            \
                for (c = 0; c < count; ++c) {                                   \
                    for (j = 0; j < nidx && idx[j] != idx[i] + c; ++j);         \
                    if (j < nidx && !addr[j] && (addr[j] = (void *)bfdev_radix_find(&tree_##name, idx[j]))) \
                        fill(j);                                                \
                }                                                               \
                /* other cells it marked are dropped again */                   \
                for (c = 0; c < count; ++c) {                                   \
                    for (j = 0; j < nidx && idx[j] != idx[i] + c; ++j);         \
                    if (j < nidx)                                               \
                        continue;                                               \
                    if (!ret) {                                                 \
                        mc_assert(bfdev_radix_alloc(&tree_##name, idx[i] + c), "alloc in a charged range"); \
                        mc_assert(mc_live == live, "index %lu was not charged", idx[i] + c); \
                    }                                                           \
                }                                                               \
                for (c = 0; c < count; ++c) {                                   \
                    for (j = 0; j < nidx && idx[j] != idx[i] + c; ++j);         \
                    if (j == nidx && bfdev_radix_find(&tree_##name, idx[i] + c)) \
                        bfdev_radix_free(&tree_##name, idx[i] + c);             \
                }                                                               \
                mc_fault_budget = save;                                         \
            }                                                                   \
            break;                                                              \
        }                                                                       \
    }                                                                           \
    bfdev_radix_release(&tree_##name);                                          \
    mc_no_leaks("released radix tree");                                         \
}

static const char *const selections[16] = {
    "abdgjm", "abcdef", "efghijk", "ajknop", "ghijklp", "lmnop", "adgjlmop", "abcdefgijp",
    /* 8..: with charge */
    "acdg", "adfh", "dfgi", "abcd",
};

SCENARIO(u32, uint32_t)
SCENARIO(u8, uint8_t)
SCENARIO(c12, struct c12)
SCENARIO(c100, struct c100)
SCENARIO(c256, struct c256)

#define FAULTS(k) ((k) << 4)
const mc_scenario_t mc_scenarios[] = {
    { "u32-low", s_u32, { 60, 60 }, 0, .graph = 1 },
    { "u32-first-blocks", s_u32, { 60, 60 }, 1, .graph = 1 },
    { "u32-level-edges", s_u32, { 60, 60 }, 2, .graph = 1 },
    { "u32-top", s_u32, { 60, 60 }, 3, .graph = 1 },
    { "u8-middle", s_u8, { 60, 60 }, 4, .graph = 1 },
    { "u8-high", s_u8, { 60, 60 }, 5, .graph = 1 },
    { "cells12-low", s_c12, { 60, 60 }, 0, .graph = 1 },
    { "cells12-edges", s_c12, { 60, 60 }, 2, .graph = 1 },
    { "cells12-top", s_c12, { 60, 60 }, 3, .graph = 1 },
    { "cells100-low", s_c100, { 60, 60 }, 0, .graph = 1 },
    { "cells256-low", s_c256, { 60, 60 }, 0, .graph = 1 },
    { "cells256-top", s_c256, { 60, 60 }, 3, .graph = 1 },
    { "u32-charge", s_u32, { 60, 60 }, 8, .graph = 1 },
    { "cells12-charge", s_c12, { 60, 60 }, 9, .graph = 1 },
    { "u32-charge-edges", s_u32, { 60, 60 }, 10, .graph = 1 },
    { "u32-faults", s_u32, { 60, 60 }, 0 + FAULTS(2), .graph = 1 },
    { "u32-top-faults", s_u32, { 60, 60 }, 3 + FAULTS(1), .graph = 1 },
    { "cells12-faults", s_c12, { 60, 60 }, 2 + FAULTS(1), .graph = 1 },
    { "u32-charge-faults", s_u32, { 60, 60 }, 10 + FAULTS(1), .graph = 1 },
    { "u32-wide", s_u32, { 60, 60 }, 6, .graph = 1 },
    { "u32-wide-low", s_u32, { 60, 60 }, 7, .graph = 1 },
    { "cells100-wide", s_c100, { 60, 60 }, 6, .graph = 1 },
    { NULL }
};
