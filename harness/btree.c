/*
 * B+tree: every insert/remove/update history over a small key universe for
 * several node geometries, with allocation failures, clash and remove hooks.
 */
#include "mc.h"
#include <bfdev/btree.h>

#define NK 16

static int nkeys, keylen;
static uintptr_t key[NK][2];        /* ascending */
static char val[NK][2];
static void *model[NK];             /* current value, NULL: absent */
static bfdev_btree_root_t tree;
static bfdev_btree_layout_t layout;
static int nodes;

/* environment answers */
static int clash_calls, remove_calls, clash_ret;
static void *clash_old, *clash_new, *remove_value, *remove_ret;

static int
key_index(const uintptr_t *k)
{
    int i;
    for (i = 0; i < nkeys; ++i)
        if (k[0] == key[i][0] && (keylen == 1 || k[1] == key[i][1]))
            return i;
    return -1;
}

static long
my_find(bfdev_btree_root_t *root, uintptr_t *node, uintptr_t *k)
{
    mc_assert(root == &tree, "comparison for a foreign tree");
    mc_assert(key_index(k) >= 0, "comparison with a key nobody passed");
    mc_assert((!node[0] && (keylen == 1 || !node[1])) || key_index(node) >= 0, "something that is no key was compared");
    return bfdev_btree_key_find(root, node, k);
}

static int
my_clash(bfdev_btree_root_t *root, void *clash, void *value)
{
    clash_calls++;
    clash_old = clash;
    clash_new = value;
    return clash_ret;
}

static void *
my_remove(bfdev_btree_root_t *root, void *value)
{
    remove_calls++;
    remove_value = value;
    return remove_ret;
}

static const bfdev_btree_ops_t ops_plain = {
    .alloc = bfdev_btree_alloc, .free = bfdev_btree_free, .find = my_find,
};
static const bfdev_btree_ops_t ops_hooks = {
    .alloc = bfdev_btree_alloc, .free = bfdev_btree_free, .find = my_find,
    .clash = my_clash, .remove = my_remove,
};

static uint64_t
walk(bfdev_btree_node_t *node, unsigned height, int *lo)
{
    unsigned i, fill;
    uint64_t h = height;
    bool end = false;

    nodes++;
    mc_assert(mc_is_block(node), "tree refers to a node that is not allocated");
    for (fill = i = 0; i < layout.keynum; ++i) {
        if (!node->block[layout.ptrindex + i]) {
            end = true;
            continue;
        }
        mc_assert(!end, "hole in a node");
        fill++;
    }
    for (i = 0; i < fill; ++i) {
        int k = key_index(&node->block[i * keylen]);
        void *p = (void *)node->block[layout.ptrindex + i];
        if (height == 1) {
            mc_assert(k >= 0 && k < *lo, "leaf keys out of order");
            mc_assert(model[k] == p, "entry %d in the tree differs from the model", k);
            *lo = k;
        } else {
            h = mc_mix(h, walk(p, height - 1, lo));
            mc_assert(k <= *lo, "separator above a key of its child");
        }
        h = mc_mix(h, k);
    }
    mc_assert(fill || node == tree.node, "empty node");
    /* what is left behind the entries is part of the state as well */
    for (i = fill * keylen; i < layout.keynum * keylen; ++i)
        h = mc_mix(h, node->block[i]);
    return h;
}

#define ROUND(name, start, step, nexp, loop) do {                               \
    int at = start, seen = 0;                                                   \
    loop {                                                                      \
        mc_assert(seen < nexp, name " visits too many entries");                \
        mc_assert(key_index(k) == list[at] && value == model[list[at]],         \
                  name ": entry %d is wrong", seen);                            \
        at += step;                                                             \
        seen++;                                                                 \
    }                                                                           \
    mc_assert(seen == nexp, name " visits %d of %d entries", seen, nexp);       \
} while (0)

static uint64_t
verify(void)
{
    int i, list[NK], n = 0, lo = NK;
    uintptr_t k[2], t[2];
    void *value, *tval;
    uint64_t h;

    if (mc_verified())
        return 0;
    nodes = 0;
    h = tree.node ? walk(tree.node, tree.height, &lo) : 0;
    mc_assert(nodes == mc_live, "%d nodes in the tree, %ld allocated", nodes, mc_live);
    for (i = nkeys; i--; ) {
        memcpy(k, key[i], sizeof(k));
        value = bfdev_btree_lookup(&tree, k);
        mc_assert(value == model[i], "lookup of key %d: %s", i, value ? model[i] ? "wrong value" : "found although absent" : "missing");
        if (model[i])
            list[n++] = i;
    }
    ROUND("for_each", 0, 1, n, bfdev_btree_for_each(&tree, k, value));
    ROUND("for_each_reverse", n - 1, -1, n, bfdev_btree_for_each_reverse(&tree, k, value));
    ROUND("for_each_safe", 0, 1, n, bfdev_btree_for_each_safe(&tree, k, value, t, tval));
    ROUND("for_each_reverse_safe", n - 1, -1, n, bfdev_btree_for_each_reverse_safe(&tree, k, value, t, tval));
    for (i = 0; i < n; ++i) {
#define AT() (memcpy(k, key[list[i]], sizeof(k)), value = model[list[i]])
        AT();
        ROUND("for_each_from", i, 1, n - i, bfdev_btree_for_each_from(&tree, k, value));
        AT();
        ROUND("for_each_reverse_from", i, -1, i + 1, bfdev_btree_for_each_reverse_from(&tree, k, value));
        AT();
        ROUND("for_each_continue", i + 1, 1, n - i - 1, bfdev_btree_for_each_continue(&tree, k, value));
        AT();
        ROUND("for_each_reverse_continue", i - 1, -1, i, bfdev_btree_for_each_reverse_continue(&tree, k, value));
        AT();
        ROUND("for_each_from_safe", i, 1, n - i, bfdev_btree_for_each_from_safe(&tree, k, value, t, tval));
        AT();
        ROUND("for_each_reverse_from_safe", i, -1, i + 1, bfdev_btree_for_each_reverse_from_safe(&tree, k, value, t, tval));
        AT();
        ROUND("for_each_continue_safe", i + 1, 1, n - i - 1, bfdev_btree_for_each_continue_safe(&tree, k, value, t, tval));
        AT();
        ROUND("for_each_reverse_continue_safe", i - 1, -1, i, bfdev_btree_for_each_reverse_continue_safe(&tree, k, value, t, tval));
    }
    return mc_mix(h, tree.height);
}

static int released;
static void
my_release(void *node, void *pdata)
{
    int i;
    mc_assert(pdata == &released, "release hook got other data");
    for (i = 0; i < nkeys && model[i] != node; ++i);
    mc_assert(i < nkeys, "release hook called for something not in the tree");
    model[i] = NULL;
    released++;
}

static void
s_btree(void)
{
    int depth = mc_bound, i, j, ret, count, faults, keynum = mc_arg % 100, type = mc_arg / 1000;
    bool hooks = type == 1;
    uintptr_t k[2], t[2];
    void *value, *tval;

    nkeys = mc_arg / 100 % 10 + 6;
    keylen = type == 3 ? 2 : 1;
    for (i = 0; i < nkeys; ++i) {
        key[i][0] = keylen == 1 ? i == nkeys - 1 ? UINTPTR_MAX : (uintptr_t)i : (uintptr_t)i / 2;
        key[i][1] = keylen == 1 ? 0 : i % 2 ? UINTPTR_MAX : i > 0;
        model[i] = NULL;
    }
    layout = (bfdev_btree_layout_t) {
        .keylen = keylen, .keynum = keynum, .ptrindex = keylen * keynum,
        .nodesize = (keylen + 1) * keynum * sizeof(uintptr_t),
    };
    if (keynum == 8 && keylen == 1)
        layout = *(bfdev_btree_layout_t *[]){ &bfdev_btree_layout32, &bfdev_btree_layout64, &bfdev_btree_layoutptr }[nkeys % 3];
    tree = BFDEV_BTREE_INIT(&layout, hooks ? &ops_hooks : &ops_plain, NULL);
    tree.alloc = &mc_alloc;
    mc_fault_budget = type == 2 ? 2 : 0;

    for (;;) {
        uint64_t h = verify();
        for (i = 0; i < nkeys; ++i)
            h = mc_mix(h, model[i] == &val[i][1]);
        h = mc_mix(h, mc_graph(&tree, sizeof(tree)));
        if (!mc_next(mc_mix(h, mc_fault_budget), &depth))
            break;
        faults = mc_faults;
        clash_calls = remove_calls = 0;
        i = mc_choose(nkeys);
        switch (mc_choose(3)) {
        case 0:
            memcpy(k, key[i], sizeof(k));
            if (model[i]) {
                clash_ret = hooks && mc_choose(2) ? -77 : 0;
                ret = bfdev_btree_insert(&tree, k, &val[i][1]);
                mc_step("insert key %d again -> %d", i, ret);
                mc_assert(ret == (hooks ? clash_ret : -BFDEV_EALREADY), "insert of a present key returned %d", ret);
                mc_assert(clash_calls == hooks && (!hooks || (clash_old == model[i] && clash_new == &val[i][1])), "clash hook called wrongly");
            } else if (mc_choose(8) == 7) {
                ret = bfdev_btree_insert(&tree, k, NULL);
                mc_step("insert no value -> %d", ret);
                mc_assert(ret == -BFDEV_EINVAL, "insert of no value returned %d", ret);
            } else {
                ret = bfdev_btree_insert(&tree, k, &val[i][0]);
                mc_step("insert key %d -> %d", i, ret);
                mc_assert(ret == (mc_faults != faults ? -BFDEV_ENOMEM : 0), "insert returned %d", ret);
                if (!ret)
                    model[i] = &val[i][0];
                mc_assert(!clash_calls, "clash hook called without clash");
            }
            mc_assert(key_index(k) == i, "insert changed the caller's key");
            break;
        case 1:
            memcpy(k, key[i], sizeof(k));
            remove_ret = hooks && mc_choose(2) ? (void *)&released : NULL;
            value = bfdev_btree_remove(&tree, k);
            mc_step("remove key %d -> %s", i, value ? "found" : "none");
            if (!model[i])
                mc_assert(!value && !remove_calls, "absent key removed");
            else if (remove_ret)
                mc_assert(value == remove_ret && remove_value == model[i], "remove hook ignored");
            else {
                mc_assert(value == model[i] && remove_calls == hooks, "remove returned another value");
                model[i] = NULL;
            }
            mc_assert(key_index(k) == i, "remove changed the caller's key");
            break;
        case 2:
            if (type == 2)
                mc_prune();
            memcpy(k, key[i], sizeof(k));
            value = model[i] == &val[i][0] ? &val[i][1] : &val[i][0];
            if (i && i < nkeys - 1)
                mc_prune();
            ret = bfdev_btree_update(&tree, k, value);
            mc_step("update key %d -> %d", i, ret);
            mc_assert(ret == (model[i] ? 0 : -BFDEV_ENOENT), "update returned %d", ret);
            if (model[i])
                model[i] = value;
            break;
        }
    }
    mc_fault_budget = 0;
    for (count = i = 0; i < nkeys; ++i)
        count += !!model[i];
    released = 0;
    remove_ret = NULL;
    switch (mc_choose(hooks ? 2 : 3)) {
    case 0:
        bfdev_btree_release(&tree, NULL, NULL);
        break;
    case 1:
        /* removal inside a safe loop */
        j = mc_choose(6);
#define DROP {                                                                  \
    mc_assert(released++ < count, "the safe loop does not end");                \
    if (j / 2 == 2 || j / 2 == (released & 1)) {                                \
        mc_assert(bfdev_btree_remove(&tree, k) == value, "removal inside a safe loop"); \
        model[key_index(k)] = NULL;                                             \
    }                                                                           \
}
        if (j % 2)
            bfdev_btree_for_each_reverse_safe(&tree, k, value, t, tval) DROP
        else
            bfdev_btree_for_each_safe(&tree, k, value, t, tval) DROP
        mc_assert(released == count, "safe loop visits %d of %d entries", released, count);
        verify();
        if (j / 2 == 2)
            mc_assert(!bfdev_btree_first(&tree, k) && !bfdev_btree_last(&tree, k), "emptied tree has a first entry");
        bfdev_btree_release(&tree, NULL, NULL);
        break;
    case 2:
        bfdev_btree_release(&tree, my_release, &released);
        mc_assert(released == count, "release hook called %d times for %d entries", released, count);
        break;
    }
    memset(model, 0, sizeof(model));
    mc_no_leaks("released tree");
    verify();
}

/* type (0 plain, 1 hooks, 2 faults, 3 two word keys), keys, keys per node */
#define A(type, keys, keynum) ((type) * 1000 + ((keys) - 6) * 100 + (keynum))
const mc_scenario_t mc_scenarios[] = {
    { "node4-keys9", s_btree, { 60, 60 }, A(0, 9, 4), .graph = 1 },
    { "node5-keys9", s_btree, { 60, 60 }, A(0, 9, 5), .graph = 1 },
    { "node4-hooks", s_btree, { 60, 60 }, A(1, 7, 4), .graph = 1 },
    { "node4-faults", s_btree, { 60, 60 }, A(2, 8, 4), .graph = 1 },
    { "node4-long-keys", s_btree, { 60, 60 }, A(3, 8, 4), .graph = 1 },
    { "node8-layouts-0", s_btree, { 60, 60 }, A(0, 9, 8), .graph = 1 },
    { "node8-layouts-1", s_btree, { 60, 60 }, A(0, 10, 8), .graph = 1 },
    { "node8-layouts-2", s_btree, { 40, 60 }, A(0, 11, 8), .graph = 1 },
    { "node4-keys10", s_btree, { 14, 60 }, A(0, 10, 4), .graph = 1 },
    { "node4-keys11", s_btree, { -1, 60 }, A(0, 11, 4), .graph = 1 },
    { "node5-keys11", s_btree, { -1, 60 }, A(0, 11, 5), .graph = 1 },
    { "node6-keys13", s_btree, { -1, 60 }, A(0, 13, 6), .graph = 1 },
    { NULL }
};
