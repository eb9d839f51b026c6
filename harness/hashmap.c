/*
 * Hash map: every sequence of add/set/update/append/del/find across the grow
 * and shrink thresholds, with chosen hash collisions and allocation failures.
 */
#include "mc.h"
#include <bfdev/hashmap.h>

#define KEYS 3
#define PERKEY 2
#define FILLERS 36
#define NODES (KEYS * PERKEY + FILLERS)

struct ent {
    int id;
    unsigned long key;
    bfdev_hlist_node_t node;
    bool in;
};

static struct ent *ents;
static int hash_mode, custom;
static unsigned long nused;

static unsigned long
hash_of(unsigned long key)
{
    switch (hash_mode) {
        case 0: return key;
        case 1: return key & 1;
        case 2: return 42;
        default: return key << 61;
    }
}

static unsigned long
hash_key(const void *key, void *pdata)
{
    mc_assert(pdata == (void *)0x77, "pdata lost");
    return hash_of((unsigned long)key);
}

static unsigned long
hash_node(const bfdev_hlist_node_t *node, void *pdata)
{
    mc_assert(pdata == (void *)0x77, "pdata lost");
    return hash_of(bfdev_hlist_entry(node, struct ent, node)->key);
}

static long
equal(const bfdev_hlist_node_t *n1, const bfdev_hlist_node_t *n2, void *pdata)
{
    mc_assert(pdata == (void *)0x77, "pdata lost");
    return bfdev_hlist_entry(n1, struct ent, node)->key != bfdev_hlist_entry(n2, struct ent, node)->key;
}

static long
find(const bfdev_hlist_node_t *n1, const void *key, void *pdata)
{
    mc_assert(pdata == (void *)0x77, "pdata lost");
    return (long)(bfdev_hlist_entry(n1, struct ent, node)->key - (unsigned long)key);
}

static bool
extend(const bfdev_hashmap_t *map, void *pdata)
{
    bool ret = map->capacity < 64 && mc_choose(2);
    mc_trace("  (extend: %d)", ret);
    return ret;
}

static bool
shrink(const bfdev_hashmap_t *map, void *pdata)
{
    bool ret = mc_choose(2);
    mc_trace("  (shrink: %d)", ret);
    return ret;
}

static const bfdev_hashmap_ops_t ops = {
    .hash_key = hash_key, .hash_node = hash_node, .equal = equal, .find = find,
};
static const bfdev_hashmap_ops_t custom_ops = {
    .hash_key = hash_key, .hash_node = hash_node, .equal = equal, .find = find,
    .extend = extend, .shrink = shrink,
};

static bool
present(unsigned long key)
{
    int i;
    for (i = 0; i < NODES; ++i) {
        if (ents[i].in && ents[i].key == key)
            return true;
    }
    return false;
}

static uint64_t
verify(bfdev_hashmap_t *map)
{
    unsigned char seen[4][NODES] = {};
    bfdev_hlist_node_t *pos, *tmp;
    struct ent *ent, *etmp;
    unsigned long index, last = 0;
    unsigned n[4] = {};
    uint64_t h = mc_mix(map->capacity, map->bits);
    int i, k;

    bfdev_hashmap_for_each(pos, map, index) {
        ent = bfdev_hlist_entry(pos, struct ent, node);
        mc_assert(n[0]++ <= nused, "traversal does not end");
        seen[0][ent->id]++;
        h = mc_mix(mc_mix(h, index), ent->id * 2 + (pos->pprev && *pos->pprev == pos));
    }
    bfdev_hashmap_for_each_safe(pos, tmp, map, index) {
        mc_assert(n[1]++ <= nused, "traversal does not end");
        seen[1][bfdev_hlist_entry(pos, struct ent, node)->id]++;
    }
    bfdev_hashmap_for_each_entry(ent, map, node, index) {
        mc_assert(n[2]++ <= nused, "traversal does not end");
        seen[2][ent->id]++;
    }
    bfdev_hashmap_for_each_entry_safe(ent, etmp, map, node, index) {
        mc_assert(n[3]++ <= nused, "traversal does not end");
        seen[3][ent->id]++;
    }
    for (k = 0; k < 4; ++k) {
        for (i = 0; i < NODES; ++i)
            mc_assert(seen[k][i] == ents[i].in, "traversal %d sees node %d %d times, expected %d", k, i, seen[k][i], ents[i].in);
    }
    for (i = 0; i < NODES; ++i) {
        pos = bfdev_hashmap_find(map, (void *)ents[i].key);
        if (!present(ents[i].key))
            mc_assert(!pos, "absent key %lu found", ents[i].key);
        else {
            mc_assert(pos, "present key %lu not found", ents[i].key);
            ent = bfdev_hlist_entry(pos, struct ent, node);
            mc_assert(ent->in && ent->key == ents[i].key, "find %lu returned a wrong node", ents[i].key);
        }
    }
    mc_assert(map->used == nused, "used %lu expected %lu", map->used, nused);
    mc_assert(nused ? map->capacity != 0 : 1, "no capacity");
    if (map->buckets)
        mc_assert(mc_block_size(map->buckets) == map->capacity * sizeof(*map->buckets), "bucket storage");
    if (!custom && map->capacity)
        mc_assert(nused <= map->capacity, "overfull");
    if (!custom && !mc_faults)
        mc_assert(map->capacity <= 16 || map->capacity <= 8 * nused, "%lu buckets for %lu entries", map->capacity, nused);
    (void)last;
    return h;
}

static int
free_node(unsigned key)
{
    int i;
    for (i = 0; i < PERKEY; ++i) {
        if (!ents[key * PERKEY + i].in)
            return key * PERKEY + i;
    }
    mc_prune();
}

static void
bulk(bfdev_hashmap_t *map, int want)
{
    bfdev_hlist_node_t *node;
    int i, budget = mc_fault_budget;

    mc_fault_budget = 0;
    for (i = 0; i < FILLERS; ++i) {
        struct ent *e = &ents[KEYS * PERKEY + i];
        if (i < want && !e->in) {
            mc_assert(!bfdev_hashmap_add(map, &e->node), "filler add");
            e->in = true;
            nused++;
        } else if (i >= want && e->in) {
            mc_assert(!bfdev_hashmap_del(map, (void *)e->key, &node) && node == &e->node, "filler del");
            e->in = false;
            nused--;
        }
    }
    mc_fault_budget = budget;
}

/* entries are deleted by a loop that allows for it */
static void
drop(bfdev_hashmap_t *map)
{
    unsigned which = mc_choose(4), bynode = mc_choose(2), visits = 0, i;
    unsigned long index, capacity = map->capacity;
    bfdev_hlist_node_t *pos, *tmp, *node;
    unsigned char seen[NODES] = {}, was[NODES];
    struct ent *ent, *etmp;

    mc_step("delete %s entries in a loop", ((const char *[]){ "all", "even", "odd", "key" })[which]);
    for (i = 0; i < NODES; ++i)
        was[i] = ents[i].in;
#define DROP                                                                    \
    mc_assert(ent->in, "the loop visits a deleted entry");                      \
    mc_assert(visits++ <= NODES * NODES, "the loop does not end");              \
    seen[ent->id]++;                                                            \
    if (which == 3 ? ent->id < KEYS * PERKEY : which == 0 || (ent->id & 1) == which - 1) { \
        mc_assert(!bfdev_hashmap_del(map, (void *)ent->key, &node), "del in a loop"); \
        mc_assert(bfdev_hlist_entry(node, struct ent, node)->key == ent->key, "del in a loop returned a wrong node"); \
        bfdev_hlist_entry(node, struct ent, node)->in = false;                  \
        nused--;                                                                \
        if (node != &ent->node)                                                 \
            mc_prune();         /* an equal key; the next one may be it */      \
    }
    if (bynode) {
        bfdev_hashmap_for_each_safe(pos, tmp, map, index) {
            ent = bfdev_hlist_entry(pos, struct ent, node);
            DROP
        }
    } else {
        bfdev_hashmap_for_each_entry_safe(ent, etmp, map, node, index) {
            DROP
        }
    }
    for (i = 0; i < NODES; ++i) {
        if (seen[i] == was[i])
            continue;
        if (map->capacity == capacity)
            mc_fail("the loop visits entry %u %u times", i, seen[i]);
        mc_known("hashmap-safe-loop-shrink");
    }
}

static void
run(int faults)
{
    static const int fills[] = { 0, 3, 7, 10, 11, 12, 15, 22, 23, 24, 30 };
    bfdev_hlist_node_t *old, *node;
    bfdev_hashmap_t map;
    struct ent *e, *o;
    int depth, ret, fill, i, f;
    unsigned key;

    hash_mode = mc_arg & 3;
    custom = !!(mc_arg & 4);
    nused = 0;
    fill = 0;
    ents = mc_zalloc(sizeof(*ents) * NODES);
    for (i = 0; i < NODES; ++i) {
        ents[i].id = i;
        ents[i].key = i < KEYS * PERKEY ? i / PERKEY : 100 + i;
    }
    if (mc_choose(2))
        bfdev_hashmap_init(&map, &mc_alloc, custom ? &custom_ops : &ops, (void *)0x77);
    else
        map = BFDEV_HASHMAP_INIT(&mc_alloc, custom ? &custom_ops : &ops, (void *)0x77);

    for (depth = mc_bound;;) {
        uint64_t h = verify(&map);
        h = mc_mix(h, mc_graph(&map, sizeof(map)));
        if (!mc_next(mc_mix(h, mc_faults), &depth))
            break;
        mc_fault_budget = faults;
        f = mc_faults;
        old = NULL;
        switch (mc_choose(8)) {
            case 0:
                key = mc_choose(KEYS);
                e = &ents[free_node(key)];
                mc_step("add key %u", key);
                ret = bfdev_hashmap_add(&map, &e->node);
                if (present(key))
                    mc_assert(ret == -BFDEV_EEXIST, "add of a present key = %d", ret);
                else if (mc_faults > f)
                    mc_assert(ret == -BFDEV_ENOMEM, "add without memory = %d", ret);
                else {
                    mc_assert(!ret, "add = %d", ret);
                    e->in = true;
                    nused++;
                }
                break;
            case 1: case 2: {
                unsigned update = mc_choose(2);
                key = mc_choose(KEYS);
                e = &ents[free_node(key)];
                mc_step("%s key %u", update ? "update" : "set", key);
                ret = update ? bfdev_hashmap_update(&map, &e->node, &old)
                             : bfdev_hashmap_set(&map, &e->node, &old);
                if (present(key)) {
                    mc_assert(!ret, "replace = %d", ret);
                    mc_assert(old, "old entry not returned");
                    o = bfdev_hlist_entry(old, struct ent, node);
                    mc_assert(o->in && o->key == key, "wrong old entry");
                    o->in = false;
                    e->in = true;
                } else if (update) {
                    mc_assert(ret == -BFDEV_ENOENT && !old, "update of an absent key = %d", ret);
                } else if (mc_faults > f)
                    mc_assert(ret == -BFDEV_ENOMEM, "set without memory = %d", ret);
                else {
                    mc_assert(!ret && !old, "set = %d", ret);
                    e->in = true;
                    nused++;
                }
                break;
            }
            case 3:
                key = mc_choose(KEYS);
                e = &ents[free_node(key)];
                mc_step("append key %u", key);
                ret = bfdev_hashmap_append(&map, &e->node);
                if (mc_faults > f)
                    mc_assert(ret == -BFDEV_ENOMEM, "append without memory = %d", ret);
                else {
                    mc_assert(!ret, "append = %d", ret);
                    e->in = true;
                    nused++;
                }
                break;
            case 4:
                key = mc_choose(KEYS + 1);
                mc_step("del key %u", key);
                node = NULL;
                ret = bfdev_hashmap_del(&map, (void *)(unsigned long)key, &node);
                if (!present(key)) {
                    mc_assert(ret == -BFDEV_ENOENT && !node, "del of an absent key = %d", ret);
                    break;
                }
                mc_assert(!ret && node, "del = %d", ret);
                o = bfdev_hlist_entry(node, struct ent, node);
                mc_assert(o->in && o->key == key, "del returned a wrong node");
                mc_assert(bfdev_hlist_check_unhashed(node), "deleted node still linked");
                o->in = false;
                nused--;
                break;
            case 5: {
                unsigned c = mc_choose(MC_ARRAY_SIZE(fills));
                if (custom)
                    mc_prune();
                if (fills[c] == fill)
                    mc_prune();
                fill = fills[c];
                mc_step("fillers to %d", fill);
                bulk(&map, fill);
                break;
            }
            case 7:
                drop(&map);
                for (i = fill = 0; i < FILLERS; ++i)
                    fill += ents[KEYS * PERKEY + i].in;
                break;
            case 6:
                mc_step("release");
                bfdev_hashmap_release(&map);
                for (i = 0; i < NODES; ++i)
                    ents[i].in = false;
                fill = nused = 0;
                mc_no_leaks("released hash map");
                break;
        }
    }
    mc_fault_budget = 0;
    bfdev_hashmap_release(&map);
    mc_no_leaks("hash map");
}

static void s_plain(void) { run(0); }
static void s_fault(void) { run(2); }

/* Static hash tables: every add/del sequence, index range, traversals */
static void
s_table(void)
{
    BFDEV_DECLARE_HASHTBL(tbl, 8);
    unsigned long size = mc_arg, index, keys[4];
    bfdev_hlist_node_t *pos, *tmp;
    struct ent *ent, *etmp;
    int depth, i, k, n;
    uint64_t h;

    ents = mc_zalloc(sizeof(*ents) * 4);
    for (i = 0; i < 4; ++i) {
        ents[i].id = i;
        ents[i].key = (unsigned long[]){ 0, 1, 8, -1UL }[i];
    }
    bfdev_hashtbl_init(tbl, size);
    for (depth = mc_bound;;) {
        unsigned char seen[8][4] = {};
        for (n = i = 0; i < 4; ++i)
            n += ents[i].in;
        mc_assert(bfdev_hashtbl_empty(tbl, size) == !n, "empty");
        k = 0;
        h = 1;
        bfdev_hashtbl_for_each(pos, tbl, size, index) {
            ent = bfdev_hlist_entry(pos, struct ent, node);
            mc_assert(k++ <= n, "endless");
            mc_assert(bfdev_hashtbl_index(size, ent->key) == index, "bucket of %lx", ent->key);
            seen[0][ent->id]++;
            h = mc_mix(mc_mix(h, index), ent->id);
        }
        bfdev_hashtbl_for_each_safe(pos, tmp, tbl, size, index)
            seen[1][bfdev_hlist_entry(pos, struct ent, node)->id]++;
        bfdev_hashtbl_for_each_entry(ent, tbl, size, node, index)
            seen[2][ent->id]++;
        bfdev_hashtbl_for_each_entry_safe(ent, etmp, tbl, size, node, index)
            seen[3][ent->id]++;
        for (i = 0; i < 4; ++i) {
            unsigned long idx = bfdev_hashtbl_index(size, ents[i].key);
            mc_assert(idx < size, "index %lu of table size %lu", idx, size);
            bfdev_hashtbl_for_each_idx(pos, tbl, size, idx)
                seen[4][i] += bfdev_hlist_entry(pos, struct ent, node)->id == i;
            bfdev_hashtbl_for_each_idx_safe(pos, tmp, tbl, size, idx)
                seen[5][i] += bfdev_hlist_entry(pos, struct ent, node)->id == i;
            bfdev_hashtbl_for_each_idx_entry(ent, tbl, size, node, idx)
                seen[6][i] += ent->id == i;
            bfdev_hashtbl_for_each_idx_entry_safe(ent, etmp, tbl, size, node, idx)
                seen[7][i] += ent->id == i;
        }
        for (k = 0; k < 8; ++k) {
            for (i = 0; i < 4; ++i)
                mc_assert(seen[k][i] == ents[i].in, "traversal %d sees node %d %d times", k, i, seen[k][i]);
        }
        h = mc_mix(h, mc_graph(tbl, sizeof(*tbl) * size));
        if (!mc_next(h, &depth))
            break;
        if (mc_choose(2)) {
            unsigned mask = mc_choose(16);
            mc_step("safe traversal deleting mask %x", mask);
            bfdev_hashtbl_for_each_entry_safe(ent, etmp, tbl, size, node, index) {
                if (mask & (1 << ent->id)) {
                    bfdev_hashtbl_del(&ent->node);
                    mc_assert(ent->in, "deleted twice");
                    ent->in = false;
                    mask &= ~(1 << ent->id);
                }
            }
            if (mask)
                mc_prune();
            continue;
        }
        i = mc_choose(4);
        if (ents[i].in) {
            mc_step("del %d", i);
            bfdev_hashtbl_del(&ents[i].node);
            mc_assert(bfdev_hlist_check_unhashed(&ents[i].node), "deleted node still linked");
        } else {
            mc_step("add %d", i);
            bfdev_hashtbl_add(tbl, size, &ents[i].node, ents[i].key);
        }
        ents[i].in = !ents[i].in;
    }
}

const mc_scenario_t mc_scenarios[] = {
    { "map-distinct", s_plain, { 7, 10 }, 0 },
    { "map-two-hashes", s_plain, { 6, 9 }, 1 },
    { "map-all-collide", s_plain, { 5, 8 }, 2 },
    { "map-high-bits", s_plain, { 5, 8 }, 3 },
    { "map-custom-thresholds", s_plain, { 8, 14 }, 5 },
    { "map-faults", s_fault, { 5, 7 }, 1 },
    { "map-custom-faults", s_fault, { 6, 9 }, 4 },
    { "table-2", s_table, { 30, 30 }, 2 },
    { "table-4", s_table, { 30, 30 }, 4 },
    { "table-8", s_table, { 30, 30 }, 8 },
    { "memory-map", s_plain, { 4, 6 }, 1, .graph = 1 },
    { "memory-table-2", s_table, { 30, 30 }, 2, .graph = 1 },
    { NULL }
};
