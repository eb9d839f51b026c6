/*
 * Large populations: the small exhaustive spaces of the other harnesses say
 * nothing about counters, lengths and indices that need more than 8 or 16
 * bits.  Every combination of a population (around 2^8 and 2^16), an order of
 * arrival and an order of departure is replayed in full here, against plain
 * arrays.  One section per property, chosen with -DP_<property>.
 */
#include "mc.h"

static const unsigned long pops[] = { 255, 256, 257, 300, 1023, 1025, 65535, 65536, 65537, 70001 };

static unsigned long
gcd(unsigned long a, unsigned long b)
{
    unsigned long t;
    while (b) {
        t = a % b;
        a = b;
        b = t;
    }
    return a;
}

static unsigned long __attribute__((unused))
population(void)
{
    unsigned long n = pops[mc_choose(MC_ARRAY_SIZE(pops))];
    if (mc_bound && n > (unsigned long)mc_bound)
        mc_prune();
    return n;
}

/* orders: ascending, descending, both ends in turn, and two scattered ones */
#define NORDER 5
static unsigned long __attribute__((unused))
perm(int order, unsigned long i, unsigned long n)
{
    static unsigned long lastn, step[2];
    if (lastn != n) {
        for (step[0] = n * 5 / 8 + 1; gcd(step[0], n) != 1; ++step[0]);
        for (step[1] = n / 7 + 2; gcd(step[1], n) != 1; ++step[1]);
        lastn = n;
    }
    switch (order) {
    case 0: return i;
    case 1: return n - 1 - i;
    case 2: return i & 1 ? n - 1 - i / 2 : i / 2;
    default: return (i * step[order - 3] + 5) % n;
    }
}

#define DONE(what, n) do { mc_step("%s of %lu elements", what, (unsigned long)(n)); mc_case(mc_mix_bytes(n, what, strlen(what))); } while (0)
#define TICK(i) do { if (!((i) & 1023)) mc_step_count(); } while (0)

#ifdef P_C12
#include <bfdev/rbtree.h>
struct ent { long pad; bfdev_rb_node_t node; unsigned long key; bool in; };
#define E(p) bfdev_rb_entry(p, struct ent, node)

static long
cmp(const bfdev_rb_node_t *a, const bfdev_rb_node_t *b, void *pdata)
{
    return E(a)->key < E(b)->key ? -1 : E(a)->key > E(b)->key;
}

static long
find(const bfdev_rb_node_t *node, void *key)
{
    unsigned long k = *(const unsigned long *)key;
    return E(node)->key < k ? -1 : E(node)->key > k;
}

static void
verify(bfdev_rb_root_cached_t *tree, struct ent *ent, unsigned long n, unsigned long live)
{
    bfdev_rb_node_t *pos, *up;
    unsigned long i, count = 0, depth, limit = 2;
    struct ent *prev = NULL;

    while (1UL << limit / 2 < live + 1)
        limit += 2;
    bfdev_rb_for_each(pos, &tree->root) {
        TICK(count);
        mc_assert(E(pos)->in && (!prev || prev->key <= E(pos)->key), "key %lu is out of place", E(pos)->key);
        if (!prev)
            mc_assert(bfdev_rb_cached_first(tree) == pos, "cached leftmost is not the smallest");
        prev = E(pos);
        mc_assert(++count <= live, "walk does not end");
        for (depth = 1, up = pos; (up = up->parent); ++depth)
            mc_assert(depth <= limit, "depth %lu with %lu nodes", depth, live);
    }
    mc_assert(count == live, "%lu nodes instead of %lu", count, live);
    for (i = 0; i < n; ++i) {
        pos = bfdev_rb_find(&tree->root, &ent[i].key, find);
        mc_assert(!!pos == ent[i].in && (!pos || E(pos)->key == ent[i].key), "find of key %lu", ent[i].key);
    }
}

static void
s_many(void)
{
    unsigned long n = population(), i, live = 0;
    int in = mc_choose(NORDER), out = mc_choose(NORDER);
    struct ent *ent = mc_zalloc(n * sizeof(*ent)), *e;
    bfdev_rb_root_cached_t tree = BFDEV_RB_CACHED_INIT();

    if (n > 2000 && ((in + out) % 3))
        mc_prune();
    for (i = 0; i < n; ++i) {
        e = &ent[perm(in, i, n)];
        e->key = e - ent;
        e->in = true;
        TICK(live++);
        bfdev_rb_cached_insert(&tree, &e->node, cmp, NULL);
    }
    verify(&tree, ent, n, live);
    for (i = 0; i < n; ++i) {
        e = &ent[perm(out, i, n)];
        bfdev_rb_cached_delete(&tree, &e->node);
        e->in = false;
        TICK(live--);
        if (i == n / 2 || i == n - 257)
            verify(&tree, ent, n, live);
    }
    verify(&tree, ent, n, 0);
    DONE("tree", n);
}
#define SCEN { "large-populations", s_many, { 0, 0 }, 0, 3 }
#endif

#ifdef P_C13
#include <bfdev/heap.h>
struct ent { long pad; bfdev_heap_node_t node; unsigned long key, seen; };
#define E(p) bfdev_heap_entry(p, struct ent, node)

static long
cmp(const bfdev_heap_node_t *a, const bfdev_heap_node_t *b, void *pdata)
{
    return E(a)->key < E(b)->key ? -1 : E(a)->key > E(b)->key;
}

static void
verify(bfdev_heap_root_t *heap, unsigned long live)
{
    static unsigned long round;
    bfdev_heap_node_t *pos;
    unsigned long i, index, count = 0;

    mc_assert(BFDEV_HEAP_ROOT_COUNT(heap) == live, "count %lu instead of %lu", BFDEV_HEAP_ROOT_COUNT(heap), live);
    ++round;
    for (i = 1; i <= live; ++i) {
        TICK(i);
        pos = bfdev_heap_find(heap, i);
        mc_assert(pos && E(pos)->seen != round, "position %lu of %lu", i, live);
        E(pos)->seen = round;
        mc_assert(i == 1 ? !pos->parent : bfdev_heap_find(heap, i / 2) == pos->parent, "parent of position %lu", i);
        mc_assert(!pos->parent || E(pos->parent)->key <= E(pos)->key, "heap order at position %lu", i);
    }
    mc_assert(!bfdev_heap_find(heap, live + 1) && !bfdev_heap_find(heap, 2 * live + 2), "find behind the end");
    bfdev_heap_for_each(pos, &index, heap) {
        mc_assert(++count <= live && bfdev_heap_find(heap, count) == pos, "walk at %lu of %lu", count, live);
    }
    mc_assert(count == live, "%lu nodes instead of %lu", count, live);
}

static void
s_many(void)
{
    unsigned long n = population(), i, last = 0, live = 0;
    int in = mc_choose(NORDER), out = mc_choose(NORDER + 1);
    struct ent *ent = mc_zalloc(n * sizeof(*ent)), *e;
    bfdev_heap_root_t heap = BFDEV_HEAP_INIT();

    if (n > 2000 && ((in + out) % 3))
        mc_prune();
    for (i = 0; i < n; ++i) {
        e = &ent[perm(in, i, n)];
        e->key = e - ent;
        TICK(live++);
        bfdev_heap_insert(&heap, &e->node, cmp, NULL);
    }
    verify(&heap, live);
    for (i = 0; i < n; ++i) {
        if (out < NORDER)
            e = &ent[perm(out, i, n)];
        else {
            e = E(heap.node);
            mc_assert(!i || e->key > last, "minimum %lu comes after %lu", e->key, last);
            last = e->key;
        }
        bfdev_heap_delete(&heap, &e->node, cmp, NULL);
        TICK(live--);
        if (i == n / 2 || i == n - 200)
            verify(&heap, live);
    }
    mc_assert(bfdev_heap_empty_root(&heap), "drained heap is not empty");
    DONE("heap", n);
}
#define SCEN { "large-populations", s_many, { 0, 0 }, 0, 3 }
#endif

#ifdef P_C14
#include <bfdev/btree.h>

static const bfdev_btree_ops_t bops = { .alloc = bfdev_btree_alloc, .free = bfdev_btree_free, .find = bfdev_btree_key_find };

static void
verify(bfdev_btree_root_t *tree, void **model, unsigned long n, unsigned long live)
{
    unsigned long i, count = 0, last = 0;
    uintptr_t key[2];
    void *val;

    for (i = 0; i < n; ++i) {
        TICK(i);
        key[0] = i; key[1] = i;
        mc_assert(bfdev_btree_lookup(tree, key) == model[i], "lookup of key %lu", i);
    }
    bfdev_btree_for_each(tree, key, val) {
        TICK(count);
        mc_assert(key[0] < n && val == model[key[0]] && (!count || key[0] < last), "walk finds key %lu", (unsigned long)key[0]);
        last = key[0];
        mc_assert(++count <= live, "walk does not end");
    }
    mc_assert(count == live, "%lu entries instead of %lu", count, live);
    count = 0;
    bfdev_btree_for_each_reverse(tree, key, val) {
        TICK(count);
        mc_assert(key[0] < n && val == model[key[0]] && (!count || key[0] > last), "reverse walk finds key %lu", (unsigned long)key[0]);
        last = key[0];
        mc_assert(++count <= live, "reverse walk does not end");
    }
    mc_assert(count == live, "%lu entries instead of %lu", count, live);
}

static void
s_many(void)
{
    static const unsigned nums[] = { 4, 8, 255, 256, 300 };
    unsigned long n = population(), i, k, live = 0;
    int in = mc_choose(NORDER), out = mc_choose(NORDER);
    unsigned num = nums[mc_choose(n > 2000 ? 2 : MC_ARRAY_SIZE(nums))], len = 1 + (num == 8);
    bfdev_btree_layout_t layout = { .keylen = len, .keynum = num, .ptrindex = len * num, .nodesize = (len + 1) * num * sizeof(uintptr_t) };
    bfdev_btree_root_t tree = BFDEV_BTREE_INIT(&layout, &bops, NULL);
    void **model = mc_zalloc(n * sizeof(*model));
    uintptr_t key[2];

    if (n > 2000 && ((in + out) & 1))
        mc_prune();
    tree.alloc = &mc_alloc;
    for (i = 0; i < n; ++i) {
        TICK(i);
        key[0] = key[1] = k = perm(in, i, n);
        model[k] = &model[k];
        mc_assert(!bfdev_btree_insert(&tree, key, model[k]), "insert of key %lu", k);
        live++;
    }
    verify(&tree, model, n, live);
    for (i = 0; i < n; ++i) {
        TICK(i);
        key[0] = key[1] = k = perm(out, i, n);
        mc_assert(bfdev_btree_remove(&tree, key) == model[k], "remove of key %lu", k);
        model[k] = NULL;
        live--;
        if (i == n / 2 || i == n - 200)
            verify(&tree, model, n, live);
    }
    verify(&tree, model, n, 0);
    bfdev_btree_release(&tree, NULL, NULL);
    mc_no_leaks("emptied tree");
    DONE("tree", n * num);
}
#define SCEN { "large-populations", s_many, { 0, 0 }, 0, 3 }
#endif

#ifdef P_C16
#include <bfdev/skiplist.h>

static uint64_t draw;
int
rand(void)
{
    draw = draw * 6364136223846793005UL + 1442695040888963407UL;
    return draw >> 33;
}

static long
cmp(const void *a, const void *b, void *pdata)
{
    return *(const unsigned long *)a < *(const unsigned long *)b ? -1 : *(const unsigned long *)a > *(const unsigned long *)b;
}

static long
find(const void *key, void *pdata)
{
    return cmp(key, pdata, NULL);
}

static unsigned long released;
static void
release(void *key, void *pdata)
{
    released++;
}

static void
verify(bfdev_skip_head_t *head, unsigned long *keys, bool *in, unsigned long n, unsigned long live)
{
    bfdev_skip_node_t *pos, *low;
    unsigned long i, count;
    unsigned k;

    for (k = 0; k < head->levels; ++k) {
        count = 0;
        low = NULL;
        bfdev_skiplist_for_each(pos, head, k) {
            TICK(count);
            mc_assert(++count <= live && mc_is_block(pos), "level %u does not end", k);
            mc_assert(!low || *(unsigned long *)low->key <= *(unsigned long *)pos->key, "order at level %u", k);
            mc_assert(in[(unsigned long *)pos->key - keys], "a deleted key is at level %u", k);
            low = pos;
        }
        if (!k)
            mc_assert(count == live, "%lu entries instead of %lu", count, live);
    }
    for (i = 0; i < n; ++i) {
        TICK(i);
        pos = bfdev_skiplist_find(head, find, &keys[i]);
        mc_assert(!!pos == in[i] && (!pos || pos->key == &keys[i]), "find of key %lu", i);
    }
}

static void
s_many(void)
{
    static const unsigned nlevels[] = { 16, 40, 255, 256, 257, 300 };
    unsigned long n = population(), i, k, live = 0, *keys = mc_zalloc(n * sizeof(*keys));
    int order = mc_choose(NORDER), out = mc_choose(NORDER);
    bool *in = mc_zalloc(n);
    bfdev_skip_head_t *head;

    if (n > 2000 && ((order + out) % 3))
        mc_prune();
    draw = 1;
    head = bfdev_skiplist_create(&mc_alloc, nlevels[mc_choose(n > 2000 ? 2 : MC_ARRAY_SIZE(nlevels))]);
    mc_assert(head, "create");
    for (i = 0; i < n; ++i) {
        TICK(i);
        k = perm(order, i, n);
        keys[k] = k;
        in[k] = true;
        mc_assert(!bfdev_skiplist_insert(head, &keys[k], cmp, NULL), "insert of key %lu", k);
        live++;
    }
    verify(head, keys, in, n, live);
    for (i = 0; i < n; ++i) {
        TICK(i);
        if (i == n - 260) {
            verify(head, keys, in, n, live);
            released = 0;
            bfdev_skiplist_reset(head, release, NULL);
            mc_assert(released == live, "%lu of %lu keys released", released, live);
            break;
        }
        k = perm(out, i, n);
        bfdev_skiplist_delete(head, find, &keys[k]);
        in[k] = false;
        live--;
        if (i == n / 2)
            verify(head, keys, in, n, live);
    }
    memset(in, 0, n);
    verify(head, keys, in, n, 0);
    bfdev_skiplist_destroy(head, NULL, NULL);
    mc_no_leaks("destroyed list");
    DONE("list", n);
}
#define SCEN { "large-populations", s_many, { 0, 0 }, 0, 3 }
#endif

#ifdef P_C17
#include <bfdev/segtree.h>
struct ent { long pad; bfdev_segtree_node_t node; bool in; unsigned long seen; };
#define E(p) bfdev_segtree_entry(p, struct ent, node)

static void
verify(bfdev_rb_root_cached_t *tree, struct ent *ent, unsigned long n)
{
    static unsigned long round;
    bfdev_segtree_node_t *pos;
    unsigned long q, i, x, y, want, got, last;

    for (q = 0; q < 40; ++q) {
        x = q == 39 ? 0 : perm(3, q * 97 % n, n) * 3 + q % 3;
        y = q == 39 ? 4 * n + 70000 : x + (q % 4 == 0 ? 0 : q % 4 == 1 ? 2 : q % 4 == 2 ? 257 : 70000);
        for (want = i = 0; i < n; ++i)
            want += ent[i].in && ent[i].node.start <= y && ent[i].node.end >= x;
        ++round;
        got = last = 0;
        bfdev_segtree_for_each(pos, x, y, tree) {
            TICK(got);
            mc_assert(E(pos)->in && E(pos)->seen != round && pos->start <= y && pos->end >= x && pos->start >= last,
                      "query %lu-%lu found %lu-%lu", x, y, pos->start, pos->end);
            E(pos)->seen = round;
            last = pos->start;
            got++;
        }
        mc_assert(got == want, "query %lu-%lu found %lu of %lu spans", x, y, got, want);
    }
}

static void
s_many(void)
{
    unsigned long n = population(), i, k;
    int in = mc_choose(NORDER), out = mc_choose(NORDER);
    struct ent *ent = mc_zalloc(n * sizeof(*ent));
    bfdev_rb_root_cached_t tree = BFDEV_RB_CACHED_INIT();

    if (n > 2000 && ((in + out) & 1))
        mc_prune();
    for (i = 0; i < n; ++i) {
        TICK(i);
        k = perm(in, i, n);
        ent[k].node.start = 3 * k;
        ent[k].node.end = 3 * k + (k % 7 == 0 ? 0 : k % 7 == 6 ? k % 70 ? 300 : 66000 : k % 5);
        ent[k].in = true;
        bfdev_segtree_insert(&tree, &ent[k].node);
    }
    verify(&tree, ent, n);
    for (i = 0; i < n; ++i) {
        TICK(i);
        k = perm(out, i, n);
        bfdev_segtree_delete(&tree, &ent[k].node);
        ent[k].in = false;
        if (i == n / 2 || i == n - 200)
            verify(&tree, ent, n);
    }
    mc_assert(!tree.root.node, "emptied tree");
    DONE("tree", n);
}
#define SCEN { "large-populations", s_many, { 0, 0 }, 0, 3 }
#endif

#ifdef P_C18
#include <bfdev/hashmap.h>
struct ent { long pad; bfdev_hlist_node_t node; unsigned long key, seen; bool in; };
#define E(p) bfdev_hlist_entry(p, struct ent, node)
static int mode;

static unsigned long
hash_of(unsigned long key)
{
    switch (mode) {
    case 0: return key;
    case 1: return key * 0x9e3779b97f4a7c15UL;
    case 2: return key << 40;
    default: return key & 255;
    }
}

static unsigned long
hash_key(const void *key, void *pdata)
{
    return hash_of(*(const unsigned long *)key);
}

static unsigned long
hash_node(const bfdev_hlist_node_t *node, void *pdata)
{
    return hash_of(E(node)->key);
}

static long
equal(const bfdev_hlist_node_t *a, const bfdev_hlist_node_t *b, void *pdata)
{
    return E(a)->key != E(b)->key;
}

static long
find(const bfdev_hlist_node_t *a, const void *key, void *pdata)
{
    return E(a)->key != *(const unsigned long *)key;
}

static const bfdev_hashmap_ops_t ops = { .hash_key = hash_key, .hash_node = hash_node, .equal = equal, .find = find };

static void
verify(bfdev_hashmap_t *map, struct ent *ent, unsigned long n, unsigned long live)
{
    static unsigned long round;
    bfdev_hlist_node_t *pos;
    unsigned long i, count = 0;

    ++round;
    bfdev_hashmap_for_each(pos, map, i) {
        TICK(count);
        mc_assert(E(pos)->in && E(pos)->seen != round, "walk finds key %lu", E(pos)->key);
        E(pos)->seen = round;
        mc_assert(++count <= live, "walk does not end");
    }
    mc_assert(count == live, "%lu entries instead of %lu", count, live);
    for (i = 0; i < n; ++i) {
        TICK(i);
        pos = bfdev_hashmap_find(map, &ent[i].key);
        mc_assert(pos == (ent[i].in ? &ent[i].node : NULL), "find of key %lu", ent[i].key);
    }
}

static void
s_many(void)
{
    unsigned long n = population(), i, k, live = 0;
    int in = mc_choose(NORDER), out = mc_choose(NORDER);
    struct ent *ent = mc_zalloc(n * sizeof(*ent));
    bfdev_hlist_node_t *node;
    bfdev_hashmap_t map;

    mode = mc_choose(4);
    if (n > 2000 && (mode > 1 || (in + out) % 3))
        mc_prune();
    bfdev_hashmap_init(&map, &mc_alloc, &ops, NULL);
    for (i = 0; i < n; ++i) {
        TICK(i);
        k = perm(in, i, n);
        ent[k].key = k;
        ent[k].in = true;
        mc_assert(!bfdev_hashmap_add(&map, &ent[k].node), "add of key %lu", k);
        live++;
        mc_assert(map.used == live, "%lu entries counted instead of %lu", map.used, live);
    }
    verify(&map, ent, n, live);
    for (i = 0; i < n; ++i) {
        TICK(i);
        k = perm(out, i, n);
        mc_assert(!bfdev_hashmap_del(&map, &ent[k].key, &node) && node == &ent[k].node, "del of key %lu", k);
        ent[k].in = false;
        live--;
        if (i == n / 2 || i == n - 200)
            verify(&map, ent, n, live);
    }
    verify(&map, ent, n, 0);
    bfdev_hashmap_release(&map);
    mc_no_leaks("released map");
    DONE("map", n * 4 + mode);
}
#define SCEN { "large-populations", s_many, { 0, 0 }, 0, 3 }
#endif

#ifdef P_C15
#include <bfdev/radix.h>

static void
s_many(void)
{
    static const unsigned long strides[] = { 1, 7, 255, 65537 };
    BFDEV_DECLARE_RADIX(tree, uint32_t) = BFDEV_RADIX_INIT(&tree, &mc_alloc);
    unsigned long n = population(), i, k, at, count, last;
    int in = mc_choose(NORDER), out = mc_choose(NORDER);
    uint32_t *val;
    unsigned long stride = strides[mc_choose(MC_ARRAY_SIZE(strides))];

    if (n > 2000 && (stride > 7 || (in + out) % 3))
        mc_prune();
    for (i = 0; i < n; ++i) {
        TICK(i);
        k = perm(in, i, n);
        val = bfdev_radix_alloc(&tree, k * stride);
        mc_assert(val && !*val, "alloc of cell %lu", k * stride);
        *val = k + 1;
    }
    for (k = i = 0; ; ++i) {
        at = 0;
        count = last = 0;
        bfdev_radix_for_each(val, &tree, &at) {
            TICK(count);
            mc_assert(!(at % stride) && *val == at / stride + 1 && (!count || at > last), "walk finds cell %lu holding %u", at, *val);
            last = at;
            mc_assert(++count <= n - k, "walk does not end");
        }
        mc_assert(count == n - k, "%lu cells instead of %lu", count, n - k);
        if (i == 2)
            break;
        for (; k < (i ? n - 200 : n / 2); ++k) {
            TICK(k);
            at = perm(out, k, n) * stride;
            val = bfdev_radix_find(&tree, at);
            mc_assert(val && *val == at / stride + 1, "find of cell %lu", at);
            mc_assert(!bfdev_radix_free(&tree, at) && !bfdev_radix_find(&tree, at), "free of cell %lu", at);
        }
    }
    bfdev_radix_release(&tree);
    mc_no_leaks("released tree");
    DONE("tree", n * 4 + stride);
}
#define SCEN { "large-populations", s_many, { 0, 0 }, 0, 3 }
#endif

#ifdef P_C08
#include <bfdev/array.h>

static void
s_many(void)
{
    static const unsigned long cellsz[] = { 1, 3, 255, 256, 300, 65536, 70001 };
    unsigned long n = population(), cells = cellsz[mc_choose(MC_ARRAY_SIZE(cellsz))], i, burst, count = 0;
    bfdev_array_t array;
    uint8_t *p;

    if (n * cells > 18000000)
        mc_prune();
    burst = (unsigned long[]){ 1, 255, 256, 300, n }[mc_choose(n > 2000 && cells > 3 ? 2 : 5)];
    bfdev_array_init(&array, &mc_alloc, cells);
    for (i = 0; i < n; i += burst) {
        TICK(i);
        p = bfdev_array_push(&array, burst);
        mc_assert(p && p == array.data + i * cells, "push of %lu at %lu", burst, i);
        for (; count < i + burst; ++count) {
            p[0] = count; p[cells - 1] = count >> 8; p[cells / 2] = count >> 16;
            p += cells;
        }
    }
    mc_assert(bfdev_array_index(&array) == count && bfdev_array_size(&array) == count * cells, "%lu elements instead of %lu", bfdev_array_index(&array), count);
#define VERIFY(upto) do {                                                       \
        for (i = 0; i < (upto); ++i) {                                          \
            p = bfdev_array_data(&array, i);                                    \
            mc_assert(p, "element %lu", i);                                     \
            mc_assert(cells == 1 ? p[0] == (uint8_t)(i >> 16) : p[cells / 2] == (uint8_t)(i >> 16) && \
                      (cells < 3 || (p[0] == (uint8_t)i && p[cells - 1] == (uint8_t)(i >> 8))), "element %lu lost its value", i); \
        }                                                                       \
        mc_assert(!bfdev_array_data(&array, count), "element behind the end");  \
    } while (0)
    VERIFY(count);
    mc_assert(!bfdev_array_pop(&array, count + 1), "pop of too many");
    p = bfdev_array_pop(&array, burst);
    count -= burst;
    mc_assert(p == array.data + count * cells, "pop of %lu", burst);
    VERIFY(count);
    mc_assert(!bfdev_array_resize(&array, count + 300) && bfdev_array_index(&array) == count + 300, "resize");
    i = count;
    count += 300;
    VERIFY(count - 300);
    mc_assert(!bfdev_array_reserve(&array, cells > 300 ? 300 : 70000) && bfdev_array_index(&array) == count, "reserve");
    VERIFY(count - 300);
    bfdev_array_release(&array);
    mc_no_leaks("released array");
    DONE("array", n * 8 + cells);
}
#define SCEN { "large-populations", s_many, { 0, 0 }, 0, 3 }
#endif

#ifdef P_C11
#include <bfdev/sort.h>
#include <bfdev/bsearch.h>
#include <bfdev/list.h>
static unsigned long cells;

static long
cmp(const void *a, const void *b, void *pdata)
{
    uint32_t x, y;
    if (cells < 4)
        return (long)*(const uint8_t *)a - *(const uint8_t *)b;
    memcpy(&x, a, 4);
    memcpy(&y, b, 4);
    return (long)x - (long)y;
}

static long
find(const void *a, void *pdata)
{
    return cmp(a, pdata, NULL);
}

static void
s_many(void)
{
    static const unsigned long cellsz[] = { 4, 7, 8, 24, 255, 256, 300, 70000, 1 };
    unsigned long n = population(), i, k, hist[256] = { };
    int order = mc_choose(NORDER + 1);
    uint8_t *buf, want[4];

    cells = cellsz[mc_choose(MC_ARRAY_SIZE(cellsz))];
    if (n * cells > 18000000 || (n > 2000 && (order & 1) != (cells > 7)))
        mc_prune();
    buf = mc_zalloc(n * cells);
    for (i = 0; i < n; ++i) {
        uint32_t v = order == NORDER ? i % 257 : perm(order, i, n);
        hist[(uint8_t)v]++;
        memcpy(buf + i * cells, &v, cells < 4 ? cells : 4);
        if (cells > 4)
            buf[i * cells + cells - 1] = v * 7;
    }
    mc_step_count();
    mc_assert(!bfdev_sort(buf, n, cells, cmp, NULL), "sort of %lu elements", n);
    mc_step_count();
    for (i = k = 0; i < n; ++i) {
        uint32_t v = 0;
        memcpy(&v, buf + i * cells, cells < 4 ? cells : 4);
        if (cells < 4) {
            for (; !hist[k]; ++k);
            hist[k]--;
            mc_assert(v == k, "element %lu is %u", i, v);
            continue;
        }
        if (order == NORDER)
            mc_assert(n % 257 || v == i / (n / 257), "element %lu is %u", i, v);
        else
            mc_assert(v == i, "element %lu is %u", i, v);
        mc_assert(cells == 4 || buf[i * cells + cells - 1] == (uint8_t)(v * 7), "element %lu came apart", i);
        mc_assert(!i || cmp(buf + (i - 1) * cells, buf + i * cells, NULL) <= 0, "order at %lu", i);
    }
    for (i = 0; i < n; ++i) {
        TICK(i);
        memcpy(want, buf + i * cells, cells < 4 ? cells : 4);
        uint8_t *p = bfdev_bsearch(buf, n, cells, find, want);
        mc_assert(p && !((p - buf) % cells) && !cmp(p, want, NULL), "search of element %lu", i);
        if (cells >= 4 && order < NORDER)
            mc_assert(p == buf + i * cells, "search of element %lu found another", i);
    }
    memset(want, 0xff, 4);
    mc_assert(cells < 4 || !bfdev_bsearch(buf, n, cells, find, want), "search of an absent element");
    DONE("sort", n * 8 + cells);
}

struct ent { long pad; bfdev_list_head_t list; unsigned long key, serial; };

static long
lcmp(const bfdev_list_head_t *a, const bfdev_list_head_t *b, void *pdata)
{
    unsigned long x = bfdev_list_entry(a, struct ent, list)->key, y = bfdev_list_entry(b, struct ent, list)->key;
    return x < y ? -1 : x > y;
}

static void
s_list(void)
{
    unsigned long n = population(), i, mod = (unsigned long[]){ 2, 257, 70001 }[mc_choose(3)];
    int order = mc_choose(NORDER);
    struct ent *ent = mc_zalloc(n * sizeof(*ent)), *pos, *prev = NULL;
    BFDEV_LIST_HEAD(head);

    for (i = 0; i < n; ++i) {
        ent[i].key = perm(order, i, n) % mod;
        ent[i].serial = i;
        bfdev_list_add_prev(&head, &ent[i].list);
    }
    bfdev_list_sort(&head, lcmp, NULL);
    mc_step_count();
    i = 0;
    bfdev_list_for_each_entry(pos, &head, list) {
        mc_assert(i++ < n, "sorted list does not end");
        mc_assert(!prev || prev->key < pos->key || (prev->key == pos->key && prev->serial < pos->serial), "order at %lu", i);
        mc_assert(pos->list.prev == (prev ? &prev->list : &head), "back link at %lu", i);
        prev = pos;
    }
    mc_assert(i == n && head.prev == &prev->list, "%lu of %lu elements left", i, n);
    DONE("list sort", n * 8 + mod);
}
#define SCEN { "large-populations", s_many, { 0, 0 }, 0, 3 }, { "large-lists", s_list, { 0, 0 }, 0, 3 }
#endif

#ifdef P_C10
#include <bfdev/ilist.h>
struct ent { long pad; bfdev_ilist_node_t node; unsigned long key; bool in; };
#define E(p) bfdev_ilist_entry(p, struct ent, node)

static long
cmp(const bfdev_ilist_node_t *a, const bfdev_ilist_node_t *b, void *pdata)
{
    return E(a)->key < E(b)->key ? -1 : E(a)->key > E(b)->key;
}

static void
s_many(void)
{
    unsigned long n = population(), i, count, mod = (unsigned long[]){ 1, 16, 257 }[mc_choose(3)], live = 0;
    int in = mc_choose(NORDER), out = mc_choose(NORDER), round;
    struct ent *ent = mc_zalloc(n * sizeof(*ent)), *pos, *prev;
    BFDEV_ILIST_HEAD(head);

    if (n > 2000 && (mod > 16 || in != out))
        mc_prune();
    for (i = 0; i < n; ++i) {
        pos = &ent[perm(in, i, n)];
        TICK(live++);
        pos->key = (pos - ent) % mod;
        pos->in = true;
        bfdev_ilist_node_init(&pos->node);
        bfdev_ilist_add(&head, &pos->node, cmp, NULL);
    }
    for (i = 0, round = 0; round < 3; ++round) {
        count = 0;
        prev = NULL;
        bfdev_ilist_for_each_entry(pos, &head, node) {
            mc_assert(pos->in && (!prev || prev->key <= pos->key), "order at %lu", count);
            mc_assert(++count <= live, "walk does not end");
            prev = pos;
        }
        mc_assert(count == live, "%lu nodes instead of %lu", count, live);
        for (; i < (round ? n : n / 2); ++i) {
            pos = &ent[perm(out, i, n)];
            bfdev_ilist_del(&head, &pos->node);
            pos->in = false;
            TICK(live--);
        }
    }
    mc_assert(bfdev_ilist_head_empty(&head), "emptied list");
    DONE("list", n * 8 + mod);
}
#define SCEN { "large-populations", s_many, { 0, 0 }, 0, 3 }
#endif

#ifdef P_C31
#include <bfdev/notifier.h>
struct ent { bfdev_notifier_node_t node; unsigned long calls; };
static struct ent *last;
static unsigned long total;

static bfdev_notifier_ret_t
entry(void *args, void *pdata)
{
    struct ent *ent = pdata;
    mc_assert(!last || last->node.priority <= ent->node.priority, "node of priority %d is called after %d", ent->node.priority, last->node.priority);
    last = ent;
    ent->calls++;
    total++;
    return BFDEV_NOTIFI_RET_DONE;
}

static void
s_many(void)
{
    unsigned long n = population(), i, mod = (unsigned long[]){ 1, 16, 257 }[mc_choose(3)], lim;
    int in = mc_choose(NORDER);
    struct ent *ent = mc_zalloc(n * sizeof(*ent));
    unsigned called;
    BFDEV_DEFINE_NOTIFIER(chain);

    /* registration walks the lower priorities: only at the front it is quick */
    if (n > 2000 && (in != 1 || mod != 257))
        mc_prune();
    for (i = 0; i < n; ++i) {
        struct ent *e = &ent[perm(in, i, n)];
        TICK(i);
        e->node.entry = entry;
        e->node.pdata = e;
        e->node.priority = (int)(n > 2000 ? e - ent : (e - ent) % mod) - 8;
        mc_assert(!bfdev_notifier_register(&chain, &e->node), "register");
    }
    for (lim = 0; lim < 4; ++lim) {
        unsigned num = (unsigned[]){ -1u, 255, 256, n - 1 }[lim];
        unsigned long want = num < n ? num : n;
        last = NULL;
        total = 0;
        called = 0;
        mc_assert(bfdev_notifier_call(&chain, NULL, num, &called) == BFDEV_NOTIFI_RET_DONE, "call");
        mc_assert(total == want && called == want, "%lu nodes called, %u reported instead of %lu", total, called, want);
        if (!lim)
            for (i = 0; i < n; ++i)
                mc_assert(ent[i].calls == 1, "node %lu called %lu times", i, ent[i].calls);
    }
    for (i = 0; i < n; ++i) {
        TICK(i);
        bfdev_notifier_unregister(&chain, &ent[perm(in, n - 1 - i, n)].node);
    }
    total = called = 0;
    bfdev_notifier_call(&chain, NULL, -1, &called);
    mc_assert(!total && !called, "an empty chain called somebody");
    DONE("chain", n * 8 + mod);
}
#define SCEN { "large-populations", s_many, { 0, 0 }, 0, 3 }
#endif

#ifdef P_C20
#include <bfdev/allocpool.h>
#include <bfdev/respool.h>
struct ent { bfdev_respool_node_t node; unsigned long at; };
static unsigned long rel;
static struct ent *ents;

static long
rfind(bfdev_respool_node_t *node, void *pdata)
{
    return bfdev_container_of(node, struct ent, node)->at != *(unsigned long *)pdata;
}

static void
rrelease(bfdev_respool_node_t *node, void *pdata)
{
    mc_assert(bfdev_container_of(node, struct ent, node)->at == (unsigned long)--rel, "released out of order");
}

static void
s_pool(void)
{
    unsigned long n = population(), i, size = (unsigned long[]){ 1, 24, 255, 256, 300, 65536, 70000 }[mc_choose(7)], align = 8UL << mc_choose(4), step;
    bfdev_allocpool_t pool;
    uint8_t *block, *p;

    step = (size + align - 1) / align * align;
    if (n * step > 24000000)
        mc_prune();
    block = mc_malloc(n * step + 64 + 4096);
    block = (uint8_t *)(((uintptr_t)block + 4095) & ~4095UL);
    bfdev_allocpool_init(&pool, block, (n - 1) * step + size);
    for (i = 0; i < n; ++i) {
        p = bfdev_allocpool_alloc(&pool, size, align);
        mc_assert(p == block + i * step, "allocation %lu", i);
    }
    mc_assert(!bfdev_allocpool_alloc(&pool, 1, 1), "an exhausted pool allocated");
    while (i--) {
        bfdev_allocpool_free(&pool, block + i * step);
        mc_assert(!i || !bfdev_allocpool_alloc(&pool, 1, 1), "memory handed out again while %lu blocks are in use", i);
    }
    p = bfdev_allocpool_alloc(&pool, (n - 1) * step + size, 1);
    mc_assert(p == block, "a pool all of whose blocks were freed is not empty");
    DONE("pool", n * 8 + size);
}

static void
s_res(void)
{
    unsigned long n = population(), i;
    bfdev_respool_t pool;
    bfdev_respool_node_t *node;

    ents = mc_zalloc(n * sizeof(*ents));
    bfdev_respool_init(&pool);
    for (i = 0; i < n; ++i) {
        ents[i].at = i;
        ents[i].node.release = rrelease;
        bfdev_respool_insert(&pool, &ents[i].node);
    }
    for (i = 0; i < n; i += n / 5) {
        node = bfdev_respool_find(&pool, rfind, &i);
        mc_assert(node == &ents[i].node, "find of resource %lu", i);
    }
    rel = n;
    bfdev_respool_release_all(&pool, NULL);
    mc_assert(!rel && bfdev_respool_check_empty(&pool), "%lu resources left", rel);
    DONE("resources", n);
}
#define SCEN { "large-pools", s_pool, { 0, 0 }, 0, 3 }, { "many-resources", s_res, { 0, 0 }, 0, 1 }
#endif

#ifdef P_C19
#include <bfdev/memalloc.h>
struct blk { uint8_t *p; size_t size; };

static void
s_many(void)
{
    static const bfdev_memalloc_find_t how[] = { bfdev_memalloc_first_fit, bfdev_memalloc_best_fit, bfdev_memalloc_worst_fit };
    static const size_t sizes[] = { 1, 100, 255, 256, 300, 4096, 65535, 65536, 70000, 300000 };
    size_t region = (size_t[]){ 70000, 1 << 20, 24 << 20 }[mc_choose(3)], size, old;
    bfdev_memalloc_find_t find = how[mc_choose(3)];
    int mix = mc_choose(4), order = mc_choose(NORDER);
    uint8_t *mem = mc_malloc(region), *p;
    struct blk *blk = mc_zalloc(4001 * sizeof(*blk));
    bfdev_memalloc_head_t pool;
    unsigned long i, k, n = 0;

    bfdev_memalloc_init(&pool, find, mem, region);
#define FILL(b) do {                                                            \
        mc_assert((b)->p >= mem && (b)->p + (b)->size <= mem + region, "block outside the region"); \
        for (k = 0; k < (b)->size; k += 97) (b)->p[k] = (uint8_t)((b) - blk + k); \
        (b)->p[(b)->size - 1] = (uint8_t)((b) - blk);                           \
    } while (0)
#define CHECK(b) do {                                                           \
        for (k = 0; k < (b)->size - 1; k += 97)                                 \
            mc_assert((b)->p[k] == (uint8_t)((b) - blk + k), "block %ld of %zu bytes lost its contents at %lu", (long)((b) - blk), (b)->size, k); \
        mc_assert((b)->p[(b)->size - 1] == (uint8_t)((b) - blk), "block %ld lost its last byte", (long)((b) - blk)); \
    } while (0)
    for (n = 0; n < 4000; ++n) {
        TICK(n);
        size = mix == 0 ? sizes[n % MC_ARRAY_SIZE(sizes)] : mix == 1 ? 300 : mix == 2 ? 70000 : sizes[n % 5];
        p = bfdev_memalloc_alloc(&pool, size);
        if (!p)
            break;
        blk[n] = (struct blk){ p, size };
        FILL(&blk[n]);
    }
    if (region == 24 << 20)
        mc_assert(n > 250, "only %lu blocks fit", n);
    for (i = 0; i < n; ++i)
        CHECK(&blk[i]);
    /* every other one grows or shrinks */
    for (i = 0; i < n; i += 2) {
        TICK(i);
        old = blk[i].size;
        size = i % 4 ? old / 2 + 1 : old + 66000;
        p = bfdev_memalloc_realloc(&pool, blk[i].p, size);
        if (!p) {
            CHECK(&blk[i]);
            continue;
        }
        blk[i] = (struct blk){ p, old < size ? old : size };
        for (k = 0; k < blk[i].size - 1; k += 97)
            mc_assert(p[k] == (uint8_t)(i + k), "realloc lost byte %lu", k);
        blk[i].size = size;
        FILL(&blk[i]);
    }
    for (i = 0; i < n; ++i) {
        struct blk *b = &blk[perm(order, i, n)];
        TICK(i);
        CHECK(b);
        bfdev_memalloc_free(&pool, b->p);
    }
    /* all of it is back in one piece */
    size = (region - sizeof(bfdev_memalloc_chunk_t)) / 64 * 64 - 64;
    p = bfdev_memalloc_alloc(&pool, size);
    mc_assert(p, "%zu bytes do not fit into an empty region of %zu", size, region);
    memset(p, 0x55, size);
    DONE("region", region * 8 + mix);
}
#define SCEN { "large-regions", s_many, { 0, 0 }, 0, 3 }
#endif

#ifdef P_C21
#include <bfdev/cache.h>

static unsigned long
my_hash(const void *tag, void *p)
{
    return (unsigned long)tag * 0x9e3779b97f4a7c15UL;
}

static long
my_find(const void *node, const void *tag, void *p)
{
    return node != tag;
}

static const bfdev_cache_ops_t ops = { .hash = my_hash, .find = my_find };
#define TAG(t) ((void *)(uintptr_t)((t) + 1))

static void
s_many(void)
{
    unsigned long n = population(), i, pend = mc_choose(2) ? n : 300, t, count = 0;
    uint8_t *taken;
    bool lfu = mc_choose(2);
    int order = mc_choose(NORDER), uses;
    bfdev_cache_node_t *node;
    bfdev_cache_head_t *cache = bfdev_cache_create(lfu ? "lfu" : "lru", &mc_alloc, &ops, n, pend, NULL);

    mc_assert(cache, "create");
    n = cache->size;
    taken = mc_zalloc(n);
    for (t = 0; t < n; ++t) {
        TICK(t);
        node = bfdev_cache_get(cache, TAG(t));
        mc_assert(node, "element %lu of %lu refused", t, n);
        mc_assert(node->index < n && !taken[node->index]++, "element index %lu given twice or out of range", node->index);
        node->data = TAG(t);
        if (++count == pend || t == n - 1) {
            mc_assert(cache->pending == count, "%lu changes pending instead of %lu", cache->pending, count);
            if (count == pend && pend < n)
                mc_assert(!bfdev_cache_get(cache, TAG(t + 1)), "more changes pending than allowed");
            bfdev_cache_committed(cache);
            count = 0;
        }
    }
    mc_assert(cache->used == n, "%lu of %lu elements used", cache->used, n);
    mc_assert(!bfdev_cache_get(cache, TAG(n)), "an exhausted cache handed out an element");
    mc_assert(bfdev_cache_starving_test(cache), "not starving");
    /* released in some order: used the more often, the later in tag order (lfu) */
    for (i = 0; i < n; ++i) {
        TICK(i);
        t = perm(order, i, n);
        node = bfdev_cache_find(cache, TAG(t));
        mc_assert(node && node->tag == TAG(t), "resident tag %lu not found", t);
        mc_assert(!bfdev_cache_put(cache, node), "put of tag %lu", t);
        if (lfu)
            for (uses = t * 3 / n; uses--;)
                mc_assert(bfdev_cache_get(cache, TAG(t)) == node && !bfdev_cache_put(cache, node), "use of tag %lu", t);
    }
    mc_assert(!cache->used, "%lu elements used", cache->used);
    for (i = 0; i < n; ++i) {
        unsigned long victim;
        TICK(i);
        node = bfdev_cache_get(cache, TAG(n + i));
        mc_assert(node, "no element although all are idle");
        victim = (uintptr_t)node->data - 1;
        if (lfu)    /* the least used third goes first */
            mc_assert(victim < n && victim * 3 / n == (count = victim * 3 / n > count ? victim * 3 / n : count), "tag %lu evicted too late", victim);
        else
            mc_assert(victim == perm(order, i, n), "tag %lu evicted instead of %lu", victim, perm(order, i, n));
        mc_assert(!bfdev_cache_find(cache, TAG(victim)), "evicted tag still found");
        node->data = TAG(n + i);
        if (cache->pending == pend || i == n - 1)
            bfdev_cache_committed(cache);
    }
    for (i = 0; i < n; ++i) {
        node = bfdev_cache_find(cache, TAG(n + i));
        mc_assert(node && node->tag == TAG(n + i), "resident tag not found");
    }
    bfdev_cache_destroy(cache);
    mc_no_leaks("destroyed cache");
    DONE("cache", n * 4 + lfu);
}
/* one element used very often: references, hits and changes counted */
static void
s_often(void)
{
    unsigned long n = population(), i;
    bool lfu = mc_choose(2);
    bfdev_cache_node_t *node, *other;
    bfdev_cache_head_t *cache = bfdev_cache_create(lfu ? "lfu" : "lru", &mc_alloc, &ops, 2, 2, NULL);

    mc_assert(cache, "create");
    other = bfdev_cache_get(cache, TAG(1));
    other->data = TAG(1);
    bfdev_cache_committed(cache);
    mc_assert(!bfdev_cache_put(cache, other), "put");
    node = bfdev_cache_get(cache, TAG(0));
    mc_assert(node && node != other, "second element");
    node->data = TAG(0);
    bfdev_cache_committed(cache);
    bfdev_cache_reset(cache);
    node = bfdev_cache_get(cache, TAG(0));
    node->data = TAG(0);
    bfdev_cache_committed(cache);
    for (i = 1; i < n; ++i) {
        TICK(i);
        mc_assert(bfdev_cache_get(cache, TAG(0)) == node, "reference %lu", i + 1);
        mc_assert(cache->hits == i && cache->misses == 1 && cache->used == 1, "%lu hits, %lu misses, %lu in use after %lu uses", cache->hits, cache->misses, cache->used, i + 1);
        mc_assert(node->refcnt == i + 1, "%lu references instead of %lu", node->refcnt, i + 1);
    }
    for (i = n; i--;) {
        TICK(i);
        mc_assert(bfdev_cache_put(cache, node) == i, "put leaves other than %lu references", i);
        mc_assert(cache->used == !!i, "%lu in use with %lu references left", cache->used, i);
    }
    for (i = 0; i < n; ++i) {   /* the same element changes hands */
        TICK(i);
        other = bfdev_cache_get(cache, TAG(10 + i));
        mc_assert(other, "element %lu refused", i);
        other->data = TAG(10 + i);
        bfdev_cache_committed(cache);
        mc_assert(cache->changed == i + 2 && cache->misses == i + 2, "%lu changes and %lu misses after %lu", cache->changed, cache->misses, i + 2);
        mc_assert(!bfdev_cache_put(cache, other), "put");
    }
    other = bfdev_cache_get(cache, TAG(0x200000));
    other->data = TAG(0x200000);
    bfdev_cache_committed(cache);
    node = bfdev_cache_get(cache, TAG(0x200001));
    node->data = TAG(0x200001);
    bfdev_cache_committed(cache);
    for (i = 0; i < n; ++i) {
        TICK(i);
        mc_assert(!bfdev_cache_get(cache, TAG(0x200002)), "third element of a cache of two");
        mc_assert(cache->starve == i, "%lu refusals counted instead of %lu", cache->starve, i);
    }
    bfdev_cache_destroy(cache);
    mc_no_leaks("destroyed cache");
    DONE("uses", n * 4 + lfu);
}
#define SCEN { "large-caches", s_many, { 0, 0 }, 0, 3 }, { "often-used", s_often, { 0, 0 }, 0, 2 }
#endif

#if defined(P_C02) || defined(P_C03)
#include <bfdev/fifo.h>
#define DYN(type, rec) struct BFDEV_BODY_FIFO_DYNAMIC(type, type, rec)
#define Q(op, q, ...) bfdev_fifo_##op(q, ##__VA_ARGS__)
#define DYNINIT(p) BFDEV_FIFO_DYNAMIC_INIT(p)
#define COUNTER(q) (q)->fifo
#define RING 0
#endif

#ifdef P_C04
#include <bfdev/ringbuf.h>
#define DYN(type, rec) struct BFDEV_BODY_RINGBUF_DYNAMIC(type, type, rec)
#define Q(op, q, ...) bfdev_ringbuf_##op(q, ##__VA_ARGS__)
#define DYNINIT(p) BFDEV_RINGBUF_DYNAMIC_INIT(p)
#define COUNTER(q) (q)->ringbuf
#define RING 1
#endif

#if defined(P_C02) || defined(P_C04)
static void
s_flat(void)
{
    static DYN(uint32_t, 0) q;
    unsigned long cap = 1UL << (mc_choose(2) ? 17 : 9), chunk = (unsigned long[]){ 1, 255, 256, 300, 65535, 65536, 70001 }[mc_choose(7)];
    unsigned long drain = (unsigned long[]){ 1, 255, 257, 65536, 70001 }[mc_choose(5)], i, k, put = 0, got = 0, want;
    uint32_t *buf = mc_malloc(70001 * sizeof(*buf));
    bool far = mc_choose(2);

    /* enough of every combination to run full and around, not more */
    q = DYNINIT(&q);
    mc_assert(!Q(alloc, &q, &mc_alloc, cap), "alloc");
    if (far)
        COUNTER(&q).in = COUNTER(&q).out = (unsigned long)-1000;
    for (i = 0; i < 3000 && (put < 3 * cap || got < put) && (put < 3 * cap || drain > 1); ++i) {
        TICK(i);
        if (put < 3 * cap) {
            for (k = 0; k < chunk; ++k)
                buf[k] = (put + k) * 2654435761u;
            want = RING ? chunk < cap ? chunk : cap : cap - (put - got) < chunk ? cap - (put - got) : chunk;
            k = Q(in, &q, buf, chunk);
            mc_assert(k == want, "in(%lu) of %lu free took %lu", chunk, cap - (put - got), k);
            put += k;
            if (put - got > cap)
                got = put - cap;
        }
        mc_assert(Q(len, &q) == put - got, "length %lu instead of %lu", Q(len, &q), put - got);
        want = put - got < drain ? put - got : drain;
        memset(buf, 0, drain * sizeof(*buf));
        k = Q(out_peek, &q, buf, drain);
        mc_assert(k == want, "peek(%lu) of %lu gave %lu", drain, put - got, k);
        mc_assert(!want || (buf[want - 1] == (uint32_t)((got + want - 1) * 2654435761u) && buf[0] == (uint32_t)(got * 2654435761u)), "peek at element %lu", got);
        memset(buf, 0, drain * sizeof(*buf));
        k = Q(out, &q, buf, drain);
        mc_assert(k == want, "out(%lu) of %lu gave %lu", drain, put - got, k);
        for (k = 0; k < want; ++k)
            mc_assert(buf[k] == (uint32_t)((got + k) * 2654435761u), "element %lu", got + k);
        got += want;
    }
    Q(free, &q);
    mc_no_leaks("freed buffer");
    DONE("transfers", cap * 8 + chunk + drain);
}
#endif

#if defined(P_C03) || defined(P_C04)
static void
s_record(void)
{
    static DYN(uint8_t, 1) q1;
    static DYN(uint8_t, 2) q2;
    int rec = 1 + mc_choose(2);
    unsigned long cap = 1UL << (mc_choose(2) ? 17 : 9), first = mc_choose(5), i, k, n, size, used = 0, put = 0, got = 0, limit = rec == 1 ? 255 : 65535;
    static const unsigned long sizes[] = { 255, 1, 256, 254, 300, 4095, 65535, 65536, 7, 70001, 257, 65534 };
    static unsigned long len[4096];
    uint8_t *buf = mc_malloc(70002);
    unsigned outs = 1 + mc_choose(3);

    q1 = (typeof(q1))DYNINIT(&q1);
    q2 = (typeof(q2))DYNINIT(&q2);
    mc_assert(!(rec == 1 ? Q(alloc, &q1, &mc_alloc, cap) : Q(alloc, &q2, &mc_alloc, cap)), "alloc");
    for (i = 0; i < 400; ++i) {
        TICK(i);
        size = sizes[(first + i * (1 + 2 * first)) % MC_ARRAY_SIZE(sizes)];
        if (RING && size > cap - rec)
            size = cap - rec;
        for (k = 0; k < size; ++k)
            buf[k] = put * 31 + k;
        n = rec == 1 ? Q(in, &q1, buf, size) : Q(in, &q2, buf, size);
        if (RING) {
            size = size > limit ? limit : size;
            mc_assert(n == size, "record of %lu bytes accepted as %lu", size, n);
            for (; used + rec + size > cap; ++got)
                used -= rec + len[got];
        } else if (size > limit || used + rec + size > cap)
            mc_assert(!n, "record of %lu bytes accepted as %lu with %lu of %lu used", size, n, used, cap);
        else
            mc_assert(n == size, "record of %lu bytes accepted as %lu with %lu of %lu used", size, n, used, cap);
        if (n) {
            len[put++] = n;
            used += rec + n;
        }
        n = rec == 1 ? Q(len, &q1) : Q(len, &q2);
        mc_assert(n == used, "%lu bytes in use instead of %lu", n, used);
        for (k = (i / 7) % 3 == 2 || (!RING && used + 66000 > cap) ? outs : 0; k-- && got < put; ) {
            memset(buf, 0, 70002);
            n = rec == 1 ? Q(out, &q1, buf, 70001) : Q(out, &q2, buf, 70001);
            mc_assert(n == len[got], "record of %lu bytes came out as %lu", len[got], n);
            for (size = 0; size < n; ++size)
                mc_assert(buf[size] == (uint8_t)(got * 31 + size), "byte %lu of a record of %lu", size, n);
            mc_assert(!buf[n], "written behind the record");
            used -= rec + len[got++];
        }
    }
    if (rec == 1)
        Q(free, &q1);
    else
        Q(free, &q2);
    mc_no_leaks("freed buffer");
    DONE("records", cap * 8 + first * 2 + rec);
}
#endif

#ifdef P_C02
#define SCEN { "large-transfers", s_flat, { 0, 0 }, 0, 2 }
#elif defined(P_C03)
#define SCEN { "large-records", s_record, { 0, 0 }, 0, 2 }
#elif defined(P_C04)
#define SCEN { "large-transfers", s_flat, { 0, 0 }, 0, 2 }, { "large-records", s_record, { 0, 0 }, 0, 2 }
#endif

const mc_scenario_t mc_scenarios[] = {
    SCEN,
    { NULL },
};
