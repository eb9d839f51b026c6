/*
 * Allocation failures. Every history of operations of every component that allocates, with
 * every placement of failing allocations, next to a twin which never lacks memory and only
 * sees the operations that succeeded: a refused operation reports it and leaves no trace,
 * repeating it with memory there succeeds, and in the end every block is given back once.
 * Or the memory is a small pool of the library's own allocator, which runs out by itself.
 */
#include "mc.h"
#include <bfdev/array.h>
#include <bfdev/argv.h>
#include <bfdev/bitmap.h>
#include <bfdev/bloom.h>
#include <bfdev/btree.h>
#include <bfdev/cache.h>
#include <bfdev/fifo.h>
#include <bfdev/fsm.h>
#include <bfdev/hashmap.h>
#include <bfdev/levenshtein.h>
#include <bfdev/matrix.h>
#include <bfdev/memalloc.h>
#include <bfdev/mpi.h>
#include <bfdev/radix.h>
#include <bfdev/ringbuf.h>
#include <bfdev/skiplist.h>
#include <bfdev/string.h>
#include <bfdev/textsearch.h>

enum { REAL, TWIN };
#define REFUSED 1000000L        /* the operation says that there was no memory */
static const bfdev_alloc_t *mem[2];
static int who, seqno[2];       /* running instance; operations it has done */

/* the small pool */
static bfdev_memalloc_head_t *pool;
static int pool_full;

static void *pool_alloc(size_t size, void *pdata)
{
    void *p = bfdev_memalloc_alloc(pool, size);

    pool_full += !p;
    if (p)
        memset(p, 0xa5, size);
    return p;
}

static void *pool_zalloc(size_t size, void *pdata)
{
    void *p = pool_alloc(size, pdata);

    if (p)
        memset(p, 0, size);
    return p;
}

static void *pool_realloc(void *block, size_t resize, void *pdata)
{
    void *p = bfdev_memalloc_realloc(pool, block, resize);

    pool_full += !p;
    return p;
}

static void pool_free(void *block, void *pdata)
{
    bfdev_memalloc_free(pool, block);
}

static const bfdev_alloc_ops_t pool_ops = {
    .alloc = pool_alloc, .zalloc = pool_zalloc, .realloc = pool_realloc, .free = pool_free,
};
static const bfdev_alloc_t pool_mem = { .ops = &pool_ops };

int rand(void)
{
    /* tower heights of the skip list: the same ones for both */
    return seqno[who] & 1 << 2 ? 0 : RAND_MAX;
}

/* queues with and without storage */

static BFDEV_DECLARE_FIFO_DYNAMIC(queue0, int), queue1;

static long fifo_op(int op)
{
    typeof(queue0) *q = who ? (void *)&queue1 : (void *)&queue0;
    int v = seqno[who], ret;

    switch (op) {
    case 0: case 1:
        if (bfdev_fifo_initialized(q))
            return -1;
        ret = bfdev_fifo_alloc(q, mem[who], op ? 5 : 2);
        return ret == -BFDEV_ENOMEM ? REFUSED : ret;
    case 2:
        if (bfdev_fifo_initialized(q))
            bfdev_fifo_free(q);
        return 0;
    case 3:
        return bfdev_fifo_initialized(q) ? bfdev_fifo_put(q, v) : -1;
    default:
        return bfdev_fifo_initialized(q) ? bfdev_fifo_get(q, &v) * 100 + v : -1;
    }
}

static uint64_t fifo_look(void)
{
    typeof(queue0) *q = who ? (void *)&queue1 : (void *)&queue0;
    uint64_t h = !!bfdev_fifo_initialized(q);
    int buf[16], n, i;

    if (!h)
        return h;
    n = bfdev_fifo_out_peek(q, buf, 16);
    h = mc_mix(mc_mix(h, bfdev_fifo_size(q)), n);
    for (i = 0; i < n; i++)
        h = mc_mix(h, buf[i]);
    return h;
}

static void fifo_init(void)
{
    queue0 = (typeof(queue0))BFDEV_FIFO_DYNAMIC_INIT(&queue0);
    memcpy(&queue1, &queue0, sizeof(queue0));
}

static void fifo_done(void)
{
    fifo_op(2);
}

static BFDEV_DECLARE_RINGBUF_DYNAMIC(ring0, int), ring1;

static long ring_op(int op)
{
    typeof(ring0) *q = who ? (void *)&ring1 : (void *)&ring0;
    int v = seqno[who], ret;

    switch (op) {
    case 0: case 1:
        if (bfdev_ringbuf_initialized(q))
            return -1;
        ret = bfdev_ringbuf_alloc(q, mem[who], op ? 5 : 2);
        return ret == -BFDEV_ENOMEM ? REFUSED : ret;
    case 2:
        if (bfdev_ringbuf_initialized(q))
            bfdev_ringbuf_free(q);
        return 0;
    case 3:
        return bfdev_ringbuf_initialized(q) ? bfdev_ringbuf_put(q, v) : -1;
    default:
        return bfdev_ringbuf_initialized(q) ? bfdev_ringbuf_get(q, &v) * 100 + v : -1;
    }
}

static uint64_t ring_look(void)
{
    typeof(ring0) *q = who ? (void *)&ring1 : (void *)&ring0;
    uint64_t h = !!bfdev_ringbuf_initialized(q);
    int buf[16], n, i;

    if (!h)
        return h;
    n = bfdev_ringbuf_out_peek(q, buf, 16);
    h = mc_mix(mc_mix(h, bfdev_ringbuf_size(q)), n);
    for (i = 0; i < n; i++)
        h = mc_mix(h, buf[i]);
    return h;
}

static void ring_init(void)
{
    ring0 = (typeof(ring0))BFDEV_RINGBUF_DYNAMIC_INIT(&ring0);
    memcpy(&ring1, &ring0, sizeof(ring0));
}

static void ring_done(void)
{
    ring_op(2);
}

/* array */

static bfdev_array_t arr[2];

static long array_op(int op)
{
    static const int pushes[] = { 1, 20, 40 };
    bfdev_array_t *a = &arr[who];
    unsigned char *p;
    unsigned long i, old;
    int ret;

    switch (op) {
    case 0: case 1: case 2:
        p = bfdev_array_push(a, pushes[op]);
        if (!p)
            return REFUSED;
        memset(p, seqno[who] + 1, pushes[op] * 3);
        return 0;
    case 3:
        p = bfdev_array_pop(a, 1);
        return p ? *p : -1;
    case 4:
        bfdev_array_reset(a);
        return 0;
    case 5:
        old = bfdev_array_index(a);
        ret = bfdev_array_resize(a, 70);
        if (ret)
            return ret == -BFDEV_ENOMEM ? REFUSED : ret;
        for (i = old; i < 70; i++)
            memset(bfdev_array_data(a, i), 99, 3);
        return 0;
    case 6:
        ret = bfdev_array_reserve(a, 50);
        return ret == -BFDEV_ENOMEM ? REFUSED : ret;
    default:
        bfdev_array_release(a);
        return 0;
    }
}

static uint64_t array_look(void)
{
    unsigned long n = bfdev_array_index(&arr[who]);

    return n ? mc_mix_bytes(n, bfdev_array_data(&arr[who], 0), n * 3) : 0;
}

static void array_init(void)
{
    for (int i = 0; i < 2; i++)
        bfdev_array_init(&arr[i], mem[i], 3);
}

static void array_done(void)
{
    bfdev_array_release(&arr[who]);
}

/* hash map, filled up to the next extension */

#define ENTS 96
static struct ent { unsigned long key; bfdev_hlist_node_t node; bool in; } ents[2][ENTS];
static bfdev_hashmap_t map[2];

#define ENT(n) bfdev_hlist_entry(n, struct ent, node)
static unsigned long map_hash_key(const void *key, void *pdata) { return (unsigned long)key >> 1; }
static unsigned long map_hash_node(const bfdev_hlist_node_t *n, void *pdata) { return ENT(n)->key >> 1; }
static long map_equal(const bfdev_hlist_node_t *a, const bfdev_hlist_node_t *b, void *pdata) { return ENT(a)->key != ENT(b)->key; }
static long map_find(const bfdev_hlist_node_t *a, const void *key, void *pdata) { return ENT(a)->key != (unsigned long)key; }
static const bfdev_hashmap_ops_t map_ops = {
    .hash_key = map_hash_key, .hash_node = map_hash_node, .equal = map_equal, .find = map_find,
};

static struct ent *ent_free(void)
{
    int i;

    for (i = 0; ents[who][i].in; i++)
        ;
    return &ents[who][i];
}

static long map_op(int op)
{
    static unsigned long fresh[2];
    bfdev_hlist_node_t *old = NULL;
    struct ent *e = ent_free();
    int i, ret;

    switch (op) {
    case 0:                     /* a new key */
    case 1:                     /* add key 2, which may be there */
    case 2:                     /* set key 2 */
    case 3:                     /* append key 2 */
        e->key = op ? 2 : 200 + seqno[who];
        if (op < 2)
            ret = bfdev_hashmap_add(&map[who], &e->node);
        else if (op == 2)
            ret = bfdev_hashmap_set(&map[who], &e->node, &old);
        else
            ret = bfdev_hashmap_append(&map[who], &e->node);
        e->in = !ret;
        if (old && !ret)
            ENT(old)->in = false;
        return ret == -BFDEV_ENOMEM ? REFUSED : ret * 10 + !!old;
    case 4:                     /* the smallest key goes */
        for (e = NULL, i = 0; i < ENTS; i++)
            if (ents[who][i].in && (!e || ents[who][i].key < e->key))
                e = &ents[who][i];
        ret = bfdev_hashmap_del(&map[who], (void *)(e ? e->key : 1000), &old);
        if (!ret)
            ENT(old)->in = false;
        return ret * 100000 + (old ? (long)ENT(old)->key : -1);
    default:
        bfdev_hashmap_release(&map[who]);
        memset(ents[who], 0, sizeof(ents[who]));
        fresh[who] = 0;
        return 0;
    }
}

static uint64_t map_look(void)
{
    uint64_t sum = 0;
    unsigned long index, n = 0, k;
    bfdev_hlist_node_t *walk;
    static int seen[400];

    memset(seen, 0, sizeof(seen));
    bfdev_hashmap_for_each(walk, &map[who], index) {
        mc_assert(ENT(walk) >= ents[who] && ENT(walk) < ents[who] + ENTS && ENT(walk)->in, "an entry in the map is not one that was added");
        mc_assert(n++ < ENTS, "the map does not end");
        seen[ENT(walk)->key]++;
    }
    mc_assert(map[who].used == n, "the map counts %lu of %lu entries", (unsigned long)map[who].used, n);
    for (k = 0; k < 400; k++) {
        mc_assert(!seen[k] == !bfdev_hashmap_find(&map[who], (void *)k), "key %lu, which is there %d times, is %s", k, seen[k], seen[k] ? "not found" : "found");
        sum = mc_mix(sum, seen[k]);
    }
    return sum;
}

static void map_init(void)
{
    /* 24 of 32: the first extension; 6: the last shrink */
    static const int fill[] = { 0, 24, 48, 13 };
    int i, n = fill[mc_choose(4)];

    memset(ents, 0, sizeof(ents));
    for (who = 0; who < 2; who++) {
        bfdev_hashmap_init(&map[who], mem[who], &map_ops, NULL);
        for (i = 0; i < (n == 13 ? 30 : n); i++)
            map_op(0), seqno[who]++;
        for (; i > n; i--)
            map_op(4);
    }
}

static void map_done(void)
{
    map_op(5);
}

/* radix tree */

static BFDEV_GENERIC_RADIX(uint32_t) radix0, radix1;
static const unsigned long radix_index[] = { 0, 63, 64, 64 * 32, 64 * 32 * 32 + 5, 1UL << 40 };

static long radix_op(int op)
{
    typeof(radix0) *r = who ? (void *)&radix1 : (void *)&radix0;
    uint32_t *p;
    int ret;

    if (op < 6) {
        p = bfdev_radix_alloc(r, radix_index[op]);
        if (!p)
            return REFUSED;
        *p = seqno[who];
        return 0;
    } else if (op < 9) {
        bfdev_radix_free(r, radix_index[(op - 6) * 2]);
        return 0;
    } else if (op < 11) {
        ret = bfdev_radix_charge(r, radix_index[op == 9 ? 1 : 3], op == 9 ? 130UL : 64UL);
        return ret == -BFDEV_ENOMEM ? REFUSED : ret;
    }
    bfdev_radix_release(r);
    return 0;
}

static uint64_t radix_look(void)
{
    typeof(radix0) *r = who ? (void *)&radix1 : (void *)&radix0;
    uintptr_t index;
    uint64_t h = 0;
    uint32_t *p;
    int n = 0;

    bfdev_radix_for_each(p, r, &index) {
        mc_assert(n++ < 1000, "the iteration does not end");
        mc_assert(bfdev_radix_find(r, index) == p, "element %lu is not the one iterated", (long)index);
        h = mc_mix(mc_mix(h, index), *p);
    }
    return h;
}

/* a charge in parts: what was there still is */
static void radix_covers(void)
{
    uintptr_t index;
    uint32_t *p, *q;

    bfdev_radix_for_each(p, &radix1, &index) {
        q = bfdev_radix_find(&radix0, index);
        mc_assert(q && *q == *p, "radix: refused charge changed element %lu", (long)index);
    }
    who = REAL;
    radix_look();
}

static void radix_init(void)
{
    radix0 = (typeof(radix0))BFDEV_RADIX_INIT(&radix0, mem[0]);
    radix1 = (typeof(radix1))BFDEV_RADIX_INIT(&radix1, mem[1]);
}

static void radix_done(void)
{
    radix_op(11);
}

/* B+tree with nodes of four keys */

static bfdev_btree_layout_t layout4 = { .keylen = 1, .keynum = 4, .ptrindex = 4, .nodesize = 8 * sizeof(uintptr_t) };
static bfdev_btree_ops_t tree_ops = { .alloc = bfdev_btree_alloc, .free = bfdev_btree_free, .find = bfdev_btree_key_find };
static bfdev_btree_root_t btree[2];
static char treevals[64];

static long btree_op(int op)
{
    static const uintptr_t keys[] = { 1, 9, 30, 55, 99 };
    uintptr_t k = keys[op % 5];
    void *p;
    int ret;

    if (op < 5) {
        ret = bfdev_btree_insert(&btree[who], &k, &treevals[seqno[who] & 63]);
        return ret == -BFDEV_ENOMEM ? REFUSED : ret;
    }
    k = op == 5 ? 1 : op == 6 ? 30 : op == 7 ? 40 : 20;
    p = bfdev_btree_remove(&btree[who], &k);
    return p ? (char *)p - treevals : -1;
}

static uint64_t btree_look(void)
{
    uintptr_t k, last = 0;
    uint64_t h = 0;
    void *p;
    int n = 0;

    bfdev_btree_for_each_reverse(&btree[who], &k, p) {
        mc_assert(n++ < 1000, "the iteration does not end");
        h = mc_mix(mc_mix(h, k), (char *)p - treevals);
    }
    n = 0;
    bfdev_btree_for_each(&btree[who], &k, p) {
        mc_assert(n++ < 1000, "the iteration does not end");
        mc_assert((!last || k < last) && bfdev_btree_lookup(&btree[who], &k) == p, "key %lu is not where it belongs", (long)k);
        last = k;
        h = mc_mix(mc_mix(h, k), (char *)p - treevals);
    }
    return h;
}

static void btree_init(void)
{
    static const int fill[] = { 0, 4, 7, 16, 25 };
    int n = fill[mc_choose(5)], up = mc_choose(2);
    uintptr_t i, k;

    for (who = 0; who < 2; who++) {
        bfdev_btree_init(&btree[who], &layout4, &tree_ops, NULL);
        btree[who].alloc = mem[who];
        for (i = 0; i < (uintptr_t)n; i++) {
            k = 10 + 2 * (up ? i : n - i);
            bfdev_btree_insert(&btree[who], &k, &treevals[i]);
        }
    }
}

static void btree_done(void)
{
    bfdev_btree_release(&btree[who], NULL, NULL);
}

/* skip list */

static bfdev_skip_head_t *skip[2];
static int skipkeys[100];

static long skip_cmp(const void *a, const void *b, void *pdata) { return *(const int *)a - *(const int *)b; }
static long skip_find(const void *a, void *pdata) { return *(const int *)a - *(const int *)pdata; }

static long skip_op(int op)
{
    int ret, k = op < 6 ? op / 2 : op - 6;

    switch (op) {
    case 0: case 1: case 2: case 3: case 4: case 5:
        if (op & 1 && bfdev_skiplist_find(skip[who], skip_find, &skipkeys[k]))
            return -1;
        ret = bfdev_skiplist_insert(skip[who], &skipkeys[k], skip_cmp, NULL);
        return ret == -BFDEV_ENOMEM ? REFUSED : ret;
    case 6: case 7: case 8:
        bfdev_skiplist_delete(skip[who], skip_find, &skipkeys[k]);
        return 0;
    case 9:
        bfdev_skiplist_reset(skip[who], NULL, NULL);
        return 0;
    case 10:
        if (skip[who])
            bfdev_skiplist_destroy(skip[who], NULL, NULL);
        /* fall through */
    default:
        skip[who] = bfdev_skiplist_create(mem[who], 3);
        return skip[who] ? 0 : REFUSED;
    }
}

static uint64_t skip_look(void)
{
    bfdev_skip_node_t *pos;
    uint64_t h = 0;
    int n = 0;

    bfdev_skiplist_for_each(pos, skip[who], 0) {
        mc_assert(n++ < 100, "the list does not end");
        h = mc_mix(h, (int *)pos->key - skipkeys);
    }
    return h;
}

static void skip_init(void)
{
    for (who = 0; who < 100; who++)
        skipkeys[who] = who;
    for (who = 0; who < 2; who++)
        skip_op(11);
}

static void skip_done(void)
{
    bfdev_skiplist_destroy(skip[who], NULL, NULL);
}

/* integers: one without storage, one word, two words, two of a full array */

#define REGS 5
static bfdev_mpi_t reg[2][REGS];
static const struct { uint8_t f, d, e, a, b; } mpiops[] = {
    { 0, 0, 0, 1, 2 }, { 0, 3, 0, 3, 4 }, { 0, 1, 0, 3, 1 }, { 1, 0, 0, 3, 2 }, { 1, 3, 0, 3, 4 }, { 1, 2, 0, 1, 2 },
    { 2, 0, 0, 1, 1 }, { 2, 2, 0, 2, 2 }, { 2, 3, 0, 3, 2 }, { 2, 4, 0, 3, 4 }, { 3, 0, 1, 3, 2 }, { 3, 3, 4, 3, 4 },
    { 3, 0, 2, 3, 1 }, { 3, 2, 0, 4, 2 }, { 4, 0, 0, 3, 2 }, { 4, 4, 0, 3, 4 }, { 5, 0, 0, 3, 4 }, { 6, 0, 0, 1, 4 }, { 6, 1, 0, 1, 4 },
    { 7, 0, 0, 2, 4 }, { 8, 3, 0, 3, 0 }, { 8, 0, 0, 3, 0 }, { 9, 0, 0, 3, 0 }, { 10, 0, 0, 0, 0 }, { 11, 0, 0, 3, 0 },
    { 11, 1, 0, 3, 0 }, { 12, 0, 0, 0, 0 }, { 13, 0, 0, 0, 0 }, { 14, 4, 0, 4, 0 }, { 15, 0, 0, 4, 0 }, { 16, 1, 0, 0, 0 }, { 17, 0, 1, 3, 0 }, { 18, 0, 0, 3, 0 },
    { 1, 0, 0, 3, 3 }, { 1, 1, 0, 4, 4 }, { 3, 0, 1, 4, 4 }, { 3, 0, 2, 1, 3 }, { 3, 1, 0, 2, 3 }, { 4, 0, 0, 1, 3 }, { 4, 0, 0, 3, 3 }, { 19, 0, 0, 3, 0 },
    { 20, 3, 0, 0, 0 }, { 0, 0, 0, 0, 3 }, { 1, 0, 0, 0, 3 }, { 1, 1, 0, 3, 0 }, { 2, 1, 0, 0, 3 }, { 5, 1, 0, 0, 3 }, { 7, 0, 0, 4, 4 }, { 9, 0, 0, 1, 0 },
};

static long mpi_op(int op)
{
    bfdev_mpi_t *r = reg[who], *d = &r[mpiops[op].d], *e = &r[mpiops[op].e], *a = &r[mpiops[op].a], *b = &r[mpiops[op].b];
    static BFDEV_MPI_TYPE words[40];
    int ret;

    switch (mpiops[op].f) {
    case 0: ret = bfdev_mpi_add(d, a, b); break;
    case 1: ret = bfdev_mpi_sub(d, a, b); break;
    case 2: ret = bfdev_mpi_mul(d, a, b); break;
    case 3: ret = bfdev_mpi_length(b) ? bfdev_mpi_div(d, e, a, b) : -1; break;
    case 4: ret = bfdev_mpi_length(b) ? bfdev_mpi_mod(d, a, b) : -1; break;
    case 5: ret = bfdev_mpi_and(d, a, b); break;
    case 6: ret = bfdev_mpi_or(d, a, b); break;
    case 7: ret = bfdev_mpi_xor(d, a, b); break;
    case 8: ret = bfdev_mpi_shli(d, a, 70); break;
    case 9: ret = bfdev_mpi_shri(d, a, 70); break;
    case 10: ret = bfdev_mpi_seti(d, 77); break;
    case 11: ret = bfdev_mpi_set(d, a); break;
    case 12:
        memset(words, 0x5a, sizeof(words));
        ret = bfdev_mpi_import(d, words, 40, true);
        break;
    case 13: ret = bfdev_mpi_bseti(d, 64 * 40 + 3); break;
    case 14: ret = bfdev_mpi_muli(d, a, 1000000007); break;
    case 15: ret = bfdev_mpi_addi(d, a, ~0UL); break;
    case 16: bfdev_mpi_release(d); bfdev_mpi_init(d, (void *)mem[who]); ret = 0; break;
    case 17: ret = bfdev_mpi_divi(d, e, a, 12345); break;
    case 19: ret = bfdev_mpi_modi(d, a, 12345); break;
    case 20: ret = bfdev_mpi_bclri(d, 64 * 31 + 5); break;
    default: ret = bfdev_mpi_subi(d, a, ~0UL - 2); break;
    }
    return ret == -BFDEV_ENOMEM ? REFUSED : ret;
}

static uint64_t mpi_look(void)
{
    const BFDEV_MPI_TYPE *p;
    unsigned long n;
    uint64_t h = 0;
    bool sign;
    int i;

    for (i = 0; i < REGS; i++) {
        p = bfdev_mpi_data(&reg[who][i], &sign);
        n = bfdev_mpi_length(&reg[who][i]);
        h = mc_mix(mc_mix(h, n), n ? sign : 0);
        if (n)
            h = mc_mix_bytes(h, p, n * sizeof(*p));
    }
    return h;
}

static void mpi_init(void)
{
    static BFDEV_MPI_TYPE words[32];
    int i;

    for (i = 0; i < 32; i++)
        words[i] = i == 31 ? ~0UL : 0x9e3779b97f4a7c15UL * (i + 1);
    for (who = 0; who < 2; who++) {
        for (i = 0; i < REGS; i++)
            bfdev_mpi_init(&reg[who][i], (void *)mem[who]);
        bfdev_mpi_seti(&reg[who][1], 5);
        bfdev_mpi_import(&reg[who][2], words, 2, mc_arg & 1);
        bfdev_mpi_import(&reg[who][3], words, 32, true);
        words[31]--;
        bfdev_mpi_import(&reg[who][4], words, 32, true);
        words[31]++;
    }
}

static void mpi_done(void)
{
    for (int i = 0; i < REGS; i++)
        bfdev_mpi_release(&reg[who][i]);
}

/* matrices: none, 2x2, 4x8, 8x4 */

#define MATS 4
static bfdev_matrix_t mat[2][MATS];
static const struct { uint8_t f, d, a, b; } matops[] = {
    { 0, 0, 1, 1 }, { 0, 1, 1, 1 }, { 0, 1, 2, 2 }, { 1, 0, 2, 2 }, { 2, 0, 2, 3 }, { 2, 2, 2, 3 }, { 2, 3, 3, 2 }, { 2, 1, 1, 1 },
    { 3, 0, 2, 0 }, { 3, 1, 2, 0 }, { 4, 0, 3, 0 }, { 4, 1, 3, 0 }, { 5, 0, 0, 0 }, { 5, 1, 0, 0 }, { 6, 1, 0, 0 },
};

static long mat_op(int op)
{
    static BFDEV_MATRIX_TYPE vals[81];
    bfdev_matrix_t *d = &mat[who][matops[op].d], *a = &mat[who][matops[op].a], *b = &mat[who][matops[op].b];
    int ret, i;

    switch (matops[op].f) {
    case 0: ret = a->row && b->row ? bfdev_matrix_add(d, a, b) : -1; break;
    case 1: ret = a->row && b->row ? bfdev_matrix_sub(d, a, b) : -1; break;
    case 2: ret = a->row && b->row ? bfdev_matrix_mul(d, a, b) : -1; break;
    case 3: ret = a->row ? bfdev_matrix_trans(d, a) : -1; break;
    case 4: ret = a->row ? bfdev_matrix_set(d, a) : -1; break;
    case 5:
        for (i = 0; i < 81; i++)
            vals[i] = i * 7 + 1;
        ret = bfdev_matrix_import(d, vals, 9, 9);
        break;
    default: bfdev_matrix_release(d); *d = BFDEV_MATRIX_INIT(mem[who]); ret = 0; break;
    }
    return ret == -BFDEV_ENOMEM ? REFUSED : ret;
}

static uint64_t mat_look(void)
{
    uint64_t h = 0;
    unsigned i, r, c;

    for (i = 0; i < MATS; i++) {
        h = mc_mix(mc_mix(h, mat[who][i].row), mat[who][i].col);
        for (r = 0; r < mat[who][i].row; r++)
            for (c = 0; c < mat[who][i].col; c++)
                h = mc_mix(h, *bfdev_matrix_data(&mat[who][i], r, c));
    }
    return h;
}

static void mat_init(void)
{
    BFDEV_MATRIX_TYPE vals[32];
    int i;

    for (who = 0; who < 2; who++) {
        for (i = 0; i < MATS; i++)
            bfdev_matrix_init(&mat[who][i], mem[who]);
        for (i = 0; i < 32; i++)
            vals[i] = i + 3;
        bfdev_matrix_import(&mat[who][1], vals, 2, 2);
        bfdev_matrix_import(&mat[who][2], vals, 4, 8);
        bfdev_matrix_import(&mat[who][3], vals, 8, 4);
    }
}

static void mat_done(void)
{
    for (int i = 0; i < MATS; i++)
        bfdev_matrix_release(&mat[who][i]);
}

/* state machine with a stack of states; callbacks count */

static bfdev_fsm_t fsm[2];
static bfdev_fsm_state_t st[3];
static int calls[2];

static int fsm_action(bfdev_fsm_event_t *event, void *data, void *curr, void *next) { calls[who]++; return 0; }
static int fsm_enter(bfdev_fsm_event_t *event, void *data) { calls[who] += 100; return 0; }

static bfdev_fsm_transition_t trans[3][3] = {
    { { .type = 0, .next = &st[1], .stack = 1, .action = fsm_action }, { .type = 1, .stack = -1 }, { .type = 2, .next = &st[2] } },
    { { .type = 0, .next = &st[2], .stack = 1, .action = fsm_action }, { .type = 1, .stack = -1 }, { .type = 2, .next = &st[0] } },
    { { .type = 0, .next = &st[0], .stack = 2, .action = fsm_action }, { .type = 1, .stack = -1 }, { .type = 2, .next = &st[1] } },
};

static long fsm_op(int op)
{
    bfdev_fsm_event_t event = { .type = op };
    int i, ret = 0;

    switch (op) {
    case 3:
        bfdev_fsm_reset(&fsm[who], &st[0]);
        return 0;
    case 4:                     /* fill the stack up to where it has to grow */
        for (i = 0; i < 31 && bfdev_fsm_curr(&fsm[who]); i++) {
            event.type = 0;
            ret = bfdev_fsm_handle(&fsm[who], &event);
            if (ret == -BFDEV_ENOMEM)
                return !i ? REFUSED : i;
        }
        return i;
    default:
        ret = bfdev_fsm_handle(&fsm[who], &event);
        return ret == -BFDEV_ENOMEM ? REFUSED : ret;
    }
}

static uint64_t fsm_look(void)
{
    bfdev_fsm_state_t **p;
    unsigned long i;
    uint64_t h = mc_mix(bfdev_fsm_curr(&fsm[who]) - st, bfdev_fsm_prev(&fsm[who]) - st);

    h = mc_mix(h, calls[who]);
    for (i = 1; (p = bfdev_array_peek(&fsm[who].stack, i)); i++)
        h = mc_mix(h, *p - st);
    return h;
}

static void fsm_init(void)
{
    int i;

    for (i = 0; i < 3; i++)
        st[i] = (bfdev_fsm_state_t){ .trans = trans[i], .tnum = 3, .enter = fsm_enter };
    for (i = 0; i < 2; i++) {
        bfdev_fsm_init(&fsm[i], mem[i], &st[0], NULL);
        calls[i] = 0;
    }
}

static void fsm_done(void)
{
    bfdev_array_release(&fsm[who].stack);
}

/* things that are created whole: creating one that is there releases it */

static struct {
    char **argv, *dup, *ndup;
    unsigned long *map, *zmap;
    bfdev_bloom_t *bloom;
    bfdev_ts_context_t *ts[3];
    bfdev_cache_head_t *cache[2];
} obj[2];

static unsigned bloom_hash(unsigned func, const void *key, void *pdata) { return *(const int *)key * 7 + func; }
static unsigned long cache_hash(const void *tag, void *pdata) { return (unsigned long)tag; }
static long cache_find(const void *node, const void *tag, void *pdata) { return (long)node - (long)tag; }
static const bfdev_cache_ops_t cache_ops = { .hash = cache_hash, .find = cache_find };
static const char *const algos[] = { "kmp", "bm", "sunday" };

static long obj_op(int op)
{
    const bfdev_alloc_t *m = mem[who];
    typeof(obj[0]) *o = &obj[who];
    static int key = 5;
    unsigned n;
    int i;

#define TOGGLE(field, create, destroy) do {             \
    if (o->field) {                                     \
        destroy;                                        \
        o->field = NULL;                                \
        return 1;                                       \
    }                                                   \
    o->field = create;                                  \
    return o->field ? 0 : REFUSED;                      \
} while (0)
    switch (op) {
    case 0: TOGGLE(argv, bfdev_argv_split(m, "one  two", NULL), bfdev_argv_destroy(m, o->argv));
    case 1: TOGGLE(dup, bfdev_strdup(m, "text"), bfdev_free(m, o->dup));
    case 2: TOGGLE(ndup, bfdev_strndup(m, "text", 3), bfdev_free(m, o->ndup));
    case 3:
        if (!o->map) {
            o->map = bfdev_bitmap_alloc(m, 130);
            if (!o->map)
                return REFUSED;
            memset(o->map, 0x11, 24);
            return 0;
        }
        bfdev_bitmap_free(m, o->map);
        o->map = NULL;
        return 1;
    case 4: TOGGLE(zmap, bfdev_bitmap_zalloc(m, 130), bfdev_bitmap_free(m, o->zmap));
    case 5:
        if (o->bloom) {
            bfdev_bloom_destroy(o->bloom);
            o->bloom = NULL;
            return 1;
        }
        o->bloom = bfdev_bloom_create(m, 100, bloom_hash, 2, NULL);
        if (!o->bloom)
            return REFUSED;
        bfdev_bloom_push(o->bloom, &key);
        return 0;
    case 6: case 7: case 8:
        i = op - 6;
        TOGGLE(ts[i], bfdev_textsearch_create(m, algos[i], "abcab", 5, 0), bfdev_textsearch_destroy(o->ts[i]));
    case 9: case 10:
        i = op - 9;
        TOGGLE(cache[i], bfdev_cache_create(i ? "lfu" : "lru", m, &cache_ops, 3, 1, NULL), bfdev_cache_destroy(o->cache[i]));
    default:
        n = bfdev_levenshtein(m, "kitten", "sitting", 1, 1, 1, 1);
        return n == UINT32_MAX ? REFUSED : n;
    }
}

static uint64_t obj_look(void)
{
    typeof(obj[0]) *o = &obj[who];
    uint64_t h = 0;
    int i, k;

    for (i = 0; o->argv && o->argv[i]; i++)
        h = mc_mix_bytes(h, o->argv[i], strlen(o->argv[i]) + 1);
    if (o->dup)
        h = mc_mix_bytes(h, o->dup, 5);
    if (o->ndup)
        h = mc_mix_bytes(h, o->ndup, 4);
    if (o->map)
        h = mc_mix_bytes(h, o->map, 17);
    if (o->zmap)
        h = mc_mix_bytes(h, o->zmap, 17);
    for (k = 0; o->bloom && k < 8; k++)
        h = mc_mix(h, bfdev_bloom_peek(o->bloom, &k));
    for (i = 0; i < 3; i++)
        if (o->ts[i]) {
            bfdev_ts_linear_t linear = { };

            h = mc_mix(h, bfdev_textsearch_linear(o->ts[i], &linear, "xxabcabcab", 10));
        }
    for (i = 0; i < 2; i++)
        if (o->cache[i])
            h = mc_mix(h, o->cache[i]->size * 100 + o->cache[i]->used);
    return h;
}

static void obj_init(void)
{
    memset(obj, 0, sizeof(obj));
}

static void obj_done(void)
{
    typeof(obj[0]) *o = &obj[who];
    int i;

    for (i = 0; i < 11; i++)
        if (i == 0 ? !!o->argv : i == 1 ? !!o->dup : i == 2 ? !!o->ndup : i == 3 ? !!o->map : i == 4 ? !!o->zmap :
            i == 5 ? !!o->bloom : i < 9 ? !!o->ts[i - 6] : !!o->cache[i - 9])
            obj_op(i);
}

enum { FIFO, RING, ARRAY, MAP, RADIX, BTREE, SKIP, MPI, MAT, FSM, OBJ, NCOMP };
static const struct {
    const char *name;
    int nops;
    long (*op)(int op);
    uint64_t (*look)(void);
    void (*init)(void), (*done)(void);
    size_t size;            /* memory the beginning takes, about */
} comps[] = {
    [FIFO] = { "fifo", 5, fifo_op, fifo_look, fifo_init, fifo_done, 0 },
    [RING] = { "ringbuf", 5, ring_op, ring_look, ring_init, ring_done, 0 },
    [ARRAY] = { "array", 8, array_op, array_look, array_init, array_done, 0 },
    [MAP] = { "hashmap", 6, map_op, map_look, map_init, map_done, 0 },
    [RADIX] = { "radix", 12, radix_op, radix_look, radix_init, radix_done, 0 },
    [BTREE] = { "btree", 9, btree_op, btree_look, btree_init, btree_done, 0 },
    [SKIP] = { "skiplist", 11, skip_op, skip_look, skip_init, skip_done, 0 },
    [MPI] = { "mpi", MC_ARRAY_SIZE(mpiops), mpi_op, mpi_look, mpi_init, mpi_done, 0 },
    [MAT] = { "matrix", MC_ARRAY_SIZE(matops), mat_op, mat_look, mat_init, mat_done, 0 },
    [FSM] = { "fsm", 5, fsm_op, fsm_look, fsm_init, fsm_done, 0 },
    [OBJ] = { "object", 12, obj_op, obj_look, obj_init, obj_done, 0 },
};

static void s_fault(void)
{
    int c = mc_arg % 100, budget = mc_arg / 100, depth = mc_bound, before, op;
    long real, twin;
    bool again, part;

    mc_fault_budget = 0;
    mem[REAL] = mem[TWIN] = &mc_alloc;
    seqno[0] = seqno[1] = 0;
    who = REAL;
    comps[c].init();
    mc_faults = 0;
    while (depth--) {
        op = mc_choose(comps[c].nops + 1);
        if (op == comps[c].nops)
            break;
        mc_fault_budget = budget;
        before = mc_faults;
        who = REAL;
        real = comps[c].op(op);
        budget = mc_fault_budget;
        mc_fault_budget = 0;
        mc_step("%s operation %d%s -> %s%ld", comps[c].name, op, mc_faults > before ? " without memory" : "", real == REFUSED ? "refused " : "", real);
        if (real == REFUSED) {
            mc_assert(mc_faults > before, "%s operation %d reported a lack of memory, there was none", comps[c].name, op);
            part = c == RADIX && (op == 9 || op == 10);
            if (c == SKIP && op == 10) {
                /* the list was destroyed and is made again */
                mc_assert(!comps[c].op(11), "skiplist not created with memory there");
                who = TWIN;
                comps[c].op(op);
            } else {
                if (part)
                    radix_covers();
                else {
                    who = REAL;
                    uint64_t h = comps[c].look();
                    who = TWIN;
                    mc_assert(comps[c].look() == h, "%s: refused operation %d changed the contents", comps[c].name, op);
                }
                again = part || mc_choose(2);
                if (again) {
                    who = REAL;
                    real = comps[c].op(op);
                    who = TWIN;
                    twin = comps[c].op(op);
                    mc_step("%s operation %d again -> %ld", comps[c].name, op, real);
                    mc_assert(real == twin, "%s operation %d gave %ld when it was repeated, without a refusal %ld", comps[c].name, op, real, twin);
                    seqno[0]++, seqno[1]++;
                }
            }
        } else {
            who = TWIN;
            twin = comps[c].op(op);
            mc_assert(real == twin || (c == FSM && op == 4 && mc_faults > before),
                      "%s operation %d gave %ld%s, where all memory is there %ld", comps[c].name, op, real, mc_faults > before ? " without memory" : "", twin);
            if (c == FSM && op == 4 && real != twin)
                break;
            seqno[0]++, seqno[1]++;
        }
        who = REAL;
        uint64_t h = comps[c].look();
        mc_seen(mc_mix(mc_mix(c, h), budget));
        who = TWIN;
        mc_assert(comps[c].look() == h, "%s: operation %d left other contents than where all memory is there", comps[c].name, op);
        mc_case(mc_mix(mc_mix(c * 100 + op, real), mc_faults - before));
    }
    for (who = 0; who < 2; who++)
        comps[c].done();
    mc_no_leaks(comps[c].name);
}

/* the same in a pool of the library's own allocator, of every size up to where all fits */
static void s_pool(void)
{
    static const bfdev_memalloc_find_t finds[] = { bfdev_memalloc_first_fit, bfdev_memalloc_best_fit, bfdev_memalloc_worst_fit };
    int c = mc_arg % 100, depth = mc_bound, op, before;
    size_t size = 320 + 272 * mc_choose(12), avail;
    long real, twin;
    void *memory = mc_malloc(size);

    pool = mc_malloc(sizeof(*pool));
    bfdev_memalloc_init(pool, finds[mc_choose(3)], memory, size);
    avail = pool->avail;
    mem[REAL] = &pool_mem;
    mem[TWIN] = &mc_alloc;
    seqno[0] = seqno[1] = 0;
    pool_full = 0;
    who = REAL;
    comps[c].init();
    if (pool_full)
        mc_prune();             /* not even room for the beginning */
    while (depth--) {
        op = mc_choose(comps[c].nops + 1);
        if (op == comps[c].nops)
            break;
        before = pool_full;
        who = REAL;
        real = comps[c].op(op);
        mc_step("%s operation %d in a pool of %zu -> %s%ld", comps[c].name, op, size, real == REFUSED ? "refused " : "", real);
        if (real == REFUSED) {
            mc_assert(pool_full > before, "%s operation %d reported a lack of memory, there was none", comps[c].name, op);
            if (c == RADIX && (op == 9 || op == 10)) {
                radix_covers();
                break;
            }
            if (c == SKIP && op == 10)
                break;
        } else {
            who = TWIN;
            twin = comps[c].op(op);
            mc_assert(real == twin || (c == FSM && op == 4 && pool_full > before),
                      "%s operation %d gave %ld, where all memory is there %ld", comps[c].name, op, real, twin);
            if (c == FSM && op == 4 && real != twin)
                break;
            seqno[0]++, seqno[1]++;
        }
        who = REAL;
        uint64_t h = comps[c].look();
        mc_seen(mc_mix(mc_mix(c, h), pool->avail));
        who = TWIN;
        mc_assert(comps[c].look() == h, "%s: operation %d left other contents than where all memory is there", comps[c].name, op);
        mc_case(mc_mix(mc_mix(c * 100 + op, real), pool_full - before));
    }
    for (who = 0; who < 2; who++)
        if (c != SKIP || skip[who])
            comps[c].done();
    mc_assert(pool->avail == avail, "%s: %zu of %zu bytes came back to the pool", comps[c].name, (size_t)pool->avail, avail);
    mc_no_leaks(comps[c].name);
}

#define F(comp, budget) ((comp) + 100 * (budget))
const mc_scenario_t mc_scenarios[] = {
    { "fifo", s_fault, { 6, 7 }, F(FIFO, 2), 2 },
    { "ringbuf", s_fault, { 6, 7 }, F(RING, 2), 2 },
    { "array", s_fault, { 5, 6 }, F(ARRAY, 2), 2 },
    { "hashmap", s_fault, { 5, 6 }, F(MAP, 2), 2 },
    { "radix", s_fault, { 3, 4 }, F(RADIX, 2), 2 },
    { "btree", s_fault, { 4, 5 }, F(BTREE, 2), 2 },
    { "skiplist", s_fault, { 4, 5 }, F(SKIP, 2), 2 },
    { "integers", s_fault, { 3, 4 }, F(MPI, 2), 2 },
    { "matrices", s_fault, { 4, 5 }, F(MAT, 2), 2 },
    { "state machine", s_fault, { 6, 8 }, F(FSM, 2), 2 },
    { "whole objects", s_fault, { 3, 5 }, F(OBJ, 2), 2 },
    { "fifo in a pool", s_pool, { 4, 6 }, FIFO, 2 },
    { "array in a pool", s_pool, { 4, 5 }, ARRAY, 2 },
    { "hashmap in a pool", s_pool, { 4, 5 }, MAP, 2 },
    { "radix in a pool", s_pool, { 3, 4 }, RADIX, 2 },
    { "btree in a pool", s_pool, { 3, 4 }, BTREE, 2 },
    { "skiplist in a pool", s_pool, { 3, 5 }, SKIP, 2 },
    { "integers in a pool", s_pool, { 3, 3 }, MPI, 2 },
    { "matrices in a pool", s_pool, { 3, 4 }, MAT, 2 },
    { "state machine in a pool", s_pool, { 5, 7 }, FSM, 2 },
    { "whole objects in a pool", s_pool, { 3, 4 }, OBJ, 2 },
    { NULL }
};
