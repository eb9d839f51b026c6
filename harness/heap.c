/*
 * Binary heap: every insert/delete history over up to N nodes with keys from a
 * small alphabet (duplicates included), until closure of the reachable heaps.
 */
#include "mc.h"
#include <bfdev/heap.h>

#define MAXN 15
struct ent {
    long pad;
    bfdev_heap_node_t node;
    int key, epoch;
};
#define E(n) bfdev_heap_entry(n, struct ent, node)

static bfdev_heap_root_t *root;
static struct ent **set;        /* stored nodes, any order */
static int n, maxn, nkeys, epoch, dir;

static long
cmp(const bfdev_heap_node_t *a, const bfdev_heap_node_t *b, void *pdata)
{
    mc_assert(pdata == (void *)0x77, "compare data lost");
    return dir * ((long)E(a)->key - E(b)->key);
}

static struct ent *got[MAXN + 1], *level[MAXN + 1], *post[MAXN + 1], *pre[MAXN + 1];
static int ngot, nlevel, npost, npre;

#define SEE(e) do { \
    mc_assert(ngot < n, "traversal does not end"); \
    got[ngot++] = (e); \
} while (0)

static void
expect(const char *what, struct ent *const *want, int count)
{
    int i;
    for (i = 0; i < count; ++i)
        mc_assert(i < ngot && got[i] == want[i], "%s: visit %d is wrong", what, i);
    mc_assert(ngot == count, "%s visited %d nodes, expected %d", what, ngot, count);
}
#define WALK(e, want, count, macro, args...) do { \
    ngot = 0;                                   \
    macro(args)                                 \
        SEE(e);                                 \
    expect(#macro, want, count);                \
} while (0)

static void
collect(bfdev_heap_node_t *node, bfdev_heap_node_t *parent, unsigned pos)
{
    bfdev_heap_node_t *far;
    int npost0 = npost;
    struct ent *e;

    if (!node)
        return;
    mc_assert(pos <= (unsigned)n, "the tree is not complete: a node sits at position %u of %d", pos, n);
    e = E(node);
    mc_assert(e->epoch == epoch, "a node that is not stored (or twice) is linked");
    e->epoch = 0;
    mc_assert(node->parent == parent, "parent link at position %u", pos);
    mc_assert(!parent || dir * (e->key - E(parent)->key) >= 0, "a child precedes its parent at position %u", pos);
    level[pos - 1] = e;
    nlevel++;
    pre[npre++] = e;
    collect(node->left, node, pos * 2);
    collect(node->right, node, pos * 2 + 1);
    post[npost++] = e;
    for (far = node; far->left; far = far->left);
    mc_assert(bfdev_heap_left_far(node) == far, "leftmost below position %u", pos);
    for (far = node; far->right; far = far->right);
    mc_assert(bfdev_heap_right_far(node) == far, "rightmost below position %u", pos);
    mc_assert(bfdev_heap_left_deep(node) == &post[npost0]->node, "left deepest below position %u", pos);
    mc_assert(bfdev_heap_right_deep(node) == &pre[npre - 1]->node, "right deepest below position %u", pos);
}

static uint64_t
verify(void)
{
    bfdev_heap_node_t *pos, *tmp;
    struct ent *e, *etmp;
    unsigned long index;
    uint64_t h = 5;
    int i;

    ++epoch;
    for (i = 0; i < n; ++i)
        set[i]->epoch = epoch;
    nlevel = npost = npre = 0;
    collect(root->node, NULL, 1);
    mc_assert(nlevel == n, "%d nodes linked, expected %d", nlevel, n);
    mc_assert(BFDEV_HEAP_ROOT_COUNT(root) == (unsigned long)n, "count %lu, expected %d", BFDEV_HEAP_ROOT_COUNT(root), n);
    mc_assert(bfdev_heap_empty_root(root) == !n, "empty");
    for (i = 0; i < n; ++i) {
        mc_assert(dir * (set[i]->key - level[0]->key) >= 0, "the root is not the extreme element");
        h = mc_mix(h, level[i]->key);
        mc_assert(bfdev_heap_find(root, i + 1) == &level[i]->node, "find of position %d of %d", i + 1, n);
    }
    if (n)
        for (i = n + 1; i <= 2 * n + 3; ++i)
            mc_assert(!bfdev_heap_find(root, i), "find beyond the end returned a node");
    WALK(E(pos), level, n, bfdev_heap_for_each, pos, &index, root);
    WALK(e, level, n, bfdev_heap_for_each_entry, e, &index, root, node);
    WALK(E(pos), post, n, bfdev_heap_post_for_each, pos, root);
    WALK(E(pos), post, n, bfdev_heap_post_for_each_safe, pos, tmp, root);
    WALK(e, post, n, bfdev_heap_post_for_each_entry, e, root, node);
    WALK(e, post, n, bfdev_heap_post_for_each_entry_safe, e, etmp, root, node);
    for (i = 0; i < n; ++i) {
        index = i; pos = &level[i]->node; WALK(E(pos), level + i, n - i, bfdev_heap_for_each_from, pos, &index, root);
        index = i; pos = &level[i]->node; WALK(E(pos), level + i + 1, n - i - 1, bfdev_heap_for_each_continue, pos, &index, root);
        index = i; e = level[i]; WALK(e, level + i, n - i, bfdev_heap_for_each_entry_from, e, &index, root, node);
        index = i; e = level[i]; WALK(e, level + i + 1, n - i - 1, bfdev_heap_for_each_entry_continue, e, &index, root, node);
        pos = &post[i]->node; WALK(E(pos), post + i, n - i, bfdev_heap_post_for_each_from, pos);
        pos = &post[i]->node; WALK(E(pos), post + i + 1, n - i - 1, bfdev_heap_post_for_each_continue, pos);
        pos = &post[i]->node; WALK(E(pos), post + i, n - i, bfdev_heap_post_for_each_safe_from, pos, tmp);
        pos = &post[i]->node; WALK(E(pos), post + i + 1, n - i - 1, bfdev_heap_post_for_each_safe_continue, pos, tmp);
        e = post[i]; WALK(e, post + i, n - i, bfdev_heap_post_for_each_entry_from, e, node);
        e = post[i]; WALK(e, post + i + 1, n - i - 1, bfdev_heap_post_for_each_entry_continue, e, node);
        e = post[i]; WALK(e, post + i, n - i, bfdev_heap_post_for_each_entry_from_safe, e, etmp, node);
        e = post[i]; WALK(e, post + i + 1, n - i - 1, bfdev_heap_post_for_each_entry_continue_safe, e, etmp, node);
    }
    return h;
}

static void
s_heap(void)
{
    int depth = mc_bound, i, j;
    uint64_t h;

    maxn = mc_arg & 15;
    nkeys = (mc_arg >> 4) & 15;
    dir = mc_arg & 256 ? -1 : 1;
    root = mc_malloc(sizeof(*root));
    set = mc_zalloc(sizeof(*set) * MAXN);
    n = 0;
    bfdev_heap_init(root);
    for (;;) {
        h = verify();
        h = mc_mix(h, mc_graph(root, sizeof(*root)));
        if (!mc_next(h, &depth))
            break;
        i = mc_choose(n + (n < maxn));
        if (i < n) {
            struct ent *e = level[i];
            mc_step("delete the node at position %d (key %d)", i + 1, e->key);
            bfdev_heap_delete(root, &e->node, cmp, (void *)0x77);
            for (j = 0; set[j] != e; ++j);
            set[j] = set[--n];
            mc_free(e);
        } else {
            struct ent *e = mc_malloc(sizeof(*e));
            memset(e, 0x5a, sizeof(*e));
            e->key = mc_choose(nkeys);
            mc_step("insert key %d", e->key);
            bfdev_heap_insert(root, &e->node, cmp, (void *)0x77);
            set[n++] = e;
        }
    }
    /* drain: keys must come out in order */
    int last = -1000;
    while (n) {
        struct ent *e = E(BFDEV_HEAP_ROOT_NODE(root));
        mc_assert(dir * e->key >= last, "elements come out unordered");
        last = dir * e->key;
        bfdev_heap_delete(root, &e->node, cmp, (void *)0x77);
        for (j = 0; set[j] != e; ++j);
        set[j] = set[--n];
        mc_free(e);
    }
    mc_assert(bfdev_heap_empty_root(root), "drained heap is not empty");
}

const mc_scenario_t mc_scenarios[] = {
    { "min-heap-7", s_heap, { 40, 40 }, 7 + (4 << 4), .graph = 1 },
    { "max-heap-7", s_heap, { 40, 40 }, 7 + (3 << 4) + 256, .graph = 1 },
    { "min-heap-9-two-keys", s_heap, { 40, 40 }, 9 + (2 << 4), .graph = 1 },
    { "min-heap-9", s_heap, { 40, 40 }, 9 + (4 << 4), .graph = 1 },
    { "min-heap-12", s_heap, { 40, 40 }, 12 + (2 << 4), .graph = 1 },
    { "min-heap-8-many", s_heap, { 40, 40 }, 8 + (5 << 4), .graph = 1 },
    { "min-heap-10-many", s_heap, { -1, 60 }, 10 + (6 << 4), .graph = 1 },
    { "max-heap-15", s_heap, { -1, 60 }, 15 + (3 << 4) + 256, .graph = 1 },
    { NULL }
};
