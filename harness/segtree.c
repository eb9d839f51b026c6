/*
 * Interval (segment) trees: every insert/delete history over N intervals with
 * end points from a small ordered alphabet, every overlap query.
 */
#include "mc.h"
#include <limits.h>
#include <bfdev/segtree.h>

#define MAXN 8
#define K 4
static bfdev_rb_root_cached_t *tree;
static int maxn;

/* a user defined instance: signed type, other field names */
struct span {
    int id;
    signed char low, high, most;
    bfdev_rb_node_t rb;
};
#define SPAN_LOW(s) ((s)->low)
#define SPAN_HIGH(s) ((s)->high)
BFDEV_SEGTREE_DEFINE(static, span, struct span, rb, signed char, most, SPAN_LOW, SPAN_HIGH);

struct ent {
    int id;
    bfdev_segtree_node_t node;
};

static const unsigned long uval[2][K] = { { 0, 1, ULONG_MAX - 1, ULONG_MAX }, { 5, 6, 7, LONG_MAX } };
static const signed char sval[2][K] = { { -128, -127, 0, 127 }, { -2, -1, 0, 1 } };
static int domain;

struct item {
    bool in;
    int a, b, seen;
    struct ent *e;
    struct span *s;
} *item;
static int n;
static struct item *order[MAXN];
static int norder;

static int
item_of(bfdev_rb_node_t *rb)
{
    if (mc_arg & 1)
        return bfdev_rb_entry(rb, struct span, rb)->id;
    return bfdev_segtree_entry(bfdev_rb_entry(rb, bfdev_segtree_node_t, node), struct ent, node)->id;
}

static uint64_t
shape(bfdev_rb_node_t *rb)
{
    struct item *it;
    uint64_t h;
    int id;

    if (!rb)
        return 1;
    id = item_of(rb);
    mc_assert(id >= 0 && id < MAXN && item[id].in, "a node that was not inserted is linked");
    it = &item[id];
    mc_assert(!it->seen, "a node is linked twice");
    it->seen = 1;
    h = shape(rb->left);
    order[norder++] = it;
    h = mc_mix(h, it->a * 16 + it->b + 256 * rb->color);
    h = mc_mix(h, mc_arg & 1 ? (unsigned long)it->s->most : it->e->node.subtree);
    return mc_mix(h, shape(rb->right));
}

static struct item *got[MAXN + 1];
static int ngot;

static void
see(int id)
{
    mc_assert(id >= 0 && id < MAXN && item[id].in, "query returned a node that is not stored");
    mc_assert(ngot < n, "query does not end");
    got[ngot++] = &item[id];
}

static void
expect(const char *what, struct item *const *want, int count, int a, int b)
{
    int i;
    for (i = 0; i < count; ++i)
        mc_assert(i < ngot && got[i] == want[i], "%s[%d,%d]: hit %d is wrong (expected the interval [%d,%d])",
                  what, a, b, i, want[i]->a, want[i]->b);
    mc_assert(ngot == count, "%s[%d,%d]: %d hits, expected %d", what, a, b, ngot, count);
}

#define WALK(id, want, count, macro, args...) do { \
    ngot = 0;                                   \
    macro(args)                                 \
        see(id);                                \
    expect(#macro, want, count, a, b);          \
} while (0)

static void
queries(void)
{
    struct item *hit[MAXN];
    int a, b, i, hits;

    for (a = 0; a < K; ++a) for (b = a; b < K; ++b) {
        hits = 0;
        for (i = 0; i < norder; ++i)
            if (order[i]->a <= b && a <= order[i]->b)
                hit[hits++] = order[i];
        if (mc_arg & 1) {
            signed char x = sval[domain][a], y = sval[domain][b];
            struct span *pos;
            ngot = 0;
            for (pos = span_first(tree, x, y); pos; pos = span_next(pos, x, y))
                see(pos->id);
            expect("span", hit, hits, a, b);
            if (norder) {
                pos = span_search(bfdev_rb_entry(tree->root.node, struct span, rb), x, y);
                mc_assert(!pos == !hits && (!pos || pos == hit[0]->s), "search[%d,%d]", a, b);
            }
        } else {
            unsigned long x = uval[domain][a], y = uval[domain][b];
            bfdev_segtree_node_t *pos;
            struct ent *e;
            #define ID(p) bfdev_segtree_entry(p, struct ent, node)->id
            WALK(ID(pos), hit, hits, bfdev_segtree_for_each, pos, x, y, tree);
            WALK(e->id, hit, hits, bfdev_segtree_for_each_entry, e, x, y, tree, node);
            for (i = 0; i < hits; ++i) {
                pos = &hit[i]->e->node;
                WALK(ID(pos), hit + i, hits - i, bfdev_segtree_for_each_form, pos, x, y);
                pos = &hit[i]->e->node;
                WALK(ID(pos), hit + i + 1, hits - i - 1, bfdev_segtree_for_each_continue, pos, x, y);
                e = hit[i]->e;
                WALK(e->id, hit + i, hits - i, bfdev_segtree_for_each_entry_from, e, x, y, node);
                e = hit[i]->e;
                WALK(e->id, hit + i + 1, hits - i - 1, bfdev_segtree_for_each_entry_continue, e, x, y, node);
            }
            if (norder) {
                pos = bfdev_segtree_search(bfdev_rb_entry(tree->root.node, bfdev_segtree_node_t, node), x, y);
                mc_assert(!pos == !hits && (!pos || pos == &hit[0]->e->node), "search[%d,%d]", a, b);
            }
        }
    }
}

static void
s_tree(void)
{
    int depth = mc_bound, i;
    uint64_t h;

    maxn = mc_arg >> 4;
    domain = (mc_arg >> 1) & 1;
    tree = mc_zalloc(sizeof(*tree));
    item = mc_zalloc(sizeof(*item) * MAXN);
    *tree = BFDEV_RB_CACHED_INIT();
    n = 0;
    for (;;) {
        norder = 0;
        for (i = 0; i < MAXN; ++i)
            item[i].seen = 0;
        h = shape(tree->root.node);
        mc_assert(norder == n, "%d nodes linked, expected %d", norder, n);
        for (i = 1; i < n; ++i)
            mc_assert(order[i - 1]->a <= order[i]->a, "start order");
        queries();
        h = mc_mix(h, mc_graph(tree, sizeof(*tree)));
        if (!mc_next(h, &depth))
            break;
        i = mc_choose(n + (n < maxn));
        if (i < n) {
            struct item *it = order[i];
            mc_step("delete [%d,%d] (position %d)", it->a, it->b, i);
            it->in = false;
            n--;
            if (mc_arg & 1) {
                span_delete(tree, it->s);
                mc_free(it->s);
            } else {
                bfdev_segtree_delete(tree, &it->e->node);
                mc_free(it->e);
            }
            continue;
        }
        for (i = 0; item[i].in; ++i);
        struct item *it = &item[i];
        it->a = mc_choose(K);
        it->b = it->a + mc_choose(K - it->a);
        it->in = true;
        n++;
        mc_step("insert [%d,%d]", it->a, it->b);
        if (mc_arg & 1) {
            it->s = mc_malloc(sizeof(*it->s));
            memset(it->s, 0x5a, sizeof(*it->s));
            it->s->id = i;
            it->s->low = sval[domain][it->a];
            it->s->high = sval[domain][it->b];
            span_insert(tree, it->s);
        } else {
            it->e = mc_malloc(sizeof(*it->e));
            memset(it->e, 0x5a, sizeof(*it->e));
            it->e->id = i;
            it->e->node.start = uval[domain][it->a];
            it->e->node.end = uval[domain][it->b];
            bfdev_segtree_insert(tree, &it->e->node);
        }
    }
}

const mc_scenario_t mc_scenarios[] = {
    { "segtree-extremes", s_tree, { 40, 40 }, 0 + (5 << 4) },
    { "segtree-inner", s_tree, { 40, 40 }, 2 + (4 << 4) },
    { "instance-extremes", s_tree, { 40, 40 }, 1 + (5 << 4) },
    { "instance-inner", s_tree, { 40, 40 }, 3 + (4 << 4) },
    { "segtree-extremes-6", s_tree, { -1, 60 }, 0 + (6 << 4) },
    { "memory-segtree", s_tree, { 40, 40 }, 0 + (4 << 4), .graph = 1 },
    { NULL }
};
