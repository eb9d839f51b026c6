/* Resource pool: every insert/find/remove/release history over N resources. */
#include "mc.h"
#include <bfdev/respool.h>

#define MAXN 5
static bfdev_respool_t *pool;
static struct res { bfdev_respool_node_t *node; int kind, released; } *res;
struct box { long pad; bfdev_respool_node_t node; int id; };
static int order[MAXN + 1], n, maxn, marker;    /* newest first */
static int rel[MAXN + 1], nrel, queries;

static void
release(bfdev_respool_node_t *node, void *pdata)
{
    struct box *b = bfdev_container_of(node, struct box, node);
    mc_assert(mc_is_block(b), "release of a resource that is gone");
    mc_assert(pdata == &marker, "release data lost");
    mc_assert(nrel < MAXN, "released too often");
    rel[nrel++] = b->id;
    res[b->id].node = NULL;
    mc_free(b);     /* released resources may disappear at once */
}

static int wanted;
static long
find(const bfdev_respool_node_t *node, const void *pdata)
{
    mc_assert(pdata == &marker, "find data lost");
    return res[bfdev_container_of(node, struct box, node)->id].kind - wanted;
}

static int
model_find(void)
{
    int i;
    for (i = 0; i < n && res[order[i]].kind != wanted; ++i);
    return i;
}

static void
drop(int pos)
{
    memmove(order + pos, order + pos + 1, (n - pos - 1) * sizeof(*order));
    n--;
}

static void
s_respool(void)
{
    int depth = mc_bound, i, id;
    bfdev_respool_node_t *node;

    maxn = mc_arg;
    pool = mc_malloc(sizeof(*pool));
    res = mc_zalloc(sizeof(*res) * MAXN);
    bfdev_respool_init(pool);
    n = 0;
    for (;;) {
        uint64_t h = n;
        for (i = 0; i < n; ++i)
            h = mc_mix(h, res[order[i]].kind);
        mc_assert(bfdev_respool_check_empty(pool) == !n, "empty");
        for (wanted = 0; wanted < 3; ++wanted) {
            node = bfdev_respool_find(pool, find, &marker);
            i = model_find();
            mc_assert(node == (i < n ? res[order[i]].node : NULL), "find of kind %d", wanted);
        }
        h = mc_mix(h, mc_graph(pool, sizeof(*pool)));
        if (!mc_next(h, &depth))
            break;
        nrel = 0;
        switch (mc_choose(6)) {
            case 0: {
                struct box *b;
                for (id = 0; id < maxn && res[id].node; ++id);
                if (id == maxn)
                    mc_prune();
                b = mc_malloc(sizeof(*b));
                b->id = id;
                b->node.release = release;
                res[id].kind = mc_choose(2);
                res[id].node = &b->node;
                mc_step("insert %d kind %d", id, res[id].kind);
                bfdev_respool_insert(pool, &b->node);
                memmove(order + 1, order, n * sizeof(*order));
                order[0] = id;
                n++;
                break;
            }
            case 1: case 2: {
                bool rls = mc_choose(2);
                if (!n)
                    mc_prune();
                i = mc_choose(n);
                id = order[i];
                mc_step("%s position %d", rls ? "release" : "remove", i);
                if (rls) {
                    bfdev_respool_release(pool, res[id].node, &marker);
                    mc_assert(nrel == 1 && rel[0] == id, "release did not run exactly once");
                } else {
                    bfdev_respool_remove(pool, res[id].node);
                    mc_assert(!nrel, "remove released");
                    mc_free(bfdev_container_of(res[id].node, struct box, node));
                    res[id].node = NULL;
                }
                drop(i);
                break;
            }
            case 3:
                wanted = mc_choose(3);
                i = model_find();
                id = i < n ? order[i] : -1;
                node = id < 0 ? NULL : res[id].node;
                mc_step("find_remove kind %d", wanted);
                mc_assert(bfdev_respool_find_remove(pool, find, &marker) == node, "find_remove");
                mc_assert(!nrel, "find_remove released");
                if (node) {
                    mc_free(bfdev_container_of(node, struct box, node));
                    res[id].node = NULL;
                    drop(i);
                }
                break;
            case 4:
                wanted = mc_choose(3);
                i = model_find();
                id = i < n ? order[i] : -1;
                node = id < 0 ? NULL : res[id].node;
                mc_step("find_release kind %d", wanted);
                mc_assert(bfdev_respool_find_release(pool, find, &marker) == node, "find_release");
                mc_assert(nrel == !!node && (!node || rel[0] == id), "find_release did not release exactly once");
                if (node)
                    drop(i);
                break;
            case 5:
                mc_step("release_all");
                bfdev_respool_release_all(pool, &marker);
                mc_assert(nrel == n, "%d resources released of %d", nrel, n);
                for (i = 0; i < n; ++i)
                    mc_assert(rel[i] == order[i], "release order");
                n = 0;
                break;
        }
    }
    nrel = 0;
    bfdev_respool_release_all(pool, &marker);
    mc_assert(nrel == n, "%d resources released of %d at the end", nrel, n);
}

const mc_scenario_t mc_scenarios[] = {
    { "three", s_respool, { 40, 40 }, 3 },
    { "five", s_respool, { 40, 40 }, 5 },
    { "memory-three", s_respool, { 40, 40 }, 3, .graph = 1 },
    { NULL }
};
