/*
 * Red black trees: every reachable coloured tree shape up to N nodes, every
 * insertion gap, every deletion and replacement.  Keys are ranks, renumbered
 * after each operation, so a state is exactly a coloured shape.
 */
#include "mc.h"
#include <bfdev/rbtree.h>

#define MAXN 20
struct ent {
    long pad;
    bfdev_rb_node_t node;
    int rank;           /* position * 2 */
    unsigned val;       /* augmented: own value */
    unsigned aug;       /* augmented: summary */
    int epoch;
};

#define E(n) bfdev_rb_entry(n, struct ent, node)

static bfdev_rb_root_cached_t *tree;
static struct ent *seq[MAXN + 1];
static int n, maxn, epoch;

enum { PLAIN, CACHED, SIZE, CSIZE, MAX, CMAX };
static int variant;
#define IS_CACHED (variant & 1)
#define IS_AUG (variant >= SIZE)

static unsigned
sub_size(bfdev_rb_node_t *node)
{
    return node ? E(node)->aug : 0;
}

static bool
compute_size(struct ent *e, bool exit)
{
    unsigned size = 1 + sub_size(e->node.left) + sub_size(e->node.right);

    if (exit && e->aug == size)
        return true;
    e->aug = size;
    return false;
}

BFDEV_RB_DECLARE_CALLBACKS(static, size_cb, struct ent, node, aug, compute_size);
#define OWN(e) ((e)->val)
BFDEV_RB_DECLARE_CALLBACKS_MAX(static, max_cb, struct ent, node, unsigned, aug, OWN);

static bfdev_rb_callbacks_t *cb;

static long
cmp(const bfdev_rb_node_t *a, const bfdev_rb_node_t *b, void *pdata)
{
    mc_assert(pdata == (void *)0x1234, "compare data lost");
    return E(a)->rank - E(b)->rank;
}

static long
find(const bfdev_rb_node_t *node, const void *key)
{
    return E(node)->rank - *(const int *)key;
}

static struct ent *got[MAXN + 2];
static int ngot;
#define SEE(e) do {                                                 \
    mc_assert(ngot <= n, "traversal does not end");                 \
    got[ngot++] = (e);                                              \
} while (0)

static void
expect(const char *what, struct ent *const *want, int count)
{
    int i;
    for (i = 0; i < count; ++i)
        mc_assert(i < ngot && got[i] == want[i], "%s: visit %d is wrong", what, i);
    mc_assert(ngot == count, "%s visited %d nodes, expected %d", what, ngot, count);
}

#define WALK(e, want, count, macro, args...) do {   \
    ngot = 0;                                       \
    macro(args)                                     \
        SEE(e);                                     \
    expect(#macro, want, count);                    \
} while (0)

static struct ent *pre[MAXN], *post[MAXN];
static int npre, npost, nin;

/* returns the black height */
static int
check(bfdev_rb_node_t *node, bfdev_rb_node_t *parent, uint64_t *h, unsigned *aug)
{
    unsigned al = 0, ar = 0, want;
    struct ent *e;
    int l, r, nin0 = nin, npost0 = npost;

    if (!node) {
        *h = mc_mix(*h, 3);
        *aug = 0;
        return 0;
    }
    mc_assert(npre < n, "more nodes than inserted");
    e = E(node);
    pre[npre++] = e;
    mc_assert(e->epoch == epoch, "a node that is not in the tree is linked");
    mc_assert(node->parent == parent, "parent link of %d", e->rank);
    mc_assert(node->color == BFDEV_RB_BLACK || node->color == BFDEV_RB_RED, "colour");
    *h = mc_mix(mc_mix(*h, node->color), variant >= MAX ? e->val : 0);
    if (node->color == BFDEV_RB_RED) {
        mc_assert(parent, "red root");
        mc_assert(parent->color == BFDEV_RB_BLACK, "red node below red node");
    }
    l = check(node->left, node, h, &al);
    mc_assert(nin < n && seq[nin] == e, "inorder position %d", nin);
    nin++;
    r = check(node->right, node, h, &ar);
    mc_assert(l == r, "black heights %d and %d differ", l, r);
    post[npost++] = e;
    mc_assert(bfdev_rb_left_far(node) == &seq[nin0]->node, "leftmost below %d", e->rank);
    mc_assert(bfdev_rb_right_far(node) == &seq[nin - 1]->node, "rightmost below %d", e->rank);
    mc_assert(bfdev_rb_left_deep(node) == &post[npost0]->node, "left deepest below %d", e->rank);
    mc_assert(bfdev_rb_right_deep(node) == &pre[npre - 1]->node, "right deepest below %d", e->rank);
    if (variant == SIZE || variant == CSIZE)
        want = al + ar + 1;
    else {
        want = al > ar ? al : ar;
        if (e->val > want)
            want = e->val;
    }
    if (IS_AUG)
        mc_assert(e->aug == want, "summary of rank %d is %u, expected %u", e->rank, e->aug, want);
    *aug = want;
    return l + (node->color == BFDEV_RB_BLACK);
}

static uint64_t
verify(void)
{
    bfdev_rb_root_t *root = &tree->root;
    bfdev_rb_node_t *pos, **link, *parent, *tmp;
    struct ent *rev[MAXN], *e, *etmp;
    uint64_t h = 7;
    unsigned aug;
    int i, key;
    bool leftmost;

    ++epoch;
    for (i = 0; i < n; ++i) {
        seq[i]->rank = i * 2 + 1;
        seq[i]->epoch = epoch;
        rev[n - 1 - i] = seq[i];
    }
    npre = npost = nin = 0;
    check(root->node, NULL, &h, &aug);
    mc_assert(npre == n, "%d nodes in the tree, expected %d", npre, n);
    mc_assert(BFDEV_RB_EMPTY_ROOT(root) == !n, "empty");
    mc_assert(BFDEV_RB_EMPTY_ROOT_CACHED(tree) == !n, "empty");

    WALK(E(pos), seq, n, bfdev_rb_for_each, pos, root);
    WALK(E(pos), rev, n, bfdev_rb_for_each_reverse, pos, root);
    WALK(E(pos), pre, n, bfdev_rb_pre_for_each, pos, root);
    WALK(E(pos), post, n, bfdev_rb_post_for_each, pos, root);
    WALK(E(pos), post, n, bfdev_rb_post_for_each_safe, pos, tmp, root);
    WALK(e, seq, n, bfdev_rb_for_each_entry, e, root, node);
    WALK(e, rev, n, bfdev_rb_for_each_entry_reverse, e, root, node);
    WALK(e, pre, n, bfdev_rb_pre_for_each_entry, e, root, node);
    WALK(e, post, n, bfdev_rb_post_for_each_entry, e, root, node);
    WALK(e, post, n, bfdev_rb_post_for_each_entry_safe, e, etmp, root, node);
    mc_assert(bfdev_rb_first(root) == (n ? &seq[0]->node : NULL), "first");
    mc_assert(bfdev_rb_last(root) == (n ? &seq[n - 1]->node : NULL), "last");
    if (IS_CACHED) {
        mc_assert(bfdev_rb_cached_first(tree) == (n ? &seq[0]->node : NULL), "cached leftmost");
        WALK(E(pos), seq, n, bfdev_rb_cached_for_each, pos, tree);
        WALK(E(pos), rev, n, bfdev_rb_cached_for_each_reverse, pos, tree);
        WALK(E(pos), pre, n, bfdev_rb_cached_pre_for_each, pos, tree);
        WALK(E(pos), post, n, bfdev_rb_cached_post_for_each, pos, tree);
        WALK(E(pos), post, n, bfdev_rb_cached_post_for_each_safe, pos, tmp, tree);
        WALK(e, seq, n, bfdev_rb_cached_for_each_entry, e, tree, node);
        WALK(e, rev, n, bfdev_rb_cached_for_each_entry_reverse, e, tree, node);
        WALK(e, pre, n, bfdev_rb_cached_pre_for_each_entry, e, tree, node);
        WALK(e, post, n, bfdev_rb_cached_post_for_each_entry, e, tree, node);
        WALK(e, post, n, bfdev_rb_cached_post_for_each_entry_safe, e, etmp, tree, node);
    }
    for (i = 0; i < n; ++i) {
        int j;
        pos = &seq[i]->node; WALK(E(pos), seq + i, n - i, bfdev_rb_for_each_from, pos);
        pos = &seq[i]->node; WALK(E(pos), seq + i + 1, n - i - 1, bfdev_rb_for_each_continue, pos);
        pos = &seq[i]->node; WALK(E(pos), rev + n - 1 - i, i + 1, bfdev_rb_for_each_reverse_from, pos);
        pos = &seq[i]->node; WALK(E(pos), rev + n - i, i, bfdev_rb_for_each_reverse_continue, pos);
        pos = &pre[i]->node; WALK(E(pos), pre + i, n - i, bfdev_rb_pre_for_each_from, pos);
        pos = &pre[i]->node; WALK(E(pos), pre + i + 1, n - i - 1, bfdev_rb_pre_for_each_continue, pos);
        pos = &post[i]->node; WALK(E(pos), post + i, n - i, bfdev_rb_post_for_each_from, pos);
        pos = &post[i]->node; WALK(E(pos), post + i + 1, n - i - 1, bfdev_rb_post_for_each_continue, pos);
        pos = &post[i]->node; WALK(E(pos), post + i, n - i, bfdev_rb_post_for_each_safe_from, pos, tmp);
        pos = &post[i]->node; WALK(E(pos), post + i + 1, n - i - 1, bfdev_rb_post_for_each_safe_continue, pos, tmp);
        e = seq[i]; WALK(e, seq + i, n - i, bfdev_rb_for_each_entry_from, e, node);
        e = seq[i]; WALK(e, seq + i + 1, n - i - 1, bfdev_rb_for_each_entry_continue, e, node);
        e = seq[i]; WALK(e, rev + n - 1 - i, i + 1, bfdev_rb_for_each_entry_reverse_from, e, node);
        e = seq[i]; WALK(e, rev + n - i, i, bfdev_rb_for_each_entry_reverse_continue, e, node);
        e = pre[i]; WALK(e, pre + i, n - i, bfdev_rb_pre_for_each_entry_from, e, node);
        e = pre[i]; WALK(e, pre + i + 1, n - i - 1, bfdev_rb_pre_for_each_entry_continue, e, node);
        e = post[i]; WALK(e, post + i, n - i, bfdev_rb_post_for_each_entry_from, e, node);
        e = post[i]; WALK(e, post + i + 1, n - i - 1, bfdev_rb_post_for_each_entry_continue, e, node);
        e = post[i]; WALK(e, post + i, n - i, bfdev_rb_post_for_each_entry_from_safe, e, etmp, node);
        e = post[i]; WALK(e, post + i + 1, n - i - 1, bfdev_rb_post_for_each_entry_continue_safe, e, etmp, node);
        (void)j;
    }
    for (key = 0; key <= 2 * n; ++key) {
        struct ent *want = key & 1 ? seq[key / 2] : NULL;
        bfdev_rb_node_t *res = bfdev_rb_find(root, &key, find);
        mc_assert(res == (want ? &want->node : NULL), "find of key %d", key);
        mc_assert(bfdev_rb_cached_find(tree, &key, find) == res, "cached find of key %d", key);
        leftmost = 5;
        res = bfdev_rb_find_last(root, &key, find, &parent, &link, &leftmost);
        mc_assert(res == (want ? &want->node : NULL), "find_last of key %d", key);
        mc_assert(bfdev_rb_find_last(root, &key, find, &parent, &link, NULL) == res, "find_last without leftmost");
        if (!want) {
            mc_assert(!*link, "find_last link of key %d is occupied", key);
            mc_assert(leftmost == (key == 0), "find_last leftmost of key %d", key);
            if (parent)
                mc_assert(link == (E(parent)->rank > key ? &parent->left : &parent->right), "find_last parent");
            else
                mc_assert(link == &root->node, "find_last root");
        }
    }
    mc_assert(BFDEV_RB_EMPTY_ROOT(root) == !n, "empty");
    return h;
}

static void
insert(struct ent *e, unsigned how)
{
    bfdev_rb_node_t *parent, **link, *dup;
    bool leftmost;

    switch (variant) {
        case PLAIN:
            if (how == 0)
                mc_assert(bfdev_rb_insert(&tree->root, &e->node, cmp, (void *)0x1234), "insert refused");
            else {
                dup = bfdev_rb_find_last(&tree->root, &e->rank, find, &parent, &link, NULL);
                mc_assert(!dup, "find_last");
                bfdev_rb_insert_node(&tree->root, parent, link, &e->node);
            }
            break;
        case CACHED:
            if (how == 0)
                mc_assert(bfdev_rb_cached_insert(tree, &e->node, cmp, (void *)0x1234), "insert refused");
            else {
                dup = bfdev_rb_cached_find_last(tree, &e->rank, find, &parent, &link, &leftmost);
                mc_assert(!dup, "find_last");
                bfdev_rb_cached_insert_node(tree, parent, link, &e->node, leftmost);
            }
            break;
        default:
            if (how == 0) {
                if (IS_CACHED)
                    mc_assert(bfdev_rb_cached_insert_augmented(tree, &e->node, cmp, (void *)0x1234, cb), "insert refused");
                else
                    mc_assert(bfdev_rb_insert_augmented(&tree->root, &e->node, cmp, (void *)0x1234, cb), "insert refused");
                break;
            }
            /* the caller updates the summaries on the way down */
            parent = NULL;
            leftmost = true;
            link = &tree->root.node;
            while ((*link)) {
                parent = *link;
                if (cb == &size_cb)
                    E(parent)->aug++;
                else if (E(parent)->aug < e->val)
                    E(parent)->aug = e->val;
                if (e->rank < E(parent)->rank)
                    link = &parent->left;
                else
                    link = &parent->right, leftmost = false;
            }
            if (IS_CACHED)
                bfdev_rb_cached_insert_node_augmented(tree, parent, link, &e->node, leftmost, cb);
            else
                bfdev_rb_insert_node_augmented(&tree->root, parent, link, &e->node, cb);
            break;
    }
}

static void
delete(struct ent *e, unsigned how)
{
    bfdev_rb_node_t *reb, *ret;

    switch (variant) {
        case PLAIN:
            if (how == 0)
                bfdev_rb_delete(&tree->root, &e->node);
            else if ((reb = bfdev_rb_remove(&tree->root, &e->node)))
                bfdev_rb_erase(&tree->root, reb);
            break;
        case CACHED:
            if (how == 0) {
                ret = bfdev_rb_cached_delete(tree, &e->node);
                mc_assert(ret == (e == seq[0] && n > 1 ? &seq[1]->node : NULL), "cached_delete returned a wrong node");
            } else {
                if (e == seq[0])
                    tree->leftmost = bfdev_rb_next(&e->node);
                if ((reb = bfdev_rb_cached_remove(tree, &e->node)))
                    bfdev_rb_cached_erase(tree, reb);
            }
            break;
        case SIZE: case MAX:
            if (how == 0)
                bfdev_rb_delete_augmented(&tree->root, &e->node, cb);
            else if ((reb = bfdev_rb_remove_augmented(&tree->root, &e->node, cb)))
                bfdev_rb_erase_augmented(&tree->root, reb, cb);
            break;
        default:
            if (how == 0) {
                ret = bfdev_rb_cached_delete_augmented(tree, &e->node, cb);
                mc_assert(ret == (e == seq[0] && n > 1 ? &seq[1]->node : NULL), "cached_delete returned a wrong node");
            } else {
                if (e == seq[0])
                    tree->leftmost = bfdev_rb_next(&e->node);
                if ((reb = bfdev_rb_cached_remove_augmented(tree, &e->node, cb)))
                    bfdev_rb_cached_erase_augmented(tree, reb, cb);
            }
            break;
    }
}

static struct ent *
fresh(void)
{
    struct ent *e = mc_malloc(sizeof(*e));

    memset(e, 0xa5, sizeof(*e));
    e->epoch = 0;
    return e;
}

static void
s_tree(void)
{
    unsigned how;
    struct ent *e, *o;
    int depth, i;

    variant = mc_arg & 0xff;
    maxn = mc_arg >> 8;
    cb = variant >= MAX ? &max_cb : &size_cb;
    n = epoch = 0;
    tree = mc_malloc(sizeof(*tree));
    if (variant & 1)
        bfdev_rb_cache_init(tree);
    else {
        *tree = BFDEV_RB_CACHED_INIT();
        bfdev_rb_init(&tree->root);
    }
    for (depth = mc_bound;;) {
        if (!mc_next(mc_mix(verify(), mc_graph(tree, sizeof(*tree))), &depth))
            break;
        switch (mc_choose(4)) {
            case 0:
                if (n == maxn)
                    mc_prune();
                i = mc_choose(n + 1);
                how = mc_choose(2);
                e = fresh();
                e->rank = i * 2;
                e->val = variant >= MAX ? mc_choose(3) : 0;
                e->aug = variant >= MAX ? e->val : 1;
                mc_step("insert at rank %d of %d (val %u, way %u)", i, n, e->val, how);
                insert(e, how);
                memmove(seq + i + 1, seq + i, (n - i) * sizeof(*seq));
                seq[i] = e;
                n++;
                break;
            case 1:
                if (!n)
                    mc_prune();
                i = mc_choose(n);
                how = mc_choose(2);
                mc_step("delete rank %d of %d (way %u)", i, n, how);
                delete(seq[i], how);
                mc_free(seq[i]);
                n--;
                memmove(seq + i, seq + i + 1, (n - i) * sizeof(*seq));
                break;
            case 2:
                if (!n)
                    mc_prune();
                i = mc_choose(n);
                mc_step("replace rank %d of %d", i, n);
                o = seq[i];
                e = fresh();
                e->val = o->val;
                e->aug = o->aug;
                if (IS_CACHED)
                    bfdev_rb_cached_replace(tree, &o->node, &e->node);
                else
                    bfdev_rb_replace(&tree->root, &o->node, &e->node);
                seq[i] = e;
                mc_free(o);
                break;
            case 3:
                if (!n)
                    mc_prune();
                i = mc_choose(n);
                mc_step("insert a duplicate of rank %d", i);
                e = fresh();
                e->rank = i * 2 + 1;
                e->val = e->aug = 9;
                if (variant == PLAIN)
                    mc_assert(!bfdev_rb_insert(&tree->root, &e->node, cmp, (void *)0x1234), "duplicate accepted");
                else if (variant == CACHED)
                    mc_assert(!bfdev_rb_cached_insert(tree, &e->node, cmp, (void *)0x1234), "duplicate accepted");
                else if (IS_CACHED)
                    mc_assert(!bfdev_rb_cached_insert_augmented(tree, &e->node, cmp, (void *)0x1234, cb), "duplicate accepted");
                else
                    mc_assert(!bfdev_rb_insert_augmented(&tree->root, &e->node, cmp, (void *)0x1234, cb), "duplicate accepted");
                mc_free(e);
                break;
        }
    }
    /* tear down in postorder, freeing each node as it is visited */
    {
        bfdev_rb_node_t *pos, *tmp;
        i = 0;
        bfdev_rb_post_for_each_safe(pos, tmp, &tree->root) {
            mc_assert(i++ < n, "endless teardown");
            mc_free(E(pos));
        }
        mc_assert(i == n, "teardown visited %d of %d", i, n);
    }
}

#define V(variant, max) (variant | max << 8)
const mc_scenario_t mc_scenarios[] = {
    { "plain", s_tree, { 60, -1 }, V(PLAIN, 11) },
    { "cached", s_tree, { 60, -1 }, V(CACHED, 11) },
    { "augmented-size", s_tree, { 60, -1 }, V(SIZE, 10) },
    { "cached-augmented-size", s_tree, { 60, -1 }, V(CSIZE, 10) },
    { "augmented-max", s_tree, { 60, -1 }, V(MAX, 6) },
    { "cached-augmented-max", s_tree, { 60, -1 }, V(CMAX, 6) },
    { "plain-deep", s_tree, { -1, 60 }, V(PLAIN, 16) },
    { "cached-deep", s_tree, { -1, 60 }, V(CACHED, 14) },
    { "augmented-size-deep", s_tree, { -1, 60 }, V(SIZE, 14) },
    { "cached-augmented-size-deep", s_tree, { -1, 60 }, V(CSIZE, 14) },
    { "augmented-max-deep", s_tree, { -1, 60 }, V(MAX, 8) },
    { "cached-augmented-max-deep", s_tree, { -1, 60 }, V(CMAX, 8) },
    { "memory-cached", s_tree, { 60, -1 }, V(CACHED, 5), .graph = 1 },
    { "memory-cached-size", s_tree, { 60, -1 }, V(CSIZE, 5), .graph = 1 },
    { "memory-cached-max", s_tree, { 60, -1 }, V(CMAX, 3), .graph = 1 },
    { "memory-cached-deep", s_tree, { -1, 60 }, V(CACHED, 6), .graph = 1 },
    { "memory-cached-size-deep", s_tree, { -1, 60 }, V(CSIZE, 6), .graph = 1 },
    { "memory-cached-max-deep", s_tree, { -1, 60 }, V(CMAX, 4), .graph = 1 },
    { NULL }
};
