/*
 * Debug checks: every legal history of the small containers raises no alarm,
 * and every misuse the checks exist for, at every position of every reachable
 * container, raises one and leaves every byte as it was.
 */
#include "mc.h"
#include <bfdev/list.h>
#include <bfdev/slist.h>
#include <bfdev/hlist.h>
#include <bfdev/rbtree.h>
#include <bfdev/heap.h>
#include <bfdev/ilist.h>
#include <bfdev/memalloc.h>
#include <bfdev/refcount.h>
#include <bfdev/log.h>

#if !defined(BFDEV_DEBUG_LIST) || !defined(BFDEV_DEBUG_SLIST) || !defined(BFDEV_DEBUG_HLIST) || \
    !defined(BFDEV_DEBUG_ILIST) || !defined(BFDEV_DEBUG_RBTREE) || !defined(BFDEV_DEBUG_HEAP) || \
    !defined(BFDEV_DEBUG_REFCNT) || !defined(BFDEV_DEBUG_MEMALLOC)
# error this harness needs the debug options
#endif

#define MAXN 10

static int alarms;
static char last[256];

static int
record(bfdev_log_message_t *msg, void *pdata)
{
    if (msg->level <= BFDEV_LEVEL_ERR) {
        alarms++;
        snprintf(last, sizeof(last), "%s", msg->buff);
    }
    return 0;
}

static void
setup(void)
{
    bfdev_log_default.write = record;
    bfdev_log_default.pdata = NULL;
    alarms = 0;
    last[0] = '\0';
}

#define QUIET(what, args...) \
    mc_assert(!alarms, "alarm after a legal " what ": %s", ##args, last)

/*
 * One object of each kind, so that a snapshot is a plain copy.
 */
struct ent {
    int id;
    bfdev_list_head_t list;
    bfdev_slist_head_t slist;
    bfdev_hlist_node_t hlist;
    bfdev_rb_node_t rb;
    bfdev_heap_node_t heap;
    bfdev_ilist_node_t ilist;
    unsigned aug;
};

static struct world {
    bfdev_list_head_t list;
    bfdev_slist_head_t slist;
    bfdev_hlist_head_t hlist;
    bfdev_rb_root_cached_t rb;
    bfdev_heap_root_t heap;
    bfdev_ilist_head_t ilist;
    struct ent ent[MAXN];
} w, saved;

static int seq[MAXN], n, maxn;
static int how[MAXN];   /* 0 fresh, 1 deleted */

/* run a misuse: it must be reported and change nothing */
#define MISUSE(what, code, args...) do {                                        \
    saved = w;                                                                  \
    alarms = 0;                                                                 \
    { code; }                                                                   \
    mc_case(mc_mix(__LINE__, cases++));                                         \
    mc_assert(alarms, "no alarm: " what, ##args);                               \
    mc_assert(!memcmp(&w, &saved, sizeof(w)), "reported, but the container changed: " what, ##args); \
    alarms = 0;                                                                 \
} while (0)
static uint64_t cases;

static int
member(int id)
{
    for (int i = 0; i < n; ++i)
        if (seq[i] == id)
            return i;
    return -1;
}

static void
seq_in(int at, int id)
{
    memmove(seq + at + 1, seq + at, (n - at) * sizeof(*seq));
    seq[at] = id;
    n++;
}

static void
seq_out(int at)
{
    memmove(seq + at, seq + at + 1, (n - at - 1) * sizeof(*seq));
    n--;
}

static uint64_t
seq_hash(void)
{
    uint64_t h = 1;
    int i;

    for (i = 0; i < n; ++i)
        h = mc_mix(h, seq[i]);
    for (i = 0; i < maxn; ++i)
        h = mc_mix(h, how[i]);
    return h;
}

/* a number for every object: 0 is the head */
static bfdev_list_head_t *
lobj(int i)
{
    return i ? &w.ent[i - 1].list : &w.list;
}

static void
list_verify(void)
{
    bfdev_list_head_t *pos = &w.list;
    int i;

    for (i = 0; i < n; ++i) {
        mc_assert(pos->next == &w.ent[seq[i]].list && pos->next->prev == pos, "links at %d", i);
        pos = pos->next;
    }
    mc_assert(pos->next == &w.list && w.list.prev == pos, "links at the end");
}

static void
list_misuse(void)
{
    bfdev_list_head_t *a, *b, *fresh = NULL;
    struct world base = w;
    int i, j, k, f, op;

    /* add an element beside itself */
    for (i = 0; i < n; ++i) {
        a = &w.ent[seq[i]].list;
        MISUSE("adding element %d behind itself", bfdev_list_add(a, a), seq[i]);
        MISUSE("adding element %d in front of itself", bfdev_list_add_prev(a, a), seq[i]);
        MISUSE("adding element %d where it already is", bfdev_list_add(a->prev, a), seq[i]);
        MISUSE("adding element %d where it already is, from behind", bfdev_list_add_prev(a->next, a), seq[i]);
    }
    /* delete twice */
    for (i = 0; i < maxn; ++i) {
        a = &w.ent[i].list;
        if (member(i) >= 0) {
            continue;
        }
        fresh = a;
        if (how[i] != 1)
            continue;
        MISUSE("deleting element %d twice", bfdev_list_del(a), i);
        b = a->next;
        a->next = &w.list;
        MISUSE("deleting element %d whose prev is poisoned", bfdev_list_del(a), i);
        a->next = b;
        b = a->prev;
        a->prev = &w.list;
        MISUSE("deleting element %d whose next is poisoned", bfdev_list_del(a), i);
        a->prev = b;
    }
    /* insert beside a corrupted link */
    if (fresh)
    for (i = 0; i <= maxn; ++i) {
        if (i && member(i - 1) < 0)
            continue;
        for (f = 0; f < 2; ++f)
        for (j = 0; j <= maxn; ++j) {
            w = base;
            a = lobj(i);
            b = lobj(j);
            if (b == (f ? a->next : a->prev) || (j && member(j - 1) < 0 && b != fresh))
                continue;
            if (f)
                a->next = b;
            else
                a->prev = b;
            for (k = 0; k <= maxn; ++k) {
                struct world bad = w;
                if (k && member(k - 1) < 0)
                    continue;
                for (op = 0; op < 2; ++op) {
                    bfdev_list_head_t *prev, *next;

                    w = bad;
                    prev = op ? lobj(k)->prev : lobj(k);
                    next = op ? lobj(k) : lobj(k)->next;
                    if (prev->next != next || next->prev != prev || fresh == prev || fresh == next) {
                        MISUSE("object %d has its %s link set to object %d, insertion %s object %d",
                            if (op) bfdev_list_add_prev(lobj(k), fresh);
                            else bfdev_list_add(lobj(k), fresh),
                            i, f ? "next" : "prev", j, op ? "before" : "behind", k);
                        continue;
                    }
                    alarms = 0;
                    if (op)
                        bfdev_list_add_prev(lobj(k), fresh);
                    else
                        bfdev_list_add(lobj(k), fresh);
                    QUIET("insertion between two intact neighbours");
                    mc_assert(prev->next == fresh && next->prev == fresh && fresh->prev == prev &&
                              fresh->next == next, "insertion between two intact neighbours");
                }
            }
        }
    }
    w = base;
    /* insert between elements that are not neighbours */
    if (fresh)
    for (i = 0; i <= maxn; ++i) {
        if (i && member(i - 1) < 0)
            continue;
        for (j = 0; j <= maxn; ++j) {
            if (j && member(j - 1) < 0)
                continue;
            a = lobj(i);
            b = lobj(j);
            if (a->next == b)
                continue;
            MISUSE("insertion between objects %d and %d, which are not neighbours",
                   bfdev_list_insert(a, b, fresh), i, j);
        }
    }
}

static void
list(void)
{
    int depth = 60;
    int i, at, c, k;

    setup();
    memset(&w, 0, sizeof(w));
    n = 0;
    maxn = mc_bound;
    memset(how, 0, sizeof(how));
    bfdev_list_head_init(&w.list);

    while (mc_next(seq_hash(), &depth)) {
        switch (mc_choose(6)) {
            case 0: /* insert */
                i = mc_choose(maxn);
                if (member(i) >= 0)
                    mc_prune();
                at = mc_choose(n + 1);
                c = mc_choose(2);
                mc_step("add %d at %d", i, at);
                if (c)
                    bfdev_list_add(at ? &w.ent[seq[at - 1]].list : &w.list, &w.ent[i].list);
                else
                    bfdev_list_add_prev(at < n ? &w.ent[seq[at]].list : &w.list, &w.ent[i].list);
                seq_in(at, i);
                how[i] = 0;
                break;
            case 1: /* delete */
                if (!n)
                    mc_prune();
                at = mc_choose(n);
                mc_step("del %d", seq[at]);
                bfdev_list_del(&w.ent[seq[at]].list);
                how[seq[at]] = 1;
                seq_out(at);
                break;
            case 2: /* delete and reinitialize */
                if (!n)
                    mc_prune();
                at = mc_choose(n);
                mc_step("del_init %d", seq[at]);
                bfdev_list_del_init(&w.ent[seq[at]].list);
                seq_out(at);
                break;
            case 3: /* move to either end */
                if (!n)
                    mc_prune();
                at = mc_choose(n);
                i = seq[at];
                c = mc_choose(2);
                mc_step("move %d", i);
                if (c)
                    bfdev_list_move(&w.list, &w.ent[i].list);
                else
                    bfdev_list_move_prev(&w.list, &w.ent[i].list);
                seq_out(at);
                seq_in(c ? 0 : n, i);
                break;
            case 4: /* swap */
                if (n < 2)
                    mc_prune();
                at = mc_choose(n);
                k = mc_choose(n);
                if (at == k)
                    mc_prune();
                mc_step("swap %d %d", seq[at], seq[k]);
                bfdev_list_swap(&w.ent[seq[at]].list, &w.ent[seq[k]].list);
                i = seq[at];
                seq[at] = seq[k];
                seq[k] = i;
                break;
            case 5: /* replace, the old one is reinitialized */
                if (!n)
                    mc_prune();
                at = mc_choose(n);
                i = mc_choose(maxn);
                if (member(i) >= 0)
                    mc_prune();
                mc_step("replace %d by %d", seq[at], i);
                bfdev_list_replace_init(&w.ent[seq[at]].list, &w.ent[i].list);
                how[i] = 0;
                seq[at] = i;
                break;
        }
        QUIET("list operation");
        cases = seq_hash();
        list_verify();
        if (!mc_verified())
            list_misuse();
    }
}

static void
slist_verify(void)
{
    bfdev_slist_head_t *pos = w.slist.next;

    for (int i = 0; i < n; ++i, pos = pos->next)
        mc_assert(pos == &w.ent[seq[i]].slist, "link at %d", i);
    mc_assert(!pos, "the list does not end");
}

static void
slist(void)
{
    int depth = 60;
    int i, at;

    setup();
    memset(&w, 0, sizeof(w));
    n = 0;
    maxn = mc_bound;
    memset(how, 0, sizeof(how));

    while (mc_next(seq_hash(), &depth)) {
        bfdev_slist_head_t *a;

        if (!mc_choose(2)) {
            i = mc_choose(maxn);
            if (member(i) >= 0)
                mc_prune();
            at = mc_choose(n + 1);
            mc_step("add %d at %d", i, at);
            bfdev_slist_add(at ? &w.ent[seq[at - 1]].slist : &w.slist, &w.ent[i].slist);
            seq_in(at, i);
            how[i] = 0;
        } else {
            if (!n)
                mc_prune();
            at = mc_choose(n);
            mc_step("del %d", seq[at]);
            bfdev_slist_del(&w.slist, &w.ent[seq[at]].slist);
            how[seq[at]] = 1;
            seq_out(at);
        }
        QUIET("single linked list operation");
        cases = seq_hash();
        slist_verify();
        if (mc_verified())
            continue;
        for (i = 0; i < n; ++i) {
            a = &w.ent[seq[i]].slist;
            MISUSE("adding element %d behind itself", bfdev_slist_add(a, a), seq[i]);
            MISUSE("adding element %d where it already is",
                   bfdev_slist_add(i ? &w.ent[seq[i - 1]].slist : &w.slist, a), seq[i]);
        }
        for (i = 0; i < maxn; ++i)
            if (how[i] == 1)
                MISUSE("deleting element %d twice", bfdev_slist_del(&w.slist, &w.ent[i].slist), i);
    }
}

static void
hlist_verify(void)
{
    bfdev_hlist_node_t *pos = w.hlist.node, **pprev = &w.hlist.node;

    for (int i = 0; i < n; ++i, pos = pos->next) {
        mc_assert(pos == &w.ent[seq[i]].hlist, "link at %d", i);
        mc_assert(pos->pprev == pprev, "back link at %d", i);
        pprev = &pos->next;
    }
    mc_assert(!pos, "the list does not end");
}

static void
hlist(void)
{
    int depth = 60;
    int i, at;

    setup();
    memset(&w, 0, sizeof(w));
    n = 0;
    maxn = mc_bound;
    memset(how, 0, sizeof(how));

    while (mc_next(seq_hash(), &depth)) {
        bfdev_hlist_node_t *a, *b, **pp;

        switch (mc_choose(4)) {
            case 0:
                i = mc_choose(maxn);
                if (member(i) >= 0)
                    mc_prune();
                mc_step("head_add %d", i);
                bfdev_hlist_head_add(&w.hlist, &w.ent[i].hlist);
                seq_in(0, i);
                how[i] = 0;
                break;
            case 1:
            case 2:
                if (!n)
                    mc_prune();
                i = mc_choose(maxn);
                if (member(i) >= 0)
                    mc_prune();
                at = mc_choose(2 * n);
                mc_step("%s_add %d at %d", at & 1 ? "prev" : "next", i, at >> 1);
                if (at & 1) {
                    bfdev_hlist_prev_add(&w.ent[seq[at >> 1]].hlist, &w.ent[i].hlist);
                    seq_in(at >> 1, i);
                } else {
                    bfdev_hlist_next_add(&w.ent[seq[at >> 1]].hlist, &w.ent[i].hlist);
                    seq_in((at >> 1) + 1, i);
                }
                how[i] = 0;
                break;
            case 3:
                if (!n)
                    mc_prune();
                at = mc_choose(n);
                mc_step("del %d", seq[at]);
                bfdev_hlist_del(&w.ent[seq[at]].hlist);
                how[seq[at]] = 1;
                seq_out(at);
                break;
        }
        QUIET("hash list operation");
        cases = seq_hash();
        hlist_verify();
        if (mc_verified())
            continue;
        for (i = 0; i < n; ++i) {
            a = &w.ent[seq[i]].hlist;
            if (!i)
                MISUSE("adding the first element %d again", bfdev_hlist_head_add(&w.hlist, a), seq[i]);
            else
                MISUSE("adding element %d where it already is",
                       bfdev_hlist_next_add(&w.ent[seq[i - 1]].hlist, a), seq[i]);
            if (i + 1 < n)
                MISUSE("adding element %d where it already is, from behind",
                       bfdev_hlist_prev_add(&w.ent[seq[i + 1]].hlist, a), seq[i]);
        }
        for (i = 0; i < maxn; ++i) {
            if (how[i] != 1)
                continue;
            a = &w.ent[i].hlist;
            MISUSE("deleting element %d twice", bfdev_hlist_del(a), i);
            b = a->next;
            a->next = NULL;
            MISUSE("deleting element %d whose pprev is poisoned", bfdev_hlist_del(a), i);
            a->next = b;
            pp = a->pprev;
            a->pprev = &w.hlist.node;
            MISUSE("deleting element %d whose next is poisoned", bfdev_hlist_del(a), i);
            a->pprev = pp;
        }
    }
}

/*
 * Trees
 */
static long
rb_cmp(const bfdev_rb_node_t *a, const bfdev_rb_node_t *b, void *pdata)
{
    return (long)bfdev_rb_entry(a, struct ent, rb)->id - bfdev_rb_entry(b, struct ent, rb)->id;
}

static unsigned
sub_size(bfdev_rb_node_t *node)
{
    return node ? bfdev_rb_entry(node, struct ent, rb)->aug : 0;
}

static bool
compute_size(struct ent *e, bool exit)
{
    unsigned size = 1 + sub_size(e->rb.left) + sub_size(e->rb.right);

    if (exit && e->aug == size)
        return true;
    e->aug = size;
    return false;
}
BFDEV_RB_DECLARE_CALLBACKS(static, size_cb, struct ent, rb, aug, compute_size);

static uint64_t
rb_hash(bfdev_rb_node_t *node)
{
    if (!node)
        return 7;
    return mc_mix(mc_mix(mc_mix(rb_hash(node->left), bfdev_rb_entry(node, struct ent, rb)->id),
                         node->color), rb_hash(node->right));
}

static uint64_t
flags_hash(uint64_t h)
{
    for (int i = 0; i < maxn; ++i)
        h = mc_mix(h, how[i]);
    return h;
}

static void
rb_poison(int id, void (*del)(bfdev_rb_node_t *node))
{
    bfdev_rb_node_t *node = &w.ent[id].rb, keep = *node;
    int m;

    for (m = 0; m < 7; ++m) {
        *node = keep;
        if (m & 1)
            node->left = NULL;
        if (m & 2)
            node->right = NULL;
        if (m & 4)
            node->parent = NULL;
        MISUSE("deleting node %d twice (mended fields %d)", del(node), id, m);
    }
    *node = keep;
}

static void del_plain(bfdev_rb_node_t *node) { bfdev_rb_delete(&w.rb.root, node); }
static void del_cached(bfdev_rb_node_t *node) { bfdev_rb_cached_delete(&w.rb, node); }
static void del_aug(bfdev_rb_node_t *node) { bfdev_rb_delete_augmented(&w.rb.root, node, &size_cb); }
static void del_caug(bfdev_rb_node_t *node) { bfdev_rb_cached_delete_augmented(&w.rb, node, &size_cb); }
static void (*const dels[4])(bfdev_rb_node_t *) = { del_plain, del_cached, del_aug, del_caug };

static void
rb(void)
{
    int i, count = 0, variant = mc_arg;
    int depth = 60;

    setup();
    memset(&w, 0, sizeof(w));
    maxn = mc_bound;
    memset(how, 0, sizeof(how));
    for (i = 0; i < maxn; ++i)
        w.ent[i].id = i;

    /* how: 0 fresh, 1 deleted, 2 in */
    while (mc_next(flags_hash(rb_hash(w.rb.root.node)), &depth)) {
        i = mc_choose(maxn);
        if (how[i] == 2) {
            mc_step("delete %d", i);
            dels[variant](&w.ent[i].rb);
            how[i] = 1;
            count--;
        } else {
            bool ok;
            mc_step("insert %d", i);
            w.ent[i].aug = 0;
            switch (variant) {
                case 0: ok = bfdev_rb_insert(&w.rb.root, &w.ent[i].rb, rb_cmp, NULL); break;
                case 1: ok = bfdev_rb_cached_insert(&w.rb, &w.ent[i].rb, rb_cmp, NULL); break;
                case 2: ok = bfdev_rb_insert_augmented(&w.rb.root, &w.ent[i].rb, rb_cmp, NULL, &size_cb); break;
                default: ok = bfdev_rb_cached_insert_augmented(&w.rb, &w.ent[i].rb, rb_cmp, NULL, &size_cb); break;
            }
            mc_assert(ok, "insertion refused");
            how[i] = 2;
            count++;
        }
        QUIET("tree operation");
        cases = flags_hash(rb_hash(w.rb.root.node));
        if (mc_verified())
            continue;
        for (i = 0; i < maxn; ++i) {
            bfdev_rb_node_t *node = &w.ent[i].rb, *parent, **link;

            if (how[i] == 1)
                rb_poison(i, dels[variant]);
            if (how[i] != 2)
                continue;
            parent = node->parent;
            link = !parent ? &w.rb.root.node : parent->left == node ? &parent->left : &parent->right;
            MISUSE("linking node %d again", bfdev_rb_link(parent, link, node), i);
            switch (variant) {
                case 0:
                    MISUSE("inserting node %d again", bfdev_rb_insert_node(&w.rb.root, parent, link, node), i);
                    break;
                case 1:
                    MISUSE("inserting cached node %d again",
                        bfdev_rb_cached_insert_node(&w.rb, parent, link, node, w.rb.leftmost == node), i);
                    break;
                case 2:
                    MISUSE("inserting augmented node %d again",
                        bfdev_rb_insert_node_augmented(&w.rb.root, parent, link, node, &size_cb), i);
                    break;
                case 3:
                    MISUSE("inserting cached augmented node %d again",
                        bfdev_rb_cached_insert_node_augmented(&w.rb, parent, link, node,
                        w.rb.leftmost == node, &size_cb), i);
                    break;
            }
        }
    }
}

static long
heap_cmp(const bfdev_heap_node_t *a, const bfdev_heap_node_t *b, void *pdata)
{
    return (long)(bfdev_heap_entry(a, struct ent, heap)->id >> 1) -
           (bfdev_heap_entry(b, struct ent, heap)->id >> 1);
}

static uint64_t
heap_hash(bfdev_heap_node_t *node)
{
    if (!node)
        return 7;
    return mc_mix(mc_mix(heap_hash(node->left), bfdev_heap_entry(node, struct ent, heap)->id),
                  heap_hash(node->right));
}

static void
heap(void)
{
    int depth = 60;
    int i, m;

    setup();
    memset(&w, 0, sizeof(w));
    maxn = mc_bound;
    memset(how, 0, sizeof(how));
    for (i = 0; i < maxn; ++i)
        w.ent[i].id = i;

    while (mc_next(flags_hash(heap_hash(w.heap.node)), &depth)) {
        i = mc_choose(maxn);
        if (how[i] == 2) {
            mc_step("delete %d", i);
            bfdev_heap_delete(&w.heap, &w.ent[i].heap, heap_cmp, NULL);
            how[i] = 1;
        } else {
            mc_step("insert %d", i);
            bfdev_heap_insert(&w.heap, &w.ent[i].heap, heap_cmp, NULL);
            how[i] = 2;
        }
        QUIET("heap operation");
        cases = flags_hash(heap_hash(w.heap.node));
        if (mc_verified())
            continue;
        for (i = 0; i < maxn; ++i) {
            bfdev_heap_node_t *node = &w.ent[i].heap, *parent, **link, keep;

            if (how[i] == 1) {
                keep = *node;
                for (m = 0; m < 7; ++m) {
                    *node = keep;
                    if (m & 1)
                        node->left = NULL;
                    if (m & 2)
                        node->right = NULL;
                    if (m & 4)
                        node->parent = NULL;
                    MISUSE("deleting node %d twice (mended fields %d)",
                        bfdev_heap_delete(&w.heap, node, heap_cmp, NULL), i, m);
                }
                *node = keep;
            }
            if (how[i] != 2)
                continue;
            parent = node->parent;
            link = !parent ? &w.heap.node : parent->left == node ? &parent->left : &parent->right;
            MISUSE("linking node %d again", bfdev_heap_link(&w.heap, parent, link, node), i);
            MISUSE("inserting node %d again",
                bfdev_heap_insert_node(&w.heap, parent, link, node, heap_cmp, NULL), i);
        }
    }
}

/*
 * Index list: the whole of both rings is checked before anything happens.
 */
static int nkeys;

static long
ilist_cmp(const bfdev_ilist_node_t *a, const bfdev_ilist_node_t *b, void *pdata)
{
    return (long)(bfdev_ilist_entry(a, struct ent, ilist)->id % nkeys) -
           (bfdev_ilist_entry(b, struct ent, ilist)->id % nkeys);
}

static uint64_t
ilist_hash(void)
{
    uint64_t h = 3;
    bfdev_list_head_t *pos;

    bfdev_list_for_each(pos, &w.ilist.node_list) {
        struct ent *e = bfdev_container_of(pos, struct ent, ilist.node_list);
        h = mc_mix(h, e->id);
        h = mc_mix(h, bfdev_list_entry(e->ilist.index_list.next, struct ent, ilist.index_list)->id);
    }
    return h;
}

static bfdev_list_head_t *
iobj(int i)
{
    return i ? &w.ent[i - 1].ilist.node_list : &w.ilist.node_list;
}

static void
ilist_misuse(void)
{
    struct world base = w;
    bfdev_list_head_t *a, *b, *first;
    int i, j, k, f, ring;

    for (ring = 0; ring < 2; ++ring)
    for (i = 0; i <= maxn; ++i) {
        if (i && how[i - 1] != 2)
            continue;
        if (ring) {
            if (!i)
                continue;
            /* only elements of the index ring */
            w = base;
            first = &bfdev_ilist_first(&w.ilist)->index_list;
            for (a = first; a != &w.ent[i - 1].ilist.index_list && a->next != first; a = a->next);
            if (a != &w.ent[i - 1].ilist.index_list)
                continue;
        }
        for (f = 0; f < 2; ++f)
        for (j = ring; j <= maxn; ++j) {
            if (j && how[j - 1] != 2)
                continue;
            w = base;
            a = ring ? &w.ent[i - 1].ilist.index_list : iobj(i);
            b = ring ? &w.ent[j - 1].ilist.index_list : iobj(j);
            if (b == (f ? a->next : a->prev))
                continue;
            if (f)
                a->next = b;
            else
                a->prev = b;
            for (k = 0; k < maxn; ++k) {
                if (how[k] == 2)
                    MISUSE("deletion of %d while the %s link of object %d in ring %d leads to object %d",
                        bfdev_ilist_del(&w.ilist, &w.ent[k].ilist), k, f ? "next" : "prev", i, ring, j);
                else
                    MISUSE("insertion of %d while the %s link of object %d in ring %d leads to object %d",
                        bfdev_ilist_add(&w.ilist, &w.ent[k].ilist, ilist_cmp, NULL), k, f ? "next" : "prev", i, ring, j);
            }
        }
    }
    w = base;
}

static void
ilist(void)
{
    int depth = 60;
    int i;

    setup();
    memset(&w, 0, sizeof(w));
    maxn = mc_bound;
    nkeys = mc_arg;
    memset(how, 0, sizeof(how));
    bfdev_ilist_head_init(&w.ilist);
    for (i = 0; i < maxn; ++i) {
        w.ent[i].id = i;
        bfdev_ilist_node_init(&w.ent[i].ilist);
    }

    while (mc_next(ilist_hash(), &depth)) {
        i = mc_choose(maxn);
        if (how[i] == 2) {
            mc_step("del %d", i);
            bfdev_ilist_del(&w.ilist, &w.ent[i].ilist);
            how[i] = 0;
        } else {
            mc_step("add %d", i);
            bfdev_ilist_add(&w.ilist, &w.ent[i].ilist, ilist_cmp, NULL);
            how[i] = 2;
        }
        QUIET("index list operation");
        cases = ilist_hash();
        if (!mc_verified())
            ilist_misuse();
    }
}

/*
 * Allocator: freeing, or growing, a block that was freed before.
 */
#define POOL 640
static struct pool {
    bfdev_memalloc_head_t head;
    char mem[POOL] __attribute__((aligned(64)));
} pool, pool_saved;

#define POOL_MISUSE(what, code, args...) do {                                   \
    pool_saved = pool;                                                          \
    alarms = 0;                                                                 \
    { code; }                                                                   \
    mc_case(mc_mix(__LINE__, cases++));                                         \
    mc_assert(alarms, "no alarm: " what, ##args);                               \
    mc_assert(!memcmp(&pool, &pool_saved, sizeof(pool)), "reported, but the pool changed: " what, ##args); \
    alarms = 0;                                                                 \
} while (0)

static void
memalloc(void)
{
    static const bfdev_memalloc_find_t finds[] = {
        bfdev_memalloc_first_fit, bfdev_memalloc_best_fit, bfdev_memalloc_worst_fit };
    static const unsigned sizes[] = { 1, 64, 200 };
    static char *block[8];
    static unsigned size[8];
    bfdev_memalloc_chunk_t *chunk;
    int i, k, live = 0;
    int depth = 60;
    uint64_t h;
    char *ptr;

    setup();
    memset(&pool, 0, sizeof(pool));
    memset(block, 0, sizeof(block));
    bfdev_memalloc_init(&pool.head, finds[mc_arg], pool.mem, POOL);
    for (;;) {
        h = pool.head.avail;
        bfdev_list_for_each_entry(chunk, &pool.head.block_list, block)
            h = mc_mix(mc_mix(h, (char *)chunk - pool.mem), chunk->usize);
        bfdev_list_for_each_entry(chunk, &pool.head.free_list, free)
            h = mc_mix(h, (char *)chunk - pool.mem);
        for (i = 0; i < live; ++i)
            h = mc_mix(h, block[i] - pool.mem);
        if (!mc_next(h, &depth))
            break;
        cases = h;
        i = mc_choose(3);
        if (!i) {
            if (live == mc_bound)
                mc_prune();
            k = mc_choose(MC_ARRAY_SIZE(sizes));
            mc_step("alloc %u", sizes[k]);
            ptr = bfdev_memalloc_alloc(&pool.head, sizes[k]);
            QUIET("allocation");
            if (!ptr)
                continue;
            size[live] = sizes[k];
            block[live++] = ptr;
        } else if (i == 1) {
            if (!live)
                mc_prune();
            k = mc_choose(live);
            i = mc_choose(MC_ARRAY_SIZE(sizes));
            mc_step("realloc %d to %u", k, sizes[i]);
            ptr = bfdev_memalloc_realloc(&pool.head, block[k], sizes[i]);
            QUIET("reallocation");
            if (ptr) {
                if (ptr != block[k]) {
                    char *old = block[k];
                    /* the old place must not be part of a live block to be recognised */
                    POOL_MISUSE("freeing a block that was moved away", bfdev_memalloc_free(&pool.head, old));
                }
                block[k] = ptr;
                size[k] = sizes[i];
            }
        } else {
            if (!live)
                mc_prune();
            k = mc_choose(live);
            mc_step("free %d", k);
            ptr = block[k];
            bfdev_memalloc_free(&pool.head, ptr);
            QUIET("free");
            live--;
            for (i = k; i < live; ++i) {
                block[i] = block[i + 1];
                size[i] = size[i + 1];
            }
            POOL_MISUSE("freeing a block twice", bfdev_memalloc_free(&pool.head, ptr));
            for (i = 0; i < (int)MC_ARRAY_SIZE(sizes); ++i)
                POOL_MISUSE("growing a freed block", mc_assert(!bfdev_memalloc_realloc(&pool.head, ptr, sizes[i] + 200),
                            "a freed block was grown"));
        }
    }
}

/*
 * Reference counters: an alarm exactly for use after zero, leaks, overflows.
 */
static const bfdev_atomic_t edge[] = {
    0, 1, 2, 3, 100, LONG_MAX / 2, LONG_MAX - 2, LONG_MAX - 1, LONG_MAX,
    -1, -2, -100, LONG_MIN / 2, LONG_MIN + 2, LONG_MIN + 1, LONG_MIN,
};
static const bfdev_atomic_t amount[] = { 1, 2, 3, 100, LONG_MAX / 2, LONG_MAX - 1, LONG_MAX };

static void
refcnt(void)
{
    bfdev_atomic_t cur, nr, old;
    bfdev_refcnt_t ref;
    bool bad, zero, inc;
    __int128 want;
    int op;

    setup();
    cur = edge[mc_choose(MC_ARRAY_SIZE(edge))];
    nr = amount[mc_choose(MC_ARRAY_SIZE(amount))];
    op = mc_choose(22);
    bfdev_refcnt_set(&ref, cur);
    old = 4711;
    zero = false;
    inc = false;
    switch (op) {
        case 0: bfdev_refcnt_add(&ref, nr); break;
        case 1: bfdev_refcnt_inc(&ref); inc = true; break;
        case 2: bfdev_refcnt_fetch_inc(&ref, &old); inc = true; break;
        case 3: bfdev_refcnt_sub(&ref, nr); break;
        case 4: zero = bfdev_refcnt_sub_test(&ref, nr); break;
        case 5: bfdev_refcnt_fetch_sub(&ref, nr, &old); break;
        case 6: bfdev_refcnt_dec(&ref); inc = true; break;
        case 7: zero = bfdev_refcnt_dec_test(&ref); inc = true; break;
        case 8: bfdev_refcnt_fetch_dec(&ref, &old); inc = true; break;
        case 9: zero = bfdev_refcnt_fetch_dec_test(&ref, &old); inc = true; break;
        case 10: bfdev_refcnt_addnz(&ref, nr); break;
        case 11: zero = bfdev_refcnt_addnz_test(&ref, nr); break;
        case 12: bfdev_refcnt_fetch_addnz(&ref, nr, &old); break;
        case 13: bfdev_refcnt_incnz(&ref); inc = true; break;
        case 14: zero = bfdev_refcnt_incnz_test(&ref); inc = true; break;
        case 15: bfdev_refcnt_fetch_incnz(&ref, &old); inc = true; break;
        case 16: zero = bfdev_refcnt_fetch_incnz_test(&ref, &old); inc = true; break;
        default: mc_prune();
    }
    if (inc)
        nr = 1;
    mc_step("operation %d amount %ld on counter %ld", op, (long)nr, (long)cur);
    if (op < 3) {
        want = (__int128)cur + nr;
        bad = cur <= 0 || want > LONG_MAX;
    } else if (op < 10) {
        want = (__int128)cur - nr;
        bad = cur <= 0 || want < 0;
        if (op == 4 || op == 7 || op == 9)
            mc_assert(zero == (want == 0), "result of the test");
    } else {
        want = cur ? (__int128)cur + nr : 0;
        bad = cur < 0 || want > LONG_MAX;
        if (op == 11 || op == 14 || op == 16)
            mc_assert(zero == !cur, "result of the test");
    }
    mc_assert(!!alarms == bad, "%s: %s", bad ? "no alarm" : "false alarm", last);
    mc_assert(bfdev_refcnt_get(&ref) == (bfdev_atomic_t)want, "value %ld", (long)bfdev_refcnt_get(&ref));
}

const mc_scenario_t mc_scenarios[] = {
    { "list", list, { 3, 4 } },
    { "slist", slist, { 5, 6 } },
    { "hlist", hlist, { 5, 6 } },
    { "rbtree", rb, { 6, 8 }, 0 },
    { "rbtree-cached", rb, { 6, 8 }, 1 },
    { "rbtree-augmented", rb, { 6, 8 }, 2 },
    { "rbtree-cached-augmented", rb, { 6, 8 }, 3 },
    { "heap", heap, { 6, 7 } },
    { "ilist-distinct", ilist, { 4, 5 }, 8 },
    { "ilist-pairs", ilist, { 4, 5 }, 2 },
    { "ilist-equal", ilist, { 4, 5 }, 1 },
    { "memalloc-first", memalloc, { 3, 4 }, 0 },
    { "memalloc-best", memalloc, { 3, 4 }, 1 },
    { "memalloc-worst", memalloc, { 3, 4 }, 2 },
    { "refcount", refcnt, { 1, 1 }, 0, 1 },
    { 0 }
};
