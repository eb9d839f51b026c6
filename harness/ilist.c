/*
 * Index list: every add/delete history over N nodes with every key assignment,
 * until closure.
 */
#include "mc.h"
#include <bfdev/ilist.h>

#define MAXN 8
struct ent {
    long pad;
    bfdev_ilist_node_t ilist;
    int key, id;
    bool in;
};
#define E(n) bfdev_ilist_entry(n, struct ent, ilist)
#define L(p) E(bfdev_container_of(p, bfdev_ilist_node_t, node_list))

static bfdev_ilist_head_t *head;
static struct ent *ents, *seq[MAXN + 1], *rev[MAXN + 1];
static int n, maxn, nkeys;

static long
cmp(const bfdev_ilist_node_t *a, const bfdev_ilist_node_t *b, void *pdata)
{
    mc_assert(pdata == (void *)0x99, "compare data lost");
    mc_assert((void *)a != head && (void *)b != head, "compare called with the head");
    return ((long)E(a)->key - E(b)->key) * 0x100000000L;
}

static struct ent *got[MAXN + 1];
static int ngot;
#define SEE(e) do { \
    mc_assert(ngot < n, "traversal does not end"); \
    got[ngot++] = (e); \
} while (0)
static void
expect(const char *what, struct ent *const *want, int count)
{
    int i;
    for (i = 0; i < count; ++i)
        mc_assert(i < ngot && got[i] == want[i], "%s: visit %d is wrong", what, i);
    mc_assert(ngot == count, "%s visited %d nodes, expected %d", what, ngot, count);
}
#define WALK(e, want, count, macro, args...) do { \
    ngot = 0;                                   \
    macro(args)                                 \
        SEE(e);                                 \
    expect(#macro, want, count);                \
} while (0)

static uint64_t
verify(void)
{
    bfdev_list_head_t *pos, *tmp, *idx;
    struct ent *e, *etmp;
    uint64_t h = 9;
    int i, k;

    for (i = 0; i < n; ++i)
        rev[n - 1 - i] = seq[i];
    mc_assert(bfdev_ilist_head_empty(head) == !n, "head_empty");
    WALK(L(pos), seq, n, bfdev_ilist_for_each, pos, head);
    WALK(L(pos), rev, n, bfdev_ilist_for_each_reverse, pos, head);
    WALK(L(pos), seq, n, bfdev_ilist_for_each_safe, pos, tmp, head);
    WALK(L(pos), rev, n, bfdev_ilist_for_each_reverse_safe, pos, tmp, head);
    WALK(e, seq, n, bfdev_ilist_for_each_entry, e, head, ilist);
    WALK(e, rev, n, bfdev_ilist_for_each_entry_reverse, e, head, ilist);
    WALK(e, seq, n, bfdev_ilist_for_each_entry_safe, e, etmp, head, ilist);
    WALK(e, rev, n, bfdev_ilist_for_each_entry_reverse_safe, e, etmp, head, ilist);
    for (i = 0; i < n; ++i) {
        pos = &seq[i]->ilist.node_list; WALK(L(pos), seq + i, n - i, bfdev_ilist_for_each_from, pos, head);
        pos = &seq[i]->ilist.node_list; WALK(L(pos), seq + i + 1, n - i - 1, bfdev_ilist_for_each_continue, pos, head);
        pos = &seq[i]->ilist.node_list; WALK(L(pos), rev + n - 1 - i, i + 1, bfdev_ilist_for_each_reverse_from, pos, head);
        pos = &seq[i]->ilist.node_list; WALK(L(pos), rev + n - i, i, bfdev_ilist_for_each_reverse_continue, pos, head);
        pos = &seq[i]->ilist.node_list; WALK(L(pos), seq + i, n - i, bfdev_ilist_for_each_from_safe, pos, tmp, head);
        pos = &seq[i]->ilist.node_list; WALK(L(pos), seq + i + 1, n - i - 1, bfdev_ilist_for_each_continue_safe, pos, tmp, head);
        pos = &seq[i]->ilist.node_list; WALK(L(pos), rev + n - 1 - i, i + 1, bfdev_ilist_for_each_reverse_from_safe, pos, tmp, head);
        pos = &seq[i]->ilist.node_list; WALK(L(pos), rev + n - i, i, bfdev_ilist_for_each_reverse_continue_safe, pos, tmp, head);
        e = seq[i]; WALK(e, seq + i, n - i, bfdev_ilist_for_each_entry_from, e, head, ilist);
        e = seq[i]; WALK(e, seq + i + 1, n - i - 1, bfdev_ilist_for_each_entry_continue, e, head, ilist);
        e = seq[i]; WALK(e, rev + n - 1 - i, i + 1, bfdev_ilist_for_each_entry_reverse_from, e, head, ilist);
        e = seq[i]; WALK(e, rev + n - i, i, bfdev_ilist_for_each_entry_reverse_continue, e, head, ilist);
        e = seq[i]; WALK(e, seq + i, n - i, bfdev_ilist_for_each_entry_from_safe, e, etmp, head, ilist);
        e = seq[i]; WALK(e, seq + i + 1, n - i - 1, bfdev_ilist_for_each_entry_continue_safe, e, etmp, head, ilist);
        e = seq[i]; WALK(e, rev + n - 1 - i, i + 1, bfdev_ilist_for_each_entry_reverse_from_safe, e, etmp, head, ilist);
        e = seq[i]; WALK(e, rev + n - i, i, bfdev_ilist_for_each_entry_reverse_continue_safe, e, etmp, head, ilist);
    }
    /* index chain: one entry per distinct key, in key order */
    if (n) {
        bfdev_list_head_t *start;
        mc_assert(bfdev_ilist_first(head) == &seq[0]->ilist, "first");
        mc_assert(bfdev_ilist_last(head) == &seq[n - 1]->ilist, "last");
        idx = start = &bfdev_ilist_first(head)->index_list;
        for (i = 0; i < n; i = k) {
            for (k = i; k < n && seq[k]->key == seq[i]->key; ++k);
            e = E(bfdev_container_of(idx, bfdev_ilist_node_t, index_list));
            mc_assert(idx != start || i == 0, "key %d has no index entry", seq[i]->key);
            mc_assert(e->in && e->key == seq[i]->key, "the index entry for key %d is wrong", seq[i]->key);
            mc_assert(idx->next->prev == idx, "index links");
            idx = idx->next;
            h = mc_mix(h, e == seq[i]);
        }
        mc_assert(idx == start, "the index chain has surplus entries");
    }
    for (i = 0; i < n; ++i)
        h = mc_mix(h, seq[i]->key);
    for (i = 0; i < maxn; ++i)
        if (!ents[i].in) {
            mc_assert(bfdev_ilist_node_empty(&ents[i].ilist), "deleted node is still in the index chain");
            mc_assert(bfdev_list_check_empty(&ents[i].ilist.node_list), "deleted node is still in the node chain");
        }
    return h;
}

static void
s_ilist(void)
{
    int depth = mc_bound, i, j;
    uint64_t h;

    maxn = mc_arg & 15;
    nkeys = mc_arg >> 4;
    head = mc_malloc(sizeof(*head));
    ents = mc_zalloc(sizeof(*ents) * MAXN);
    for (i = 0; i < MAXN; ++i)
        bfdev_ilist_node_init(&ents[i].ilist);
    bfdev_ilist_head_init(head);
    n = 0;
    for (;;) {
        h = verify();
        h = mc_mix(h, mc_graph(head, sizeof(*head)));
        if (!mc_next(h, &depth))
            break;
        i = mc_choose(2 * n + (n < maxn));
        if (i < n) {
            struct ent *e = seq[i];
            mc_step("del position %d (key %d)", i, e->key);
            bfdev_ilist_del(head, &e->ilist);
            memmove(seq + i, seq + i + 1, (n - i - 1) * sizeof(*seq));
            n--;
            e->in = false;
        } else if (i < 2 * n) {
            mc_step("add position %d again (refused)", i - n);
            bfdev_ilist_add(head, &seq[i - n]->ilist, cmp, (void *)0x99);
        } else {
            struct ent *e;
            for (j = 0; ents[j].in; ++j);
            e = &ents[j];
            e->in = true;
            e->key = mc_choose(nkeys);
            mc_step("add key %d", e->key);
            bfdev_ilist_add(head, &e->ilist, cmp, (void *)0x99);
            for (j = n; j && seq[j - 1]->key > e->key; --j)
                seq[j] = seq[j - 1];
            seq[j] = e;
            n++;
        }
    }
    /* an unrelated order of deletion empties it */
    while (n) {
        int at = n / 2;
        struct ent *e = seq[at];
        bfdev_ilist_del(head, &e->ilist);
        memmove(seq + at, seq + at + 1, (n - at - 1) * sizeof(*seq));
        n--;
        e->in = false;
        verify();
    }
}

const mc_scenario_t mc_scenarios[] = {
    { "six-nodes-four-keys", s_ilist, { 60, 60 }, 6 + (4 << 4) },
    { "eight-nodes-two-keys", s_ilist, { 60, 60 }, 8 + (2 << 4) },
    { "seven-nodes-seven-keys", s_ilist, { 60, 60 }, 7 + (7 << 4) },
    { "memory-four-nodes", s_ilist, { 60, 60 }, 4 + (3 << 4), .graph = 1 },
    { "memory-five-nodes", s_ilist, { 60, 60 }, 5 + (2 << 4), .graph = 1 },
    { NULL }
};
