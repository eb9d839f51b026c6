/*
 * Single linked and hash linked lists: all operation sequences over two lists
 * and N nodes up to closure; every traversal macro; safe ones with deletions.
 */
#include "mc.h"
#include <bfdev/slist.h>
#include <bfdev/hlist.h>

#define MAXN 6
struct ent {
    long pad[2];
    bfdev_slist_head_t node;
    bfdev_hlist_node_t hnode;
    int id;
};

typedef struct {
    int n, id[MAXN];
} seq_t;

static struct ent *ents;
static bfdev_slist_head_t *heads;
static bfdev_hlist_head_t *hheads;
static seq_t model[2];
static int nodes;

static int got[MAXN * 2 + 2], ngot;
#define SID(p) (bfdev_slist_entry(p, struct ent, node)->id)
#define HID(p) (bfdev_hlist_entry(p, struct ent, hnode)->id)
#define SEE(i) do {                                                 \
    mc_assert(ngot <= nodes, "traversal does not end");             \
    got[ngot++] = (i);                                              \
} while (0)

static void
expect(const char *what, const seq_t *s, int from)
{
    int i, n = 0;

    for (i = from; i < s->n; ++i, ++n)
        mc_assert(n < ngot && got[n] == s->id[i], "%s: visit %d is wrong", what, n);
    mc_assert(ngot == n, "%s visited %d nodes, expected %d", what, ngot, n);
}

#define WALK(id, s, from, macro, args...) do {      \
    ngot = 0;                                       \
    macro(args)                                     \
        SEE(id);                                    \
    expect(#macro, s, from);                        \
} while (0)

static bool
locate(int id, int *list, int *idx)
{
    for (*list = 0; *list < 2; ++*list) {
        for (*idx = 0; *idx < model[*list].n; ++*idx) {
            if (model[*list].id[*idx] == id)
                return true;
        }
    }
    return false;
}

static void
m_insert(int l, int idx, int id)
{
    seq_t *s = &model[l];
    memmove(s->id + idx + 1, s->id + idx, (s->n - idx) * sizeof(int));
    s->id[idx] = id;
    s->n++;
}

static void
m_remove(int l, int idx)
{
    seq_t *s = &model[l];
    s->n--;
    memmove(s->id + idx, s->id + idx + 1, (s->n - idx) * sizeof(int));
}

static int
choose_linked(int *l, int *idx)
{
    unsigned c = mc_choose(nodes);

    if (!locate(c, l, idx))
        mc_prune();
    return c;
}

static int
choose_free(void)
{
    int l, idx;
    unsigned c = mc_choose(nodes);

    if (locate(c, &l, &idx))
        mc_prune();
    return c;
}

static uint64_t
m_hash(void)
{
    uint64_t h = 0;
    int l, i;

    for (l = 0; l < 2; ++l) {
        h = mc_mix(h, model[l].n);
        for (i = 0; i < model[l].n; ++i)
            h = mc_mix(h, model[l].id[i]);
    }
    return h;
}

static void
setup(void)
{
    int i;

    nodes = mc_arg;
    memset(model, 0, sizeof(model));
    ents = mc_malloc(sizeof(*ents) * nodes);
    memset(ents, 0x5a, sizeof(*ents) * nodes);
    for (i = 0; i < nodes; ++i)
        ents[i].id = i;
    heads = mc_malloc(sizeof(*heads) * 2);
    hheads = mc_malloc(sizeof(*hheads) * 2);
}

/* choose list, start and the set of nodes to delete; returns the variant */
static unsigned
choose_safe(int *l, int *from, int *start, unsigned *mask)
{
    unsigned v = mc_choose(6), b;
    int kind = v % 3, ol, oi;

    *l = mc_choose(2);
    if (!model[*l].n)
        mc_prune();
    *start = -1;
    *from = 0;
    if (kind) {
        *start = choose_linked(&ol, from);
        if (ol != *l)
            mc_prune();
        if (kind == 2)
            ++*from;
    }
    *mask = mc_choose(1 << nodes);
    for (b = 0; b < nodes; ++b) {
        if ((*mask & (1u << b)) && !(locate(b, &ol, &oi) && ol == *l && oi >= *from))
            mc_prune();
    }
    mc_step("safe traversal %u of list %d from %d deleting mask %x", v, *l, *start, *mask);
    ngot = 0;
    return v;
}

static void
m_delete_mask(int l, unsigned mask)
{
    seq_t keep = model[l];
    int i;

    model[l].n = 0;
    for (i = 0; i < keep.n; ++i) {
        if (!(mask & (1 << keep.id[i])))
            model[l].id[model[l].n++] = keep.id[i];
    }
}

static void
s_verify(void)
{
    bfdev_slist_head_t *pos, *head;
    struct ent *ent;
    int l, i, last;
    seq_t *s;

    for (l = 0; l < 2; ++l) {
        head = &heads[l];
        s = &model[l];
        last = s->n - 1;
        WALK(SID(pos), s, 0, bfdev_slist_for_each, pos, head);
        WALK(ent->id, s, 0, bfdev_slist_for_each_entry, ent, head, node);
        mc_assert(bfdev_slist_check_empty(head) == !s->n, "check_empty");
        ent = bfdev_slist_first_entry(head, struct ent, node);
        mc_assert(s->n ? ent && ent->id == s->id[0] : !ent, "first_entry");
        for (i = 0; i < s->n; ++i) {
            struct ent *e = &ents[s->id[i]];
            mc_assert(bfdev_slist_check_first(head, &e->node) == (i == 0), "check_first");
            mc_assert(bfdev_slist_check_end(&e->node) == (i == last), "check_end");
            mc_assert(bfdev_slist_check_another(head, &e->node) == (s->n == 1), "check_another");
            ent = bfdev_slist_next_entry(e, node);
            mc_assert(i < last ? ent && ent->id == s->id[i + 1] : !ent, "next_entry");
            pos = &e->node; WALK(SID(pos), s, i, bfdev_slist_for_each_from, pos);
            pos = &e->node; WALK(SID(pos), s, i + 1, bfdev_slist_for_each_continue, pos);
            ent = e; WALK(ent->id, s, i, bfdev_slist_for_each_entry_from, ent, node);
            ent = e; WALK(ent->id, s, i + 1, bfdev_slist_for_each_entry_continue, ent, node);
        }
    }
}

#define SAFE(idx, delete, macro, args...)                           \
    macro(args) {                                                   \
        SEE(idx);                                                   \
        if (mask & (1u << (idx)))                                   \
            delete;                                                 \
    }                                                               \
    break

static void
s_safe(void)
{
    bfdev_slist_head_t *pos = NULL, *tmp;
    struct ent *ent = NULL, *etmp;
    int l, from, start;
    unsigned mask, v;

    v = choose_safe(&l, &from, &start, &mask);
    if (start >= 0) {
        pos = &ents[start].node;
        ent = &ents[start];
    }
    switch (v) {
        case 0: SAFE(SID(pos), bfdev_slist_del(&heads[l], pos), bfdev_slist_for_each_safe, pos, tmp, &heads[l]);
        case 1: SAFE(SID(pos), bfdev_slist_del(&heads[l], pos), bfdev_slist_for_each_from_safe, pos, tmp);
        case 2: SAFE(SID(pos), bfdev_slist_del(&heads[l], pos), bfdev_slist_for_each_continue_safe, pos, tmp);
        case 3: SAFE(ent->id, bfdev_slist_del(&heads[l], &ent->node), bfdev_slist_for_each_entry_safe, ent, etmp, &heads[l], node);
        case 4: SAFE(ent->id, bfdev_slist_del(&heads[l], &ent->node), bfdev_slist_for_each_entry_from_safe, ent, etmp, node);
        case 5: SAFE(ent->id, bfdev_slist_del(&heads[l], &ent->node), bfdev_slist_for_each_entry_continue_safe, ent, etmp, node);
    }
    expect("safe traversal", &model[l], from);
    m_delete_mask(l, mask);
}

static void
s_slist(void)
{
    bfdev_slist_head_t *place;
    int depth, l, idx, a, b;

    setup();
    bfdev_slist_head_init(&heads[0]);
    heads[1] = BFDEV_SLIST_HEAD_INIT();
    for (depth = mc_bound;;) {
        s_verify();
        if (!mc_next(mc_mix(m_hash(), mc_graph(heads, sizeof(*heads) * 2)), &depth))
            break;
        switch (mc_choose(4)) {
            case 0:
                b = mc_choose(nodes + 2);
                a = choose_free();
                if (b < 2)
                    l = b, idx = -1, place = &heads[b];
                else {
                    if (!locate(b - 2, &l, &idx))
                        mc_prune();
                    place = &ents[b - 2].node;
                }
                mc_step("add %d in list %d after index %d", a, l, idx);
                bfdev_slist_add(place, &ents[a].node);
                m_insert(l, idx + 1, a);
                break;
            case 1:
                a = choose_linked(&l, &idx);
                mc_step("del %d", a);
                bfdev_slist_del(&heads[l], &ents[a].node);
                mc_assert(ents[a].node.next == BFDEV_POISON_SLIST, "deleted node is not poisoned");
                m_remove(l, idx);
                break;
            case 2:
                a = choose_linked(&l, &idx);
                b = choose_free();
                mc_step("replace %d by %d", a, b);
                bfdev_slist_replace(&heads[l], &ents[a].node, &ents[b].node);
                model[l].id[idx] = b;
                break;
            case 3:
                s_safe();
                break;
        }
    }
}

static void
h_verify(void)
{
    bfdev_hlist_node_t *pos;
    bfdev_hlist_head_t *head;
    struct ent *ent;
    int l, i, last;
    seq_t *s;

    for (l = 0; l < 2; ++l) {
        head = &hheads[l];
        s = &model[l];
        last = s->n - 1;
        WALK(HID(pos), s, 0, bfdev_hlist_for_each, pos, head);
        WALK(ent->id, s, 0, bfdev_hlist_for_each_entry, ent, head, hnode);
        mc_assert(bfdev_hlist_check_empty(head) == !s->n, "check_empty");
        ent = bfdev_hlist_first_entry(head, struct ent, hnode);
        mc_assert(s->n ? ent && ent->id == s->id[0] : !ent, "first_entry");
        for (i = 0; i < s->n; ++i) {
            struct ent *e = &ents[s->id[i]];
            mc_assert(e->hnode.pprev == (i ? &ents[s->id[i - 1]].hnode.next : &head->node), "back link of %d", s->id[i]);
            mc_assert(bfdev_hlist_check_first(head, &e->hnode) == (i == 0), "check_first");
            mc_assert(bfdev_hlist_check_end(&e->hnode) == (i == last), "check_end");
            mc_assert(bfdev_hlist_check_another(head, &e->hnode) == (s->n == 1), "check_another");
            mc_assert(!bfdev_hlist_check_unhashed(&e->hnode), "check_unhashed");
            ent = bfdev_hlist_next_entry(e, hnode);
            mc_assert(i < last ? ent && ent->id == s->id[i + 1] : !ent, "next_entry");
            pos = &e->hnode; WALK(HID(pos), s, i, bfdev_hlist_for_each_from, pos);
            pos = &e->hnode; WALK(HID(pos), s, i + 1, bfdev_hlist_for_each_continue, pos);
            ent = e; WALK(ent->id, s, i, bfdev_hlist_for_each_entry_from, ent, hnode);
            ent = e; WALK(ent->id, s, i + 1, bfdev_hlist_for_each_entry_continue, ent, hnode);
        }
    }
}

static void
h_safe(void)
{
    bfdev_hlist_node_t *pos = NULL, *tmp;
    struct ent *ent = NULL, *etmp;
    int l, from, start;
    unsigned mask, v;

    v = choose_safe(&l, &from, &start, &mask);
    if (start >= 0) {
        pos = &ents[start].hnode;
        ent = &ents[start];
    }
    switch (v) {
        case 0: SAFE(HID(pos), bfdev_hlist_del(pos), bfdev_hlist_for_each_safe, pos, tmp, &hheads[l]);
        case 1: SAFE(HID(pos), bfdev_hlist_del(pos), bfdev_hlist_for_each_from_safe, pos, tmp);
        case 2: SAFE(HID(pos), bfdev_hlist_del(pos), bfdev_hlist_for_each_continue_safe, pos, tmp);
        case 3: SAFE(ent->id, bfdev_hlist_del(&ent->hnode), bfdev_hlist_for_each_entry_safe, ent, etmp, &hheads[l], hnode);
        case 4: SAFE(ent->id, bfdev_hlist_del(&ent->hnode), bfdev_hlist_for_each_entry_from_safe, ent, etmp, hnode);
        case 5: SAFE(ent->id, bfdev_hlist_del(&ent->hnode), bfdev_hlist_for_each_entry_continue_safe, ent, etmp, hnode);
    }
    expect("safe traversal", &model[l], from);
    m_delete_mask(l, mask);
}

static void
s_hlist(void)
{
    int depth, l, idx, a, b;

    setup();
    bfdev_hlist_head_init(&hheads[0]);
    hheads[1] = BFDEV_HLIST_HEAD_INIT();
    for (a = 0; a < nodes; ++a) {
        bfdev_hlist_node_init(&ents[a].hnode);
        mc_assert(bfdev_hlist_check_unhashed(&ents[a].hnode), "fresh node hashed");
    }
    for (depth = mc_bound;;) {
        h_verify();
        if (!mc_next(mc_mix(m_hash(), mc_graph(hheads, sizeof(*hheads) * 2)), &depth))
            break;
        switch (mc_choose(8)) {
            case 0:
                l = mc_choose(2);
                a = choose_free();
                mc_step("head_add %d to list %d", a, l);
                bfdev_hlist_head_add(&hheads[l], &ents[a].hnode);
                m_insert(l, 0, a);
                break;
            case 1:
                b = choose_linked(&l, &idx);
                a = choose_free();
                mc_step("next_add %d after %d", a, b);
                bfdev_hlist_next_add(&ents[b].hnode, &ents[a].hnode);
                m_insert(l, idx + 1, a);
                break;
            case 2:
                b = choose_linked(&l, &idx);
                a = choose_free();
                mc_step("prev_add %d before %d", a, b);
                bfdev_hlist_prev_add(&ents[b].hnode, &ents[a].hnode);
                m_insert(l, idx, a);
                break;
            case 3:
                a = choose_linked(&l, &idx);
                mc_step("del %d", a);
                bfdev_hlist_del(&ents[a].hnode);
                mc_assert(ents[a].hnode.next == BFDEV_POISON_HLIST1 && ents[a].hnode.pprev == BFDEV_POISON_HLIST2, "deleted node is not poisoned");
                m_remove(l, idx);
                break;
            case 4:
                a = choose_linked(&l, &idx);
                mc_step("del_init %d", a);
                bfdev_hlist_del_init(&ents[a].hnode);
                mc_assert(bfdev_hlist_check_unhashed(&ents[a].hnode), "del_init leaves the node hashed");
                m_remove(l, idx);
                break;
            case 5:
                a = choose_linked(&l, &idx);
                b = choose_free();
                mc_step("replace %d by %d", a, b);
                bfdev_hlist_replace(&ents[a].hnode, &ents[b].hnode);
                model[l].id[idx] = b;
                break;
            case 6:
                l = mc_choose(2);
                if (model[!l].n)
                    mc_prune();
                mc_step("head_replace list %d by list %d", l, !l);
                bfdev_hlist_head_replace(&hheads[l], &hheads[!l]);
                model[!l] = model[l];
                model[l].n = 0;
                break;
            case 7:
                h_safe();
                break;
        }
    }
}

const mc_scenario_t mc_scenarios[] = {
    { "slist-3-nodes", s_slist, { 30, 30 }, 3 },
    { "slist-5-nodes", s_slist, { 30, 30 }, 5 },
    { "hlist-3-nodes", s_hlist, { 30, 30 }, 3 },
    { "hlist-5-nodes", s_hlist, { 30, 30 }, 5 },
    { "memory-slist-3-nodes", s_slist, { 30, 30 }, 3, .graph = 1 },
    { "memory-hlist-3-nodes", s_hlist, { 30, 30 }, 3, .graph = 1 },
    { NULL }
};
