/*
 * Double linked list: all operation sequences over two lists and N nodes up to
 * closure of the arrangements; every traversal macro in every state; the safe
 * ones with every set of deletions.
 */
#include "mc.h"
#include <bfdev/list.h>

#define MAXN 6
struct ent {
    long pad[2];
    bfdev_list_head_t node;
    int id;
};

typedef struct {
    int n, id[MAXN];
} seq_t;

static struct ent *ents;
static bfdev_list_head_t *heads;
static seq_t model[2];
static int nodes;

static int got[MAXN * 2 + 2], ngot;
#define ID(p) (bfdev_list_entry(p, struct ent, node)->id)
#define SEE(i) do {                                                 \
    mc_assert(ngot <= nodes, "traversal does not end");             \
    got[ngot++] = (i);                                              \
} while (0)

static void
expect(const char *what, const seq_t *s, int from, int to)
{
    int i, n = 0;

    if (from <= to) {
        for (i = from; i <= to; ++i, ++n)
            mc_assert(n < ngot && got[n] == s->id[i], "%s: visit %d is wrong", what, n);
    }
    mc_assert(ngot == n, "%s visited %d nodes, expected %d", what, ngot, n);
}

static void
expect_rev(const char *what, const seq_t *s, int from, int to)
{
    int i, n = 0;

    for (i = from; i >= to; --i, ++n)
        mc_assert(n < ngot && got[n] == s->id[i], "%s: visit %d is wrong", what, n);
    mc_assert(ngot == n, "%s visited %d nodes, expected %d", what, ngot, n);
}

#define WALK(ex, s, from, to, macro, args...) do {  \
    ngot = 0;                                       \
    macro(args)                                     \
        SEE(ID(pos));                               \
    ex(#macro, s, from, to);                        \
} while (0)
#define WALKE(ex, s, from, to, macro, args...) do { \
    ngot = 0;                                       \
    macro(args)                                     \
        SEE(ent->id);                               \
    ex(#macro, s, from, to);                        \
} while (0)

static void
verify(void)
{
    bfdev_list_head_t *head, *pos, *tmp, *start;
    struct ent *ent, *etmp, *estart;
    int l, i, last;
    seq_t *s;

    for (l = 0; l < 2; ++l) {
        head = &heads[l];
        s = &model[l];
        last = s->n - 1;
        WALK(expect, s, 0, last, bfdev_list_for_each, pos, head);
        WALK(expect_rev, s, last, 0, bfdev_list_for_each_reverse, pos, head);
        WALKE(expect, s, 0, last, bfdev_list_for_each_entry, ent, head, node);
        WALKE(expect_rev, s, last, 0, bfdev_list_for_each_entry_reverse, ent, head, node);

        mc_assert(bfdev_list_check_empty(head) == !s->n, "check_empty");
        mc_assert(bfdev_list_check_head(head, head), "check_head");
        ent = bfdev_list_first_entry_or_null(head, struct ent, node);
        mc_assert(s->n ? ent && ent->id == s->id[0] : !ent, "first_entry_or_null");
        ent = bfdev_list_last_entry_or_null(head, struct ent, node);
        mc_assert(s->n ? ent && ent->id == s->id[last] : !ent, "last_entry_or_null");
        if (s->n) {
            mc_assert(bfdev_list_first_entry(head, struct ent, node)->id == s->id[0], "first_entry");
            mc_assert(bfdev_list_last_entry(head, struct ent, node)->id == s->id[last], "last_entry");
        }
        for (i = 0; i < s->n; ++i) {
            estart = &ents[s->id[i]];
            start = &estart->node;
            mc_assert(start->prev == (i ? &ents[s->id[i - 1]].node : head), "prev link of %d", s->id[i]);
            mc_assert(start->next == (i < last ? &ents[s->id[i + 1]].node : head), "next link of %d", s->id[i]);
            mc_assert(bfdev_list_check_first(head, start) == (i == 0), "check_first");
            mc_assert(bfdev_list_check_end(head, start) == (i == last), "check_end");
            mc_assert(bfdev_list_check_another(head, start) == (s->n == 1), "check_another");
            mc_assert(!bfdev_list_check_head(head, start), "check_head of a node");
            ent = bfdev_list_next_entry_or_null(estart, head, node);
            mc_assert(i < last ? ent && ent->id == s->id[i + 1] : !ent, "next_entry_or_null");
            ent = bfdev_list_prev_entry_or_null(estart, head, node);
            mc_assert(i ? ent && ent->id == s->id[i - 1] : !ent, "prev_entry_or_null");
            if (i < last)
                mc_assert(bfdev_list_next_entry(estart, node)->id == s->id[i + 1], "next_entry");
            if (i)
                mc_assert(bfdev_list_prev_entry(estart, node)->id == s->id[i - 1], "prev_entry");

            pos = start; WALK(expect, s, i, last, bfdev_list_for_each_from, pos, head);
            pos = start; WALK(expect_rev, s, i, 0, bfdev_list_for_each_reverse_from, pos, head);
            pos = start; WALK(expect, s, i + 1, last, bfdev_list_for_each_continue, pos, head);
            pos = start; WALK(expect_rev, s, i - 1, 0, bfdev_list_for_each_reverse_continue, pos, head);
            ent = estart; WALKE(expect, s, i, last, bfdev_list_for_each_entry_from, ent, head, node);
            ent = estart; WALKE(expect_rev, s, i, 0, bfdev_list_for_each_entry_reverse_from, ent, head, node);
            ent = estart; WALKE(expect, s, i + 1, last, bfdev_list_for_each_entry_continue, ent, head, node);
            ent = estart; WALKE(expect_rev, s, i - 1, 0, bfdev_list_for_each_entry_reverse_continue, ent, head, node);
        }
    }
    (void)tmp, (void)etmp;
}

static bool
locate(int id, int *list, int *idx)
{
    for (*list = 0; *list < 2; ++*list) {
        for (*idx = 0; *idx < model[*list].n; ++*idx) {
            if (model[*list].id[*idx] == id)
                return true;
        }
    }
    return false;
}

static void
m_insert(int l, int idx, int id)
{
    seq_t *s = &model[l];
    memmove(s->id + idx + 1, s->id + idx, (s->n - idx) * sizeof(int));
    s->id[idx] = id;
    s->n++;
}

static void
m_remove(int l, int idx)
{
    seq_t *s = &model[l];
    s->n--;
    memmove(s->id + idx, s->id + idx + 1, (s->n - idx) * sizeof(int));
}

/* any position: a head or a linked node; idx -1 for heads */
static bfdev_list_head_t *
choose_place(int *l, int *idx)
{
    unsigned c = mc_choose(nodes + 2);

    if (c < 2) {
        *l = c;
        *idx = -1;
        return &heads[c];
    }
    if (!locate(c - 2, l, idx))
        mc_prune();
    return &ents[c - 2].node;
}

static int
choose_linked(int *l, int *idx)
{
    unsigned c = mc_choose(nodes);

    if (!locate(c, l, idx))
        mc_prune();
    return c;
}

static int
choose_free(void)
{
    int l, idx;
    unsigned c = mc_choose(nodes);

    if (locate(c, &l, &idx))
        mc_prune();
    return c;
}

static const char *const place_names[] = { "head0", "head1", "0", "1", "2", "3", "4", "5" };
#define PN(l, i) (i < 0 ? place_names[l] : place_names[2 + model[l].id[i]])

#define SAFE(macro, args...)                                        \
    macro(args) {                                                   \
        SEE(ID(pos));                                               \
        if (mask & (1 << ID(pos)))                                  \
            bfdev_list_del(pos);                                    \
    }                                                               \
    break
#define SAFEE(macro, args...)                                       \
    macro(args) {                                                   \
        SEE(ent->id);                                               \
        if (mask & (1 << ent->id))                                  \
            bfdev_list_del(&ent->node);                             \
    }                                                               \
    break

static void
safe_walk(void)
{
    bfdev_list_head_t *head, *pos, *tmp;
    struct ent *ent, *etmp;
    int l, i, from, to, dir, kind, start;
    unsigned mask, v;
    seq_t *s, keep;

    v = mc_choose(12);
    l = mc_choose(2);
    s = &model[l];
    if (!s->n)
        mc_prune();
    head = &heads[l];
    kind = (v % 6) / 2;     /* 0 whole, 1 from, 2 continue */
    dir = v & 1;
    if (kind) {
        int ol;
        start = choose_linked(&ol, &i);
        if (ol != l)
            mc_prune();
    } else
        start = -1, i = 0;
    mask = mc_choose(1 << nodes);
    if (start >= 0) {
        pos = &ents[start].node;
        ent = &ents[start];
    }
    if (!dir) {
        from = kind == 0 ? 0 : kind == 1 ? i : i + 1;
        to = s->n - 1;
        for (unsigned b = 0; b < nodes; ++b) {
            int ol, oi;
            if ((mask & (1u << b)) && !(locate(b, &ol, &oi) && ol == l && oi >= from))
                mc_prune();
        }
    } else {
        from = kind == 0 ? s->n - 1 : kind == 1 ? i : i - 1;
        to = 0;
        for (unsigned b = 0; b < nodes; ++b) {
            int ol, oi;
            if ((mask & (1u << b)) && !(locate(b, &ol, &oi) && ol == l && oi <= from))
                mc_prune();
        }
    }
    mc_step("safe traversal %u of list %d from %d deleting mask %x", v, l, start, mask);
    ngot = 0;
    switch (v) {
        case 0: SAFE(bfdev_list_for_each_safe, pos, tmp, head);
        case 1: SAFE(bfdev_list_for_each_reverse_safe, pos, tmp, head);
        case 2: SAFE(bfdev_list_for_each_from_safe, pos, tmp, head);
        case 3: SAFE(bfdev_list_for_each_reverse_from_safe, pos, tmp, head);
        case 4: SAFE(bfdev_list_for_each_continue_safe, pos, tmp, head);
        case 5: SAFE(bfdev_list_for_each_reverse_continue_safe, pos, tmp, head);
        case 6: SAFEE(bfdev_list_for_each_entry_safe, ent, etmp, head, node);
        case 7: SAFEE(bfdev_list_for_each_entry_reverse_safe, ent, etmp, head, node);
        case 8: SAFEE(bfdev_list_for_each_entry_from_safe, ent, etmp, head, node);
        case 9: SAFEE(bfdev_list_for_each_entry_reverse_from_safe, ent, etmp, head, node);
        case 10: SAFEE(bfdev_list_for_each_entry_continue_safe, ent, etmp, head, node);
        case 11: SAFEE(bfdev_list_for_each_entry_reverse_continue_safe, ent, etmp, head, node);
    }
    if (!dir)
        expect("safe traversal", s, from, to);
    else
        expect_rev("safe reverse traversal", s, from, to);
    keep = *s;
    s->n = 0;
    for (i = 0; i < keep.n; ++i) {
        if (!(mask & (1 << keep.id[i])))
            s->id[s->n++] = keep.id[i];
    }
}

static void
s_list(void)
{
    bfdev_list_head_t *place;
    int depth, l, idx, l2, idx2, a, b, i;
    uint64_t h;

    nodes = mc_arg;
    memset(model, 0, sizeof(model));
    ents = mc_zalloc(sizeof(*ents) * nodes);
    heads = mc_zalloc(sizeof(*heads) * 2);
    for (i = 0; i < nodes; ++i)
        ents[i].id = i;
    bfdev_list_head_init(&heads[0]);
    heads[1] = BFDEV_LIST_HEAD_INIT(&heads[1]);

    for (depth = mc_bound;;) {
        verify();
        for (h = l = 0; l < 2; ++l) {
            h = mc_mix(h, model[l].n);
            for (i = 0; i < model[l].n; ++i)
                h = mc_mix(h, model[l].id[i]);
        }
        h = mc_mix(h, mc_graph(heads, sizeof(*heads) * 2));
        if (!mc_next(h, &depth))
            break;
        switch (mc_choose(9)) {
            case 0:
                place = choose_place(&l, &idx);
                a = choose_free();
                mc_step("add %d after %s", a, PN(l, idx));
                bfdev_list_add(place, &ents[a].node);
                m_insert(l, idx + 1, a);
                break;
            case 1:
                place = choose_place(&l, &idx);
                a = choose_free();
                mc_step("add %d before %s", a, PN(l, idx));
                bfdev_list_add_prev(place, &ents[a].node);
                m_insert(l, idx < 0 ? model[l].n : idx, a);
                break;
            case 2:
                a = choose_linked(&l, &idx);
                mc_step("del %d", a);
                bfdev_list_del(&ents[a].node);
                m_remove(l, idx);
                break;
            case 3:
                a = choose_linked(&l, &idx);
                mc_step("del_init %d", a);
                bfdev_list_del_init(&ents[a].node);
                mc_assert(bfdev_list_check_empty(&ents[a].node), "del_init leaves the node initialised");
                m_remove(l, idx);
                break;
            case 4: {
                unsigned init = mc_choose(2);
                a = choose_linked(&l, &idx);
                b = choose_free();
                mc_step("replace%s %d by %d", init ? "_init" : "", a, b);
                if (init) {
                    bfdev_list_replace_init(&ents[a].node, &ents[b].node);
                    mc_assert(bfdev_list_check_empty(&ents[a].node), "replace_init initialises the old node");
                } else
                    bfdev_list_replace(&ents[a].node, &ents[b].node);
                model[l].id[idx] = b;
                break;
            }
            case 5: {
                unsigned prev = mc_choose(2);
                a = choose_linked(&l, &idx);
                place = choose_place(&l2, &idx2);
                if (idx2 >= 0 && model[l2].id[idx2] == a)
                    mc_prune();
                mc_step("move %d %s %s", a, prev ? "before" : "after", PN(l2, idx2));
                b = idx2 < 0 ? -1 : model[l2].id[idx2];
                if (prev)
                    bfdev_list_move_prev(place, &ents[a].node);
                else
                    bfdev_list_move(place, &ents[a].node);
                m_remove(l, idx);
                if (b >= 0)
                    locate(b, &l2, &idx2);
                m_insert(l2, prev ? (idx2 < 0 ? model[l2].n : idx2) : idx2 + 1, a);
                break;
            }
            case 6:
                a = choose_linked(&l, &idx);
                b = choose_linked(&l2, &idx2);
                if (a == b)
                    mc_prune();
                mc_step("swap %d and %d", a, b);
                bfdev_list_swap(&ents[a].node, &ents[b].node);
                model[l].id[idx] = b;
                model[l2].id[idx2] = a;
                break;
            case 7: {
                unsigned op = mc_choose(4);
                place = choose_place(&l, &idx);
                l2 = !l;
                mc_step("splice%s%s list %d at %s", op & 1 ? "_prev" : "", op & 2 ? "_init" : "", l2, PN(l, idx));
                switch (op) {
                    case 0: bfdev_list_splice(place, &heads[l2]); break;
                    case 1: bfdev_list_splice_prev(place, &heads[l2]); break;
                    case 2: bfdev_list_splice_init(place, &heads[l2]); break;
                    case 3: bfdev_list_splice_tail_init(place, &heads[l2]); break;
                }
                if (op & 2)
                    mc_assert(bfdev_list_check_empty(&heads[l2]), "spliced list initialised");
                else
                    bfdev_list_head_init(&heads[l2]);
                i = op & 1 ? (idx < 0 ? model[l].n : idx) : idx + 1;
                while (model[l2].n) {
                    a = model[l2].id[0];
                    m_remove(l2, 0);
                    m_insert(l, i++, a);
                }
                break;
            }
            case 8:
                safe_walk();
                break;
        }
    }
}

const mc_scenario_t mc_scenarios[] = {
    { "list-3-nodes", s_list, { 30, 30 }, 3 },
    { "list-4-nodes", s_list, { 30, 30 }, 4 },
    { "list-5-nodes", s_list, { 40, 40 }, 5 },
    { "list-6-nodes", s_list, { -1, 40 }, 6 },
    { "memory-3-nodes", s_list, { 30, 30 }, 3, .graph = 1 },
    { NULL }
};
