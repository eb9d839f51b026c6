/*
 * Lock free list: every program of up to three threads out of {add one, add a
 * batch of two, take one, take all} under every interleaving of its shared
 * accesses; results must be linearizable to a stack, nodes are conserved.
 */
#include "mcsched.h"
#include "lin.h"
#include <bfdev/llist.h>

#define MAXNODE 12
enum { ADD, BATCH, DEL, TAKE, NOP, NKIND };
static const char *const names[] = { "add", "add two", "take one", "take all", "nothing" };

static struct shared {
    bfdev_slist_head_t head;
    bfdev_slist_head_t node[MAXNODE];
} sh;

static struct op {
    int kind, first, count;     /* what it adds */
    bool empty;                 /* what an addition reported */
    int n, got[MAXNODE];        /* what a deletion got */
    int lin;
} ops[3][3];
static int nops[3], at[3], used;
static struct op *by_lin[LIN_MAX];

static int id_of(bfdev_slist_head_t *n)
{
    mc_assert(n >= sh.node && n < sh.node + MAXNODE && n == &sh.node[n - sh.node], "got a pointer that is no node");
    return n - sh.node;
}

static void body(int self, void *arg)
{
    bfdev_slist_head_t *n, *next;
    int i;

    for (i = 0; i < nops[self]; i++) {
        struct op *o = &ops[self][i];
        int guard = 0;

        if (o->kind == NOP)
            continue;
        sched_pause();
        o->lin = lin_call(self);
        by_lin[o->lin] = o;
        at[self] = 2 * i + 1;
        sched_local(at[self]);
        sched_resume();
        switch (o->kind) {
        case ADD:
            o->empty = bfdev_llist_add(&sh.head, &sh.node[o->first]);
            break;
        case BATCH:
            o->empty = bfdev_llist_split(&sh.head, &sh.node[o->first], &sh.node[o->first + 1]);
            break;
        case DEL:
            n = bfdev_llist_del(&sh.head);
            if (n)
                o->got[o->n++] = id_of(n);
            break;
        case TAKE:
            /* the taken chain is the caller's: nobody may touch it any more */
            for (n = bfdev_llist_destroy(&sh.head); n; n = next) {
                mc_assert(++guard <= MAXNODE, "the taken chain does not end");
                o->got[o->n++] = id_of(n);
                next = BFDEV_READ_ONCE(n->next);
            }
            break;
        }
        sched_pause();
        lin_return(o->lin);
        at[self] = 2 * i + 2;
        sched_local(at[self]);
        sched_resume();
    }
}

static uint64_t monitor(void)
{
    uint64_t h = lin_hash(1);
    int t, i, k;

    for (t = 0; t < 3; t++) {
        h = mc_mix(h, at[t]);
        for (i = 0; i < nops[t]; i++) {
            struct op *o = &ops[t][i];

            h = mc_mix(h, o->lin * 8 + o->empty + o->kind * 100);
            for (k = 0; k < o->n; k++)
                h = mc_mix(h, o->got[k] + 77);
        }
    }
    return h;
}

struct model { int n, id[MAXNODE]; };

static bool apply(int lin, void *model)
{
    struct model *m = model;
    struct op *o = by_lin[lin];
    int i;

    switch (o->kind) {
    case ADD: case BATCH:
        if (o->empty != !m->n)
            return false;
        for (i = o->count; i--; )
            m->id[m->n++] = o->first + i;
        return true;
    case DEL:
        if (!m->n)
            return !o->n;
        return o->n == 1 && o->got[0] == m->id[--m->n];
    case TAKE:
        if (o->n != m->n)
            return false;
        for (i = 0; i < o->n; i++)
            if (o->got[i] != m->id[m->n - 1 - i])
                return false;
        m->n = 0;
        return true;
    }
    return false;
}

static void describe(char *buff, size_t size)
{
    size_t at = 0;
    int t, i, k;

    for (t = 0; t < 3; t++)
        for (i = 0; i < nops[t] && at < size; i++) {
            struct op *o = &ops[t][i];

            at += snprintf(buff + at, size - at, " [%d: %s", t, names[o->kind]);
            if (o->count)
                at += snprintf(buff + at, size - at, " %d -> %s", o->first, o->empty ? "was empty" : "was not empty");
            for (k = 0; k < o->n; k++)
                at += snprintf(buff + at, size - at, " %d", o->got[k]);
            at += snprintf(buff + at, size - at, "]");
        }
}

static void scenario(int nthread, int len)
{
    struct model m = { 0 };
    static struct op final;
    bfdev_slist_head_t *n, *next;
    unsigned pre = mc_choose(3), t, i, seen = 0;
    int total = 0;     /* operations of all threads together, at most mc_arg */
    char text[512] = "";

    memset(&sh, 0, sizeof(sh));
    memset(ops, 0, sizeof(ops));
    memset(nops, 0, sizeof(nops));
    memset(at, 0, sizeof(at));
    lin_reset();
    sched_reset();
    used = 0;
    for (t = 0; t < (unsigned)nthread; t++) {
        unsigned last = NKIND;

        nops[t] = len;
        for (i = 0; i < (unsigned)len; i++) {
            struct op *o = &ops[t][i];

            /* shorter programs end in NOPs */
            o->kind = last == NOP || total == mc_arg ? NOP : (int)mc_choose(NKIND);
            last = o->kind;
            total += o->kind != NOP;
            o->count = o->kind == ADD ? 1 : o->kind == BATCH ? 2 : 0;
            o->first = used;
            used += o->count;
            mc_step("thread %d will %s", t, names[o->kind]);
        }
        if (t && nops[t] && ops[t][0].kind > ops[t - 1][0].kind)
            mc_prune();     /* threads are interchangeable */
    }
    if (used + pre > MAXNODE)
        mc_prune();
    for (i = 0; i < (unsigned)used; i++)
        sh.node[i].next = i + 1 < (unsigned)used ? &sh.node[i + 1] : NULL;
    for (i = 0; i < pre; i++) {
        bfdev_llist_add(&sh.head, &sh.node[used + i]);
        m.id[m.n++] = used + i;
    }
    mc_case(monitor() * 4 + pre);
    sched_shared(&sh, sizeof(sh), 8);
    for (t = 0; t < (unsigned)nthread; t++)
        sched_thread(body, NULL);
    sched_run(monitor);

    /* what is left, as a last operation */
    memset(&final, 0, sizeof(final));
    final.kind = TAKE;
    final.lin = lin_call(3);
    by_lin[final.lin] = &final;
    for (n = bfdev_llist_destroy(&sh.head); n; n = next) {
        mc_assert(final.n < MAXNODE, "the remaining chain does not end");
        final.got[final.n++] = id_of(n);
        next = n->next;
    }
    lin_return(final.lin);
    describe(text, sizeof(text));
    for (i = 0; i < (unsigned)final.n; i++) {
        mc_assert(!(seen >> final.got[i] & 1), "node %d is in the list twice:%s", final.got[i], text);
        seen |= 1u << final.got[i];
    }
    for (t = 0; t < (unsigned)nthread; t++)
        for (i = 0; i < (unsigned)nops[t]; i++) {
            int k;

            for (k = 0; k < ops[t][i].n; k++) {
                mc_assert(!(seen >> ops[t][i].got[k] & 1), "node %d was handed out twice:%s", ops[t][i].got[k], text);
                seen |= 1u << ops[t][i].got[k];
            }
        }
    mc_assert(seen == (1u << (used + pre)) - 1, "a node was lost (found 0x%x of %d):%s", seen, used + pre, text);
    mc_assert(lin_search(0, &m, sizeof(m), apply), "results fit no order of the operations:%s", text);
}

static void s_two(void) { scenario(2, mc_bound); }
static void s_three(void) { scenario(3, mc_bound); }

const mc_scenario_t mc_scenarios[] = {
    { "two-threads", s_two, { 2, 3 }, 9, 3 },
    { "three-threads", s_three, { 2, 2 }, 4, 3 },
    { "three-threads-5", s_three, { -1, 2 }, 5, 3 },
    { NULL }
};
