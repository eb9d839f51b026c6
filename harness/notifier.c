/*
 * Notifier chain: every register/unregister/publish history over N listeners,
 * every priority, every callback result.
 */
#include "mc.h"
#include <limits.h>
#include <bfdev/notifier.h>

#define MAXN 5
static const int prios[] = { INT_MIN, -1, 0, INT_MAX };
static bfdev_notifier_t *head;
struct lst {
    bfdev_notifier_node_t node;
    bool in;
    int id, called, ret;
} *ls;
static int n, maxn, calls, lastprio, lastret, stopped;
static int marker;

static bfdev_notifier_ret_t
entry(void *arg, void *pdata)
{
    struct lst *l = pdata;

    mc_assert(arg == &marker, "the event argument was lost");
    mc_assert(l >= ls && l < ls + MAXN && l->in, "a listener that is not registered was called");
    mc_assert(!l->called, "a listener was called twice");
    mc_assert(!stopped, "a listener was called after the stop");
    mc_assert(!calls || l->node.priority >= lastprio, "listeners called out of priority order");
    l->called = 1;
    calls++;
    lastprio = l->node.priority;
    l->ret = mc_choose(6);
    l->ret = l->ret < 4 ? l->ret : l->ret == 4 ? 8 : 9;
    mc_trace("  listener %d (priority %d) returns %#x", l->id, lastprio, l->ret);
    if (l->ret & BFDEV_NOTIFI_RET_STOP)
        stopped = 1;
    lastret = l->ret & ~BFDEV_NOTIFI_RET_REMOVE;
    return l->ret;
}

static void
publish(unsigned limit, bool count)
{
    unsigned num = 0, expect;
    int i, j, ret;

    calls = stopped = lastret = 0;
    for (i = 0; i < maxn; ++i)
        ls[i].called = 0;
    mc_step("publish limit %u", limit);
    ret = bfdev_notifier_call(head, &marker, limit, count ? &num : NULL);
    expect = limit < (unsigned)n ? limit : (unsigned)n;
    mc_assert(stopped || (unsigned)calls == expect, "%d listeners called, expected %u", calls, expect);
    mc_assert((unsigned)calls <= expect, "more listeners called than allowed");
    mc_assert(!count || num == (unsigned)calls, "reported %u calls, made %d", num, calls);
    mc_assert(ret == lastret, "returned %#x, the last listener %#x", ret, lastret);
    for (i = 0; i < maxn; ++i)
        for (j = 0; j < maxn; ++j)
            if (ls[i].in && ls[j].in && ls[i].called && !ls[j].called)
                mc_assert(ls[i].node.priority <= ls[j].node.priority, "a listener was skipped");
    for (i = 0; i < maxn; ++i)
        if (ls[i].called && (ls[i].ret & BFDEV_NOTIFI_RET_REMOVE)) {
            ls[i].in = false;
            n--;
        }
}

static void
s_notifier(void)
{
    int depth = mc_bound, i;
    uint64_t h;

    maxn = mc_arg;
    head = mc_malloc(sizeof(*head));
    ls = mc_zalloc(sizeof(*ls) * MAXN);
    bfdev_notifier_init(head);
    n = 0;
    for (;;) {
        bfdev_notifier_node_t *pos;
        int len = 0;
        h = 1;
        bfdev_ilist_for_each_entry(pos, &head->nodes, list) {
            struct lst *l = bfdev_container_of(pos, struct lst, node);
            mc_assert(len++ < n, "chain does not end");
            mc_assert(l->in, "removed listener still in the chain");
            h = mc_mix(h, l->id * 8 + (l->node.priority & 7) + (l->node.priority < 0 ? 1000 : 0));
            h = mc_mix(h, bfdev_list_check_empty(&pos->list.index_list));
        }
        mc_assert(len == n, "%d listeners in the chain, expected %d", len, n);
        h = mc_mix(h, mc_graph(head, sizeof(*head)));
        if (!mc_next(h, &depth))
            break;
        i = mc_choose(maxn + 2);
        if (i == maxn)
            publish(mc_choose(maxn + 2), true);
        else if (i == maxn + 1)
            publish(-1, false);
        else if (ls[i].in) {
            mc_step("unregister %d", i);
            bfdev_notifier_unregister(head, &ls[i].node);
            ls[i].in = false;
            n--;
        } else {
            int ret, p = mc_choose(MC_ARRAY_SIZE(prios) + 1);
            memset(&ls[i].node, 0x5a, sizeof(ls[i].node));
            ls[i].id = i;
            ls[i].node.pdata = &ls[i];
            ls[i].node.entry = p == MC_ARRAY_SIZE(prios) ? NULL : entry;
            ls[i].node.priority = prios[p % MC_ARRAY_SIZE(prios)];
            ret = bfdev_notifier_register(head, &ls[i].node);
            mc_step("register %d priority %d -> %d", i, ls[i].node.priority, ret);
            mc_assert(ret == (ls[i].node.entry ? 0 : -BFDEV_EINVAL), "register returned %d", ret);
            if (!ret) {
                ls[i].in = true;
                n++;
            }
        }
    }
    publish(-1, true);
}

const mc_scenario_t mc_scenarios[] = {
    { "three-listeners", s_notifier, { 60, 60 }, 3 },
    { "four-listeners", s_notifier, { 60, 60 }, 4 },
    { "memory-three-listeners", s_notifier, { 5, 60 }, 3, .graph = 1 },
    { NULL }
};
