/*
 * State machines: every table up to a size against every event (the search), and every
 * history of events where each transition, guard and action result is chosen afresh.
 * Callbacks log what they were called for; the specification is run over that log.
 */
#include "mc.h"
#include <limits.h>
#include <bfdev/fsm.h>

enum { A, B, C, P, Q, F, E, NSTATE };
static const char *const names[] = { "A", "B", "C", "P", "Q", "F", "E" };
enum kind { GUARD, EXCEPTION, EXIT, ACTION, ENTER };
static const char *const kinds[] = { "guard", "exception", "exit", "action", "enter" };

#define MAXTRANS 3
static bfdev_fsm_state_t st[NSTATE];
static bfdev_fsm_transition_t trans[NSTATE][MAXTRANS], extra[NSTATE];
static bfdev_fsm_t fsm;
static bfdev_fsm_event_t event;
static char sdata[NSTATE], tdata[NSTATE][MAXTRANS], xdata[NSTATE];

static struct { enum kind kind; const void *a, *b, *c; const bfdev_fsm_transition_t *tran; bfdev_fsm_transition_t copy; long ret; } logs[64];
static int nlog, rlog;
static bool lazy;           /* fill in transitions when they are looked at */
static int accepts, depth;  /* of this event; model stack depth */
static int maxdepth;

/* the model */
static int mcur, mprev, mstack[8];

static void put(enum kind k, const void *a, const void *b, const void *c, long ret, const bfdev_fsm_transition_t *tran)
{
    mc_assert(nlog < 64, "the machine does not stop calling back");
    logs[nlog].kind = k;
    logs[nlog].a = a;
    logs[nlog].b = b;
    logs[nlog].c = c;
    logs[nlog].tran = tran;
    if (tran)
        logs[nlog].copy = *tran;      /* a later callback may fill it in again */
    logs[nlog++].ret = ret;
}

/* nothing, an internal one, a self loop, a way into families, the end, the error state */
static void fill(bfdev_fsm_transition_t *t)
{
    static const int first[] = { -1, A, B, C, P, Q, F, E }, later[] = { -1, A, C, F };
    int k;

    if (!accepts) {
        k = first[mc_choose(8)];
        t->stack = mc_choose(maxdepth > depth ? 4 : 3);
        t->stack = t->stack == 2 ? -2 : t->stack == 1 ? -1 : t->stack == 3 ? 2 : 0;
        t->cross = mc_choose(2);
    } else {
        k = later[mc_choose(4)];
        t->stack = mc_choose(maxdepth - 1 > depth ? 3 : 2);
        t->stack = t->stack == 2 ? 1 : -t->stack;
        t->cross = false;
    }
    t->next = k < 0 ? NULL : &st[k];
    accepts++;
    mc_trace("  transition to %s, stack %d, cross %d", k < 0 ? "nothing" : names[k], t->stack, t->cross);
}

static long on_guard(bfdev_fsm_event_t *ev, const void *cond)
{
    bfdev_fsm_transition_t *t = (void *)cond;
    long ret;

    mc_assert(ev == &event, "guard called for another event");
    if (lazy)
        ret = accepts >= 2 ? 1 : mc_choose(2);
    else
        ret = mc_choose(3);
    ret = ret == 2 ? 1L << 40 : -ret;
    if (!ret && lazy)
        fill(t);
    mc_trace("  guard: %ld", ret);
    put(GUARD, cond, NULL, NULL, ret, t);
    return ret;
}

static bfdev_fsm_transition_t *on_exception(bfdev_fsm_event_t *ev, void *data)
{
    int i = (char *)data - sdata;
    bool take = lazy && accepts >= 2 ? 0 : mc_choose(2);

    mc_assert(ev == &event, "exception called for another event");
    if (take && lazy)
        fill(&extra[i]);
    mc_trace("  exception: %d", take);
    put(EXCEPTION, data, NULL, NULL, 0, take ? &extra[i] : NULL);
    return take ? &extra[i] : NULL;
}

static int result(void)
{
    return lazy && mc_choose(2) ? 7 - 12 * (int)mc_choose(2) : 0;
}

static int on_enter(bfdev_fsm_event_t *ev, void *data)
{
    int ret = result();

    mc_trace("  enter %s: %d", names[(char *)data - sdata], ret);
    mc_assert(ev == &event, "enter called for another event");
    put(ENTER, data, NULL, NULL, ret, NULL);
    return ret;
}

static int on_exit_(bfdev_fsm_event_t *ev, void *data)
{
    int ret = result();

    mc_trace("  exit %s: %d", names[(char *)data - sdata], ret);
    mc_assert(ev == &event, "exit called for another event");
    put(EXIT, data, NULL, NULL, ret, NULL);
    return ret;
}

static int on_action(bfdev_fsm_event_t *ev, void *data, void *curr, void *next)
{
    int ret = result();

    mc_trace("  action %s to %s: %d", names[(char *)curr - sdata], names[(char *)next - sdata], ret);
    mc_assert(ev == &event, "action called for another event");
    put(ACTION, data, curr, next, ret, NULL);
    return ret;
}

/* the specification's view of a callback: it must be the next one that was made */
static long call(enum kind k, const void *a, const void *b, const void *c, const bfdev_fsm_transition_t **tran)
{
    mc_assert(rlog < nlog, "%s was not called", kinds[k]);
    mc_assert(logs[rlog].kind == k, "%s was called in place of %s", kinds[logs[rlog].kind], kinds[k]);
    mc_assert(logs[rlog].a == a && logs[rlog].b == b && logs[rlog].c == c, "%s was called with other data", kinds[k]);
    if (tran)
        *tran = logs[rlog].tran ? &logs[rlog].copy : NULL;
    return logs[rlog++].ret;
}

static void mset(int s)
{
    mprev = mcur;
    mcur = s;
}

static int spec(void)
{
    const bfdev_fsm_transition_t *t;
    const bfdev_fsm_state_t *s, *cur, *next;
    unsigned i;
    int ret;

    if (mcur < 0)
        return -BFDEV_EINVAL;
again:
    cur = &st[mcur];
    for (t = NULL, s = cur; s; s = s->parent) {
        for (i = 0; i < s->tnum; i++)
            if (s->trans[i].type == event.type) {
                const bfdev_fsm_transition_t *as = &s->trans[i];

                if (s->trans[i].guard && call(GUARD, s->trans[i].cond, NULL, NULL, &as))
                    continue;
                t = as;
                break;
            }
        if (!t && s->exception)
            call(EXCEPTION, s->data, NULL, NULL, &t);
        if (t)
            break;
    }
    if (!t)
        return BFDEV_FSM_NOCHANGE;
    next = t->next;
    if (!next && t->stack < 0) {
        if (depth < -t->stack)
            return -BFDEV_EOVERFLOW;
        next = &st[mstack[depth + t->stack]];
    }
    if (!next) {
        ret = 0;
        if (fsm.error && fsm.error->enter)
            ret = call(ENTER, fsm.error->data, NULL, NULL, NULL);
        mset(fsm.error ? fsm.error - st : -1);
        return ret ?: -BFDEV_ENOENT;
    }
    while (next->entry)
        next = next->entry;
    if (t->stack > 0 && mc_faults)
        return -BFDEV_ENOMEM;
    if (cur != next && t->stack <= 0 && cur->exit)
        if ((ret = call(EXIT, cur->data, NULL, NULL, NULL)))
            return ret;
    if (t->action)
        if ((ret = call(ACTION, t->data, cur->data, next->data, NULL)))
            return ret;
    if (cur != next && t->stack >= 0 && next->enter)
        if ((ret = call(ENTER, next->data, NULL, NULL, NULL)))
            return ret;
    if (!t->next)
        depth += t->stack;
    mset(next - st);
    if (next == fsm.error)
        return -BFDEV_EFAULT;
    if (cur == next)
        return BFDEV_FSM_SELFLOOP;
    if (!next->tnum && !next->exception)
        return BFDEV_FSM_FINISH;
    if (t->stack > 0)
        mstack[depth++] = cur - st;
    if (t->cross)
        goto again;
    return BFDEV_FSM_CHANGED;
}

static void check(void)
{
    const bfdev_fsm_state_t **stack;
    bfdev_fsm_state_t *cur;
    int i;

    mc_assert(bfdev_fsm_curr(&fsm) == (mcur < 0 ? NULL : &st[mcur]), "the current state is %s, expected %s", bfdev_fsm_curr(&fsm) ? names[bfdev_fsm_curr(&fsm) - st] : "none", mcur < 0 ? "none" : names[mcur]);
    mc_assert(bfdev_fsm_prev(&fsm) == (mprev < 0 ? NULL : &st[mprev]), "the previous state is %s, expected %s", bfdev_fsm_prev(&fsm) ? names[bfdev_fsm_prev(&fsm) - st] : "none", mprev < 0 ? "none" : names[mprev]);
    if ((cur = bfdev_fsm_curr(&fsm)))
        mc_assert(bfdev_fsm_finished(&fsm) == (!cur->tnum && !cur->exception), "finished is %d in %s", bfdev_fsm_finished(&fsm), names[cur - st]);
    mc_assert(bfdev_array_index(&fsm.stack) == (unsigned)depth, "%lu states on the stack, expected %d", bfdev_array_index(&fsm.stack), depth);
    for (i = 0; i < depth; i++) {
        stack = bfdev_array_data(&fsm.stack, i);
        mc_assert(*stack == &st[mstack[i]], "place %d of the stack is wrong", i);
    }
}

static void handle(int type)
{
    int ret, want;

    event.type = type;
    event.pdata = &depth;
    nlog = rlog = accepts = 0;
    mc_faults = 0;
    mc_step("event %d in %s", type, mcur < 0 ? "none" : names[mcur]);
    ret = bfdev_fsm_handle(&fsm, &event);
    want = spec();
    mc_assert(rlog == nlog, "%s was called although it should not be", kinds[logs[rlog].kind]);
    mc_assert(ret == want, "handling returned %d, expected %d", ret, want);
    check();
}

static void setup(bool error)
{
    int i, k;

    memset(st, 0, sizeof(st));
    memset(trans, 0, sizeof(trans));
    memset(extra, 0, sizeof(extra));
    for (i = 0; i < NSTATE; i++) {
        st[i].data = &sdata[i];
        st[i].trans = trans[i];
        st[i].enter = on_enter;
        st[i].exit = on_exit_;
        extra[i].data = &xdata[i];
        extra[i].action = on_action;
        for (k = 0; k < MAXTRANS; k++) {
            trans[i][k].cond = &trans[i][k];
            trans[i][k].data = &tdata[i][k];
            trans[i][k].action = on_action;
        }
    }
    mcur = A;
    mprev = -1;
    depth = 0;
    bfdev_fsm_init(&fsm, &mc_alloc, &st[A], error ? &st[E] : NULL);
}

static void finish(void)
{
    bfdev_array_release(&fsm.stack);
    mc_no_leaks("the stack's release");
}

/* A with parent B with parent C: which transition is taken */
static void s_search(void)
{
    int i, k, n;
    uint64_t h = 0;

    lazy = false;
    setup(true);
    st[A].parent = &st[B];
    st[B].parent = &st[C];
    for (i = 0; i < 3; i++) {
        st[i].tnum = n = mc_choose(i < mc_bound ? 3 : 2);
        h = mc_mix(h, n);
        for (k = 0; k < n; k++) {
            trans[i][k].type = mc_choose(2);
            trans[i][k].guard = mc_choose(2) ? on_guard : NULL;
            trans[i][k].next = &st[F];
            h = mc_mix(h, trans[i][k].type * 2 + !!trans[i][k].guard);
        }
        k = mc_choose(2);
        h = mc_mix(h, k);
        st[i].exception = k ? on_exception : NULL;
        extra[i].next = &st[F];
    }
    handle(1);
    mc_case(mc_mix(h, nlog));
    finish();
}

/* every combination of absent callbacks and families around one transition */
static void s_shapes(void)
{
    int from = mc_choose(2), to = mc_choose(5), i;
    static const int target[] = { A, B, F, E, -1 };
    uint64_t h = mc_mix(from, to);

    lazy = false;
    setup(mc_choose(2));
    st[A].parent = from ? &st[P] : NULL;
    trans[from ? P : A][0].next = target[to] < 0 ? NULL : &st[target[to]];
    st[from ? P : A].tnum = 1;
    trans[from ? P : A][0].stack = mc_choose(3) - 1;
    trans[from ? P : A][0].cross = mc_choose(2);
    if (mc_choose(2))
        trans[from ? P : A][0].action = NULL;
    /* B is a family: up to two levels of entry states */
    i = mc_choose(3);
    if (i > 0)
        st[B].entry = &st[C];
    if (i > 1)
        st[C].entry = &st[A];
    st[B].tnum = mc_choose(2);
    trans[B][0].type = 9;
    st[C].exception = mc_choose(2) ? on_exception : NULL;
    for (i = 0; i < 3; i++) {
        static const int who[] = { A, C, E };

        if (mc_choose(2))
            st[who[i]].enter = NULL;
        if (mc_choose(2))
            st[who[i]].exit = NULL;
    }
    accepts = 0;
    extra[C].next = &st[F];
    if (trans[from ? P : A][0].cross && (trans[from ? P : A][0].next == &st[B]) && st[C].entry)
        mc_prune();     /* would loop for ever: the family leads back to the state crossed from */
    handle(0);
    mc_case(mc_mix(h, mc_mix(nlog, mcur)));
    handle(9);
    finish();
}

/* histories */
static void s_history(void)
{
    int left = mc_bound % 10, d;
    uint64_t h;

    lazy = true;
    maxdepth = mc_bound / 10;
    setup(mc_arg & 1);
    st[A].parent = st[B].parent = &st[P];
    st[P].entry = &st[A];
    st[P].parent = mc_arg & 2 ? &st[Q] : NULL;
    st[Q].entry = &st[P];
    st[A].tnum = st[C].tnum = st[P].tnum = 1;
    trans[A][0].guard = trans[C][0].guard = trans[P][0].guard = on_guard;
    st[B].exception = on_exception;
    if (mc_arg & 2)
        st[E].exception = on_exception;
    for (;;) {
        h = mc_mix(mcur + 1, mprev + 1);
        for (d = 0; d < depth; d++)
            h = mc_mix(h, mstack[d]);
        h = mc_mix(mc_mix(h, mc_live), mc_graph(&fsm, sizeof(fsm)));
        if (!mc_next(h, &left))
            break;
        switch (mc_choose(3)) {
        case 0:
            mc_fault_budget = mc_arg & 2 && !mc_live && !depth;
            handle(0);
            mc_fault_budget = 0;
            break;
        case 1:
            mc_step("reset to C");
            bfdev_fsm_reset(&fsm, &st[C]);
            mcur = C;
            mprev = -1;
            depth = 0;
            check();
            break;
        default:
            nlog = rlog = 0;
            mc_step("error");
            event.type = 3;
            {
                int ret = bfdev_fsm_error(&fsm, &event), want = 0;

                if (fsm.error)
                    want = call(ENTER, fsm.error->data, NULL, NULL, NULL);
                mset(fsm.error ? E : -1);
                mc_assert(ret == want && rlog == nlog, "error returned %d, expected %d", ret, want);
                check();
            }
        }
    }
    finish();
}

const mc_scenario_t mc_scenarios[] = {
    { "search in a family of three", s_search, { 2, 3 }, 0, 4 },
    { "shapes of one transition", s_shapes, { 1, 1 }, 0, 4 },
    { "histories with an error state", s_history, { 39, 59 }, 1 },
    { "histories without an error state", s_history, { 39, 49 }, 0 },
    { "histories of nested families", s_history, { 39, 49 }, 3 },
    { "memory of nested families", s_history, { 25, 39 }, 3, .graph = 1 },
    { NULL }
};
