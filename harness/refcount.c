/*
 * Reference counts.  Sequential part: every operation on every boundary
 * value, results and misuse reports.  Concurrent part (REFCNT_SCHED): every
 * program of 2..3 threads under every interleaving, results linearizable.
 */
#include <bfdev/refcount.h>
#include <stdint.h>
#ifdef REFCNT_SCHED
# include "mcsched.h"
# include "lin.h"
#else
# include "mc.h"
#endif

enum {
    GET, SET, ADD, INC, FETCH_INC, SUB, SUB_TEST, FETCH_SUB, DEC, DEC_TEST, FETCH_DEC, FETCH_DEC_TEST,
    ADDNZ, ADDNZ_TEST, FETCH_ADDNZ, INCNZ, INCNZ_TEST, FETCH_INCNZ, FETCH_INCNZ_TEST, NKIND,
};
static const char *const names[] = {
    "get", "set", "add", "inc", "fetch_inc", "sub", "sub_test", "fetch_sub", "dec", "dec_test", "fetch_dec", "fetch_dec_test",
    "addnz", "addnz_test", "fetch_addnz", "incnz", "incnz_test", "fetch_incnz", "fetch_incnz_test",
};

#define NOVALUE 0x5a5a5a5a5a5aL
struct op { int kind, test, lin; bfdev_atomic_t nr, old; };

static bool takes_nr(int kind)
{
    return kind == SET || kind == ADD || kind == SUB || kind == SUB_TEST || kind == FETCH_SUB ||
        kind == ADDNZ || kind == ADDNZ_TEST || kind == FETCH_ADDNZ;
}
static int class_of(int kind) { return kind < ADD ? 0 : kind < SUB ? 1 : kind < ADDNZ ? 2 : 3; }

/* what the operation reports: old value (if it does), test result (if it has one, else -1) */
static void run_op(bfdev_refcnt_t *r, struct op *o)
{
    o->old = NOVALUE;
    o->test = -1;
    switch (o->kind) {
    case GET: o->old = bfdev_refcnt_get(r); break;
    case SET: bfdev_refcnt_set(r, o->nr); break;
    case ADD: bfdev_refcnt_add(r, o->nr); break;
    case INC: bfdev_refcnt_inc(r); break;
    case FETCH_INC: bfdev_refcnt_fetch_inc(r, &o->old); break;
    case SUB: bfdev_refcnt_sub(r, o->nr); break;
    case SUB_TEST: o->test = bfdev_refcnt_sub_test(r, o->nr); break;
    case FETCH_SUB: bfdev_refcnt_fetch_sub(r, o->nr, &o->old); break;
    case DEC: bfdev_refcnt_dec(r); break;
    case DEC_TEST: o->test = bfdev_refcnt_dec_test(r); break;
    case FETCH_DEC: bfdev_refcnt_fetch_dec(r, &o->old); break;
    case FETCH_DEC_TEST: o->test = bfdev_refcnt_fetch_dec_test(r, &o->old); break;
    case ADDNZ: bfdev_refcnt_addnz(r, o->nr); break;
    case ADDNZ_TEST: o->test = bfdev_refcnt_addnz_test(r, o->nr); break;
    case FETCH_ADDNZ: bfdev_refcnt_fetch_addnz(r, o->nr, &o->old); break;
    case INCNZ: bfdev_refcnt_incnz(r); break;
    case INCNZ_TEST: o->test = bfdev_refcnt_incnz_test(r); break;
    case FETCH_INCNZ: bfdev_refcnt_fetch_incnz(r, &o->old); break;
    case FETCH_INCNZ_TEST: o->test = bfdev_refcnt_fetch_incnz_test(r, &o->old); break;
    }
}

/* the model: false if the recorded results do not fit */
static bool model_op(const struct op *o, bfdev_atomic_t *value)
{
    bfdev_atomic_t prev = *value, nr = takes_nr(o->kind) ? o->nr : 1;
    bool test = false;

    switch (class_of(o->kind)) {
    case 0:
        if (o->kind == SET)
            *value = nr;
        break;
    case 1:
        *value = (uintptr_t)prev + nr;
        break;
    case 2:
        *value = (uintptr_t)prev - nr;
        test = prev == nr;
        break;
    case 3:
        if (prev)
            *value = (uintptr_t)prev + nr;
        test = !prev;
        break;
    }
    return (o->old == NOVALUE || o->old == prev) && (o->test < 0 || o->test == test);
}

#ifndef REFCNT_SCHED
#ifdef BFDEV_DEBUG_REFCNT
static int reports, report_type;
void bfdev_refcnt_report(bfdev_refcnt_t *ref, bfdev_refcnt_saturation_t type)
{
    reports++;
    report_type = type;
}
#endif

static void s_values(void)
{
    static const bfdev_atomic_t values[] = { 0, 1, 2, 3, 7, INTPTR_MAX - 1, INTPTR_MAX, -1, -2, INTPTR_MIN, INTPTR_MIN + 1,
        0xffffffffL, 0x100000000L, 0x80000000L };
    bfdev_refcnt_t r = BFDEV_REFCNT_INIT;
    bfdev_atomic_t start, model;
    struct op o;
    __int128 exact;
    int want = -1;

    mc_assert(bfdev_refcnt_get(&r) == 1, "a new count is %ld", bfdev_refcnt_get(&r));
    model = start = values[mc_choose(MC_ARRAY_SIZE(values))];
    o.kind = mc_choose(NKIND);
    o.nr = 1;
    if (o.kind == SET)
        o.nr = values[mc_choose(MC_ARRAY_SIZE(values))];
    else if (takes_nr(o.kind)) {
        o.nr = values[mc_choose(MC_ARRAY_SIZE(values))];
        if (o.nr <= 0)
            mc_prune();
    }
    mc_step("count %ld: %s %ld", start, names[o.kind], o.nr);
    bfdev_refcnt_set(&r, start);
#ifdef BFDEV_DEBUG_REFCNT
    reports = 0;
#endif
    run_op(&r, &o);
    mc_assert(model_op(&o, &model), "reports previous value %ld, test %d for a count of %ld", o.old, o.test, start);
    mc_assert(bfdev_refcnt_get(&r) == model, "the count is %ld, expected %ld", bfdev_refcnt_get(&r), model);
    exact = class_of(o.kind) == 2 ? (__int128)start - o.nr : (__int128)start + o.nr;
#ifdef BFDEV_DEBUG_REFCNT
    switch (class_of(o.kind)) {
    case 1:
        want = !start ? BFDEV_REFCNT_ADD_UAF : start < 0 ? BFDEV_REFCNT_ADD_LEAK : exact > INTPTR_MAX ? BFDEV_REFCNT_ADD_OVF : -1;
        break;
    case 2:
        want = start == o.nr ? -1 : !start ? BFDEV_REFCNT_SUB_UAF : start < 0 ? BFDEV_REFCNT_SUB_LEAK : exact < 0 ? BFDEV_REFCNT_SUB_OVF : -1;
        break;
    case 3:
        want = !start ? -1 : start < 0 ? BFDEV_REFCNT_ADDNZ_LEAK : exact > INTPTR_MAX ? BFDEV_REFCNT_ADDNZ_OVF : -1;
        break;
    }
    mc_assert(reports == (want >= 0), "%d misuse reports, expected %d", reports, want >= 0);
    if (want >= 0)
        mc_assert(report_type == want, "misuse reported as %d, expected %d", report_type, want);
#endif
    mc_case(mc_mix(mc_mix(mc_mix(3, start), o.kind), o.nr));
}

const mc_scenario_t mc_scenarios[] = {
    { "boundary-values", s_values, { 1, 1 }, 0, 1 },
    { NULL }
};
#else

#ifdef BFDEV_DEBUG_REFCNT
void bfdev_refcnt_report(bfdev_refcnt_t *ref, bfdev_refcnt_saturation_t type) { }
#endif

static bfdev_refcnt_t ref;
static struct op ops[3][4], *by_lin[LIN_MAX];
static int nops[3], at[3], nthreads;
static uint64_t programs;

static void body(int self, void *arg)
{
    int i;

    for (i = 0; i < nops[self]; i++) {
        struct op *o = &ops[self][i];

        sched_pause();
        o->lin = lin_call(self);
        by_lin[o->lin] = o;
        at[self] = 2 * i + 1;
        sched_local(at[self]);
        sched_resume();
        run_op(&ref, o);
        sched_pause();
        lin_return(o->lin);
        at[self] = 2 * i + 2;
        sched_local(at[self]);
        sched_resume();
    }
}

static uint64_t monitor(void)
{
    uint64_t h = lin_hash(programs);
    int t, i;

    for (t = 0; t < nthreads; t++) {
        h = mc_mix(h, at[t]);
        for (i = 0; i < (at[t] + 1) / 2; i++)
            h = mc_mix(mc_mix(mc_mix(h, ops[t][i].old), ops[t][i].test), ops[t][i].lin);
    }
    return h;
}

static bool apply(int lin, void *model) { return model_op(by_lin[lin], model); }

static void describe(char *buff, size_t size)
{
    size_t n = 0;
    int t, i;

    for (t = 0; t < nthreads; t++)
        for (i = 0; i < nops[t] && n < size; i++) {
            struct op *o = &ops[t][i];

            n += snprintf(buff + n, size - n, " [%d: %s", t, names[o->kind]);
            if (takes_nr(o->kind))
                n += snprintf(buff + n, size - n, " %ld", o->nr);
            if (o->old != NOVALUE && n < size)
                n += snprintf(buff + n, size - n, " from %ld", o->old);
            if (o->test >= 0 && n < size)
                n += snprintf(buff + n, size - n, " -> %d", o->test);
            n += snprintf(buff + n, n < size ? size - n : 0, "]");
        }
}

static void go(int threads, int len, const int *kinds, int nkind)
{
    static struct op final;
    bfdev_atomic_t start, model;
    char text[600] = "";
    int t, i, total = 0;

    memset(ops, 0, sizeof(ops));
    memset(nops, 0, sizeof(nops));
    memset(at, 0, sizeof(at));
    lin_reset();
    sched_reset();
    nthreads = threads;
    model = start = mc_choose(4);
    programs = mc_mix(5, start);
    mc_step("count %ld", start);
    for (t = 0; t < threads; t++) {
        for (i = 0; i < len; i++) {
            int c = total < mc_arg ? mc_choose(nkind + (i > 0)) : nkind;

            if (c == nkind)
                break;
            ops[t][i].kind = kinds[c];
            ops[t][i].old = NOVALUE;
            ops[t][i].test = -1;
            /* two at once, or a store of one */
            ops[t][i].nr = kinds[c] == SET ? 1 : 2;
            nops[t]++;
            total++;
            mc_step("thread %d will %s%s", t, names[kinds[c]], takes_nr(kinds[c]) ? kinds[c] == SET ? " 1" : " 2" : "");
            programs = mc_mix(programs, kinds[c]);
        }
        if (t && nops[t] && ops[t][0].kind > ops[t - 1][0].kind)
            mc_prune();
        programs = mc_mix(programs, 99);
    }
    mc_case(programs);
    ref.count = start;
    sched_shared(&ref, sizeof(ref), 8);
    for (t = 0; t < threads; t++)
        sched_thread(body, NULL);
    sched_run(monitor);
    final.kind = GET;
    final.lin = lin_call(3);
    by_lin[final.lin] = &final;
    run_op(&ref, &final);
    lin_return(final.lin);
    describe(text, sizeof(text));
    mc_assert(lin_search(0, &model, sizeof(model), apply), "from %ld:%s and %ld at the end fit no order of the operations", start, text, final.old);
}

static const int two[] = { GET, FETCH_INC, SUB_TEST, FETCH_SUB, DEC_TEST, FETCH_DEC_TEST, ADDNZ_TEST, FETCH_ADDNZ, FETCH_INCNZ_TEST, SET };
static const int three[] = { FETCH_INC, DEC_TEST, FETCH_DEC_TEST, FETCH_INCNZ_TEST, ADDNZ_TEST };
static void s_two(void) { go(2, mc_bound, two, 10); }
static void s_three(void) { go(3, mc_bound, three, 5); }

/*
 * The protocol: an owner drops its references, others try to get one from a
 * pointer they only look at.  Exactly one drop frees; nobody uses it afterwards.
 */
static int freed, users;
static void user(int self, void *arg)
{
    int i, owner = (long)arg & 3, tries = (long)arg >> 2;

    for (i = 0; i < owner + tries; i++) {
        bool got = i < owner;

        sched_pause();
        at[self] = 2 * i + 1;
        sched_local(at[self]);
        sched_resume();
        if (i >= owner) {
            got = !bfdev_refcnt_incnz_test(&ref);
            sched_pause();
            if (got) {
                mc_assert(!freed, "a reference on the freed object was handed out");
                users++;
            }
            at[self] = 2 * i + 2;
            sched_local(at[self] * 2 + got);
            sched_resume();
        }
        if (got) {
            sched_pause();
            mc_assert(!freed, "the object was freed while somebody held it");
            sched_resume();
            if (bfdev_refcnt_dec_test(&ref)) {
                sched_pause();
                mc_assert(!freed, "two drops report the release");
                freed = 1;
                sched_resume();
            }
        }
    }
    at[self] = 99;
}

static uint64_t life_monitor(void)
{
    return mc_mix(mc_mix(mc_mix(mc_mix(mc_mix(programs, freed), users), at[0]), at[1]), at[2]);
}

static void s_life(void)
{
    int t, refs = 0, total = 0;

    sched_reset();
    freed = users = 0;
    memset(at, 0, sizeof(at));
    programs = 9;
    for (t = 0; t < 3; t++) {
        int owner = mc_choose(3), tries = mc_choose(mc_bound + 1);

        refs += owner;
        total += owner + tries;
        mc_step("thread %d drops %d references, tries to get one %d times", t, owner, tries);
        programs = mc_mix(programs, owner * 10 + tries);
        sched_thread(user, (void *)(long)(owner | tries << 2));
    }
    if (!refs || total > mc_arg)
        mc_prune();
    mc_case(programs);
    ref.count = refs;
    sched_shared(&ref, sizeof(ref), 8);
    sched_run(life_monitor);
    mc_assert(freed, "all references are dropped, nobody was told to free");
    mc_assert(bfdev_refcnt_get(&ref) == 0, "the count ends at %ld", bfdev_refcnt_get(&ref));
}

const mc_scenario_t mc_scenarios[] = {
    { "two-threads", s_two, { 2, 3 }, 4, 3 },
    { "two-threads-long", s_two, { -1, 3 }, 5, 3 },
    { "three-threads", s_three, { 2, 3 }, 5, 3 },
    { "life-time", s_life, { 2, 2 }, 6, 3 },
    { "life-time-long", s_life, { -1, 2 }, 12, 3 },
    { NULL }
};
#endif
