/*
 * Atomic words and bits.  Sequential part: every operation on every pair of
 * boundary values, and the once guards under every sequence of conditions.
 * Concurrent part (ATOMIC_SCHED): every program of 2..3 threads under every
 * interleaving; results must fit some order of indivisible operations.
 */
#ifdef ATOMIC_SCHED
# include "mcsched.h"
# include "lin.h"
#else
# include "mc.h"
# include <sys/wait.h>
# include <unistd.h>
#endif
#include <bfdev/types.h>
#include <bfdev/atomic.h>
#include <bfdev/cmpxchg.h>
#include <bfdev/bitops.h>
#include <bfdev/once.h>

enum {
    READ, WRITE, ADD, SUB, AND, OR, XOR, FETCH_ADD, FETCH_SUB, FETCH_AND, FETCH_OR, FETCH_XOR,
    ADD_FETCH, SUB_FETCH, AND_FETCH, OR_FETCH, XOR_FETCH, XCHG, CMPXCHG, TRY, NWORD,
    BCLR = NWORD, BSET, BFLIP, BCHANGE0, BCHANGE1, BTEST, BTEST_CLR, BTEST_SET, BTEST_FLIP, BTEST_CHANGE0, BTEST_CHANGE1, NKIND,
    FINAL,      /* the contents of both words */
};
static const char *const names[] = {
    "read", "write", "add", "sub", "and", "or", "xor", "fetch_add", "fetch_sub", "fetch_and", "fetch_or", "fetch_xor",
    "add_fetch", "sub_fetch", "and_fetch", "or_fetch", "xor_fetch", "xchg", "cmpxchg", "try_cmpxchg",
    "bit clr", "bit set", "bit flip", "bit change 0", "bit change 1", "bit test", "bit test_clr", "bit test_set",
    "bit test_flip", "bit test_change 0", "bit test_change 1",
};

#define NOVALUE 0x5a5a5a5a5a5aL
struct op { int kind, bit, lin; bfdev_atomic_t arg, exp, ret, back; };
struct words { bfdev_atomic_t w[2]; };

static void run_op(struct words *s, struct op *o)
{
    bfdev_atomic_t *a = &s->w[0], v = o->arg;
    unsigned long *b = (unsigned long *)s->w;

    o->ret = NOVALUE;
    o->back = o->exp;
    switch (o->kind) {
    case READ: o->ret = bfdev_atomic_read(a); break;
    case WRITE: bfdev_atomic_write(a, v); break;
    case ADD: bfdev_atomic_add(a, v); break;
    case SUB: bfdev_atomic_sub(a, v); break;
    case AND: bfdev_atomic_and(a, v); break;
    case OR: bfdev_atomic_or(a, v); break;
    case XOR: bfdev_atomic_xor(a, v); break;
    case FETCH_ADD: o->ret = bfdev_atomic_fetch_add(a, v); break;
    case FETCH_SUB: o->ret = bfdev_atomic_fetch_sub(a, v); break;
    case FETCH_AND: o->ret = bfdev_atomic_fetch_and(a, v); break;
    case FETCH_OR: o->ret = bfdev_atomic_fetch_or(a, v); break;
    case FETCH_XOR: o->ret = bfdev_atomic_fetch_xor(a, v); break;
    case ADD_FETCH: o->ret = bfdev_atomic_add_fetch(a, v); break;
    case SUB_FETCH: o->ret = bfdev_atomic_sub_fetch(a, v); break;
    case AND_FETCH: o->ret = bfdev_atomic_and_fetch(a, v); break;
    case OR_FETCH: o->ret = bfdev_atomic_or_fetch(a, v); break;
    case XOR_FETCH: o->ret = bfdev_atomic_xor_fetch(a, v); break;
    case XCHG: o->ret = bfdev_xchg(a, v); break;
    case CMPXCHG: o->ret = bfdev_cmpxchg(a, o->exp, v); break;
    case TRY: o->ret = bfdev_try_cmpxchg(a, &o->back, v); break;
    case BCLR: bfdev_bit_atomic_clr(b, o->bit); break;
    case BSET: bfdev_bit_atomic_set(b, o->bit); break;
    case BFLIP: bfdev_bit_atomic_flip(b, o->bit); break;
    case BCHANGE0: bfdev_bit_atomic_change(b, o->bit, false); break;
    case BCHANGE1: bfdev_bit_atomic_change(b, o->bit, true); break;
    case BTEST: o->ret = bfdev_bit_atomic_test(b, o->bit); break;
    case BTEST_CLR: o->ret = bfdev_bit_atomic_test_clr(b, o->bit); break;
    case BTEST_SET: o->ret = bfdev_bit_atomic_test_set(b, o->bit); break;
    case BTEST_FLIP: o->ret = bfdev_bit_atomic_test_flip(b, o->bit); break;
    case BTEST_CHANGE0: o->ret = bfdev_bit_atomic_test_change(b, o->bit, false); break;
    case BTEST_CHANGE1: o->ret = bfdev_bit_atomic_test_change(b, o->bit, true); break;
    }
}

/* one indivisible step; false if the recorded result does not fit */
static bool model_op(const struct op *o, struct words *s)
{
    uintptr_t old = s->w[0], v = o->arg, new = old, ret = NOVALUE, back = o->exp;
    uintptr_t *bw = (uintptr_t *)&s->w[o->bit / 64], mask = (uintptr_t)1 << o->bit % 64, bold = *bw;

    if (o->kind == FINAL)
        return old == v && s->w[1] == o->exp;
    switch (o->kind) {
    case READ: ret = old; break;
    case WRITE: new = v; break;
    case ADD: new = old + v; break;
    case SUB: new = old - v; break;
    case AND: new = old & v; break;
    case OR: new = old | v; break;
    case XOR: new = old ^ v; break;
    case FETCH_ADD: new = old + v; ret = old; break;
    case FETCH_SUB: new = old - v; ret = old; break;
    case FETCH_AND: new = old & v; ret = old; break;
    case FETCH_OR: new = old | v; ret = old; break;
    case FETCH_XOR: new = old ^ v; ret = old; break;
    case ADD_FETCH: ret = new = old + v; break;
    case SUB_FETCH: ret = new = old - v; break;
    case AND_FETCH: ret = new = old & v; break;
    case OR_FETCH: ret = new = old | v; break;
    case XOR_FETCH: ret = new = old ^ v; break;
    case XCHG: ret = old; new = v; break;
    case CMPXCHG: ret = old; if (old == (uintptr_t)o->exp) new = v; break;
    case TRY:
        ret = old == (uintptr_t)o->exp;
        if (ret)
            new = v;
        else
            back = old;
        break;
    case BCLR: case BCHANGE0: *bw &= ~mask; break;
    case BSET: case BCHANGE1: *bw |= mask; break;
    case BFLIP: *bw ^= mask; break;
    case BTEST: ret = !!(bold & mask); break;
    case BTEST_CLR: case BTEST_CHANGE0: ret = !!(bold & mask); *bw &= ~mask; break;
    case BTEST_SET: case BTEST_CHANGE1: ret = !!(bold & mask); *bw |= mask; break;
    case BTEST_FLIP: ret = !!(bold & mask); *bw ^= mask; break;
    }
    if (o->kind < NWORD)
        s->w[0] = new;
    return (uintptr_t)o->ret == ret && (uintptr_t)o->back == back;
}

#ifndef ATOMIC_SCHED
static const bfdev_atomic_t values[] = { 0, 1, 2, -1, -2, INTPTR_MAX, INTPTR_MIN, INTPTR_MAX - 1, 0xffffffffL, 0x100000000L,
    0x80000000L, 0x7fffffffL, 0x5555555555555555L, 0xff00ff00ff00ffL };

static void s_values(void)
{
    struct words s, m;
    struct op o = { .kind = mc_choose(NKIND) };
    const int n = MC_ARRAY_SIZE(values);

    s.w[0] = values[mc_choose(n)];
    s.w[1] = values[mc_choose(n)];
    if (o.kind >= NWORD)
        o.bit = mc_choose(128);
    else if (o.kind != READ)
        o.arg = values[mc_choose(n)];
    if (o.kind == CMPXCHG || o.kind == TRY)
        o.exp = values[mc_choose(n)];
    m = s;
    mc_step("%s of %#lx with %#lx, expecting %#lx, bit %d", names[o.kind], s.w[0], o.arg, o.exp, o.bit);
    run_op(&s, &o);
    mc_assert(model_op(&o, &m), "%s returned %#lx (expected value becomes %#lx)", names[o.kind], o.ret, o.back);
    mc_assert(s.w[0] == m.w[0] && s.w[1] == m.w[1], "%s leaves %#lx %#lx, expected %#lx %#lx", names[o.kind], s.w[0], s.w[1], m.w[0], m.w[1]);
    mc_case(mc_mix_bytes(mc_mix_bytes(1, &o, sizeof(o)), &s, sizeof(s)));
}

/* the guards are static: a child process runs each sequence of conditions */
static unsigned calls[3], evaluated;
static void count(int k, int add) { calls[k] += add; }
static bool cond(unsigned bits, int i) { evaluated++; return bits >> i & 1; }

static int once_child(int kind, unsigned bits, int len)
{
    int i, first = -1;

    for (i = 0; i < len; i++) {
        bool want = bits >> i & 1, ret;

        if (first < 0 && (want || kind == 2))
            first = i;
        evaluated = 0;
        switch (kind) {
        case 0:
            ret = BFDEV_DO_ONCE_DONE(cond(bits, i));
            if (ret != (want && first == i))
                return 1;
            if (evaluated != 1)
                return 2;
            calls[0] += ret;
            break;
        case 1:
            ret = BFDEV_DO_ONCE_ON(cond(bits, i), count, 0, 1);
            if (ret != want)
                return 3;
            if (evaluated != 1)
                return 4;
            break;
        case 2:
            if (!BFDEV_DO_ONCE(count, 0, 1))
                return 5;
            break;
        case 3:
            /* two guards do not share their state */
            ret = BFDEV_DO_ONCE_ON(cond(bits, i), count, 0, 1);
            BFDEV_DO_ONCE_ON(i == len - 1, count, 1, 1);
            if (ret != want)
                return 6;
            if (calls[1] != (unsigned)(i == len - 1))
                return 7;
            break;
        }
        if (calls[0] != (first >= 0))
            return 8;
    }
    return 0;
}

static void s_once(void)
{
    int kind = mc_choose(4), len = 1 + mc_choose(mc_bound), st;
    unsigned bits = mc_choose(1 << len);
    pid_t pid;

    mc_step("guard kind %d, conditions %#x of %d", kind, bits, len);
    pid = fork();
    mc_assert(pid >= 0, "fork");
    if (!pid)
        _exit(once_child(kind, bits, len));
    mc_assert(waitpid(pid, &st, 0) == pid && WIFEXITED(st), "child");
    mc_assert(!WEXITSTATUS(st), "guarded code did not run exactly when it should (%d)", WEXITSTATUS(st));
    mc_case(mc_mix(mc_mix(kind, len), bits));
}

const mc_scenario_t mc_scenarios[] = {
    { "boundary-values", s_values, { 1, 1 }, 0, 2 },
    { "once", s_once, { 4, 6 }, 0, 1 },
    { NULL }
};
#else

static struct words sh;
static struct op ops[3][4], *by_lin[LIN_MAX];
static int nops[3], at[3], nthreads;
static uint64_t programs;

static void body(int self, void *arg)
{
    int i;

    for (i = 0; i < nops[self]; i++) {
        struct op *o = &ops[self][i];

        sched_pause();
        o->lin = lin_call(self);
        by_lin[o->lin] = o;
        at[self] = 2 * i + 1;
        sched_local(at[self]);
        sched_resume();
        run_op(&sh, o);
        sched_pause();
        lin_return(o->lin);
        at[self] = 2 * i + 2;
        sched_local(at[self]);
        sched_resume();
    }
}

static uint64_t monitor(void)
{
    uint64_t h = lin_hash(programs);
    int t, i;

    for (t = 0; t < nthreads; t++) {
        h = mc_mix(h, at[t]);
        for (i = 0; i < at[t] / 2; i++)
            h = mc_mix(mc_mix(mc_mix(h, ops[t][i].ret), ops[t][i].back), ops[t][i].lin);
    }
    return h;
}

static bool apply(int lin, void *model) { return model_op(by_lin[lin], model); }

static void describe(char *buff, size_t size)
{
    size_t n = 0;
    int t, i;

    for (t = 0; t < nthreads; t++)
        for (i = 0; i < nops[t] && n < size; i++) {
            struct op *o = &ops[t][i];

            n += snprintf(buff + n, size - n, " [%d: %s %s%ld -> %#lx]", t, names[o->kind], o->kind >= NWORD ? "bit " : "",
                o->kind >= NWORD ? o->bit : o->arg, o->ret == NOVALUE ? 0 : o->ret);
        }
}

struct choice { int kind, bit; bfdev_atomic_t arg, exp; };

static void go(int threads, int len, const struct choice *ch, int nch)
{
    static struct op final;
    static const struct words starts[] = { { { 1, 0 } }, { { -2, ~64L } }, { { 7, -1 } } };
    struct words model;
    char text[800] = "";
    int t, i, total = 0, last = 0, first = 0;

    memset(ops, 0, sizeof(ops));
    memset(nops, 0, sizeof(nops));
    memset(at, 0, sizeof(at));
    lin_reset();
    sched_reset();
    nthreads = threads;
    i = mc_choose(3);
    model = sh = starts[i];
    programs = mc_mix(5, i);
    mc_step("words %#lx %#lx", sh.w[0], sh.w[1]);
    for (t = 0; t < threads; t++) {
        for (i = 0; i < len; i++) {
            int c = total < mc_arg ? mc_choose(nch + (i > 0)) : nch;

            if (c == nch)
                break;
            if (i == 0) {
                if (t && c > first)
                    mc_prune();     /* threads are interchangeable */
                first = c;
            }
            ops[t][i].kind = ch[c].kind;
            ops[t][i].bit = ch[c].bit;
            /* distinct values tell the operations apart */
            ops[t][i].arg = ch[c].kind == WRITE || ch[c].kind == XCHG ? ch[c].arg + 16 * total : ch[c].arg;
            ops[t][i].exp = ch[c].exp;
            ops[t][i].ret = NOVALUE;
            nops[t]++;
            total++;
            if (ch[c].kind >= NWORD)
                mc_step("thread %d will %s (bit %d)", t, names[ch[c].kind], ch[c].bit);
            else
                mc_step("thread %d will %s %#lx (expecting %#lx)", t, names[ch[c].kind], ops[t][i].arg, ch[c].exp);
            programs = mc_mix(programs, c);
        }
        programs = mc_mix(programs, 99);
    }
    mc_case(programs);
    sched_shared(&sh, sizeof(sh), 8);
    for (t = 0; t < threads; t++)
        sched_thread(body, NULL);
    sched_run(monitor);
    describe(text, sizeof(text));
    final = (struct op){ .kind = FINAL, .arg = sh.w[0], .exp = sh.w[1] };
    final.lin = lin_call(3);
    by_lin[final.lin] = &final;
    lin_return(final.lin);
    mc_assert(lin_search(0, &model, sizeof(model), apply), "from %#lx %#lx:%s and %#lx %#lx at the end fit no order of indivisible operations", model.w[0], model.w[1], text, sh.w[0], sh.w[1]);
}

#define W(k, a) { k, 0, a, 0 }
#define B(k, b) { k, b, 0, 0 }
static const struct choice words[] = {
    W(READ, 0), W(WRITE, 5), W(ADD, 1), W(SUB, 3), W(AND, 6), W(OR, 8), W(XOR, 3), W(FETCH_ADD, 2), W(FETCH_SUB, 1), W(FETCH_AND, 5),
    W(FETCH_OR, 2), W(FETCH_XOR, 1), W(ADD_FETCH, 4), W(SUB_FETCH, 2), W(AND_FETCH, 3), W(OR_FETCH, 4), W(XOR_FETCH, 7), W(XCHG, 9),
    { CMPXCHG, 0, 11, 1 }, { CMPXCHG, 0, 1, 7 }, { TRY, 0, 13, 1 }, { TRY, 0, 1, 7 },
    B(BSET, 1), B(BCLR, 0), B(BFLIP, 1), B(BTEST, 2),
};
static const struct choice bits[] = {
    B(BCLR, 0), B(BSET, 0), B(BFLIP, 0), B(BCHANGE0, 1), B(BCHANGE1, 1), B(BTEST, 1), B(BTEST_CLR, 1), B(BTEST_SET, 1), B(BTEST_FLIP, 1),
    B(BTEST_CHANGE0, 0), B(BTEST_CHANGE1, 0), B(BTEST_SET, 63), B(BTEST_CLR, 63), B(BFLIP, 63), B(BTEST_SET, 70), B(BCLR, 70), W(ADD, 1), W(READ, 0), W(XOR_FETCH, 3),
};
static const struct choice three[] = {
    W(READ, 0), W(XCHG, 9), { CMPXCHG, 0, 11, 1 }, { TRY, 0, 13, 7 }, W(ADD_FETCH, 4), W(FETCH_SUB, 1), W(OR, 8), B(BTEST_SET, 1), B(BTEST_CLR, 1), B(BTEST_FLIP, 0),
};
static void s_words(void) { go(2, mc_bound, words, MC_ARRAY_SIZE(words)); }
static void s_bits(void) { go(2, mc_bound, bits, MC_ARRAY_SIZE(bits)); }
static void s_three(void) { go(3, mc_bound, three, MC_ARRAY_SIZE(three)); }

const mc_scenario_t mc_scenarios[] = {
    { "words", s_words, { 2, 3 }, 3, 3 },
    { "words-4", s_words, { -1, 2 }, 4, 3 },
    { "bits", s_bits, { 2, 3 }, 3, 3 },
    { "bits-4", s_bits, { -1, 2 }, 4, 3 },
    { "three-threads", s_three, { 2, 2 }, 4, 3 },
    { "three-threads-5", s_three, { -1, 2 }, 5, 3 },
    { NULL }
};
#endif
