/*
 * Bit search: every size up to two words and two bits at run time, selected
 * compile time sizes, every start position, all sets of up to three boundary
 * positions and their complements, with garbage behind the last bit; the
 * complex functions also for byte swapped words; the walks.
 */
#include "mc.h"
#include <bfdev/bitwalk.h>
#include <bfdev/swab.h>

#define MAXN 131
#define WORDS(n) ((n) ? ((n) + 63) / 64 : 1)

static volatile unsigned rt;

struct ops {
    int n;
    unsigned (*first)(const unsigned long *);
    unsigned (*last)(const unsigned long *);
    unsigned (*firstz)(const unsigned long *);
    unsigned (*lastz)(const unsigned long *);
    unsigned (*next)(const unsigned long *, unsigned);
    unsigned (*prev)(const unsigned long *, unsigned);
    unsigned (*nextz)(const unsigned long *, unsigned);
    unsigned (*prevz)(const unsigned long *, unsigned);
    unsigned (*nexta)(const unsigned long *, const unsigned long *, unsigned);
    unsigned (*preva)(const unsigned long *, const unsigned long *, unsigned);
    void (*walk)(const unsigned long *, int, unsigned, void (*)(unsigned));
};

#define GEN(tag, N)                                                                                                     \
static unsigned tag##_first(const unsigned long *a) { return bfdev_find_first_bit(a, N); }                              \
static unsigned tag##_last(const unsigned long *a) { return bfdev_find_last_bit(a, N); }                                \
static unsigned tag##_firstz(const unsigned long *a) { return bfdev_find_first_zero(a, N); }                            \
static unsigned tag##_lastz(const unsigned long *a) { return bfdev_find_last_zero(a, N); }                              \
static unsigned tag##_next(const unsigned long *a, unsigned o) { return bfdev_find_next_bit(a, N, o); }                 \
static unsigned tag##_prev(const unsigned long *a, unsigned o) { return bfdev_find_prev_bit(a, N, o); }                 \
static unsigned tag##_nextz(const unsigned long *a, unsigned o) { return bfdev_find_next_zero(a, N, o); }               \
static unsigned tag##_prevz(const unsigned long *a, unsigned o) { return bfdev_find_prev_zero(a, N, o); }               \
static unsigned tag##_nexta(const unsigned long *a, const unsigned long *b, unsigned o) { return bfdev_find_next_and_bit(a, b, N, o); } \
static unsigned tag##_preva(const unsigned long *a, const unsigned long *b, unsigned o) { return bfdev_find_prev_and_bit(a, b, N, o); } \
static void tag##_walk(const unsigned long *a, int how, unsigned i, void (*visit)(unsigned))                            \
{                                                                                                                       \
    switch (how) {                                                                                                      \
    case 0: bfdev_for_each_bit(i, a, N) visit(i); break;                                                                \
    case 1: bfdev_for_each_zero(i, a, N) visit(i); break;                                                               \
    case 2: bfdev_for_each_bit_reverse(i, a, N) visit(i); break;                                                        \
    case 3: bfdev_for_each_zero_reverse(i, a, N) visit(i); break;                                                       \
    case 4: bfdev_for_each_bit_form(i, a, N) visit(i); break;                                                           \
    case 5: bfdev_for_each_zero_form(i, a, N) visit(i); break;                                                          \
    case 6: bfdev_for_each_bit_reverse_form(i, a, N) visit(i); break;                                                   \
    case 7: bfdev_for_each_zero_reverse_form(i, a, N) visit(i); break;                                                  \
    case 8: bfdev_for_each_bit_continue(i, a, N) visit(i); break;                                                       \
    case 9: bfdev_for_each_zero_continue(i, a, N) visit(i); break;                                                      \
    case 10: bfdev_for_each_bit_reverse_continue(i, a, N) visit(i); break;                                              \
    case 11: bfdev_for_each_zero_reverse_continue(i, a, N) visit(i); break;                                             \
    }                                                                                                                   \
}
#define OPS(tag, N) { N, tag##_first, tag##_last, tag##_firstz, tag##_lastz, tag##_next, tag##_prev, tag##_nextz,       \
    tag##_prevz, tag##_nexta, tag##_preva, tag##_walk },
GEN(rt, rt)
#define CONSTS(X) X(1) X(2) X(7) X(8) X(31) X(32) X(33) X(62) X(63) X(64) X(65) X(127) X(128) X(130)
#define G(N) GEN(c##N, N)
CONSTS(G)
#define O(N) OPS(c##N, N)
#define RT_OPS { -1, rt_first, rt_last, rt_firstz, rt_lastz, rt_next, rt_prev, rt_nextz, rt_prevz, rt_nexta, rt_preva, rt_walk }
static const struct ops ops_rt = RT_OPS, ops_const[] = { CONSTS(O) };

static int n, words, ntail;
static unsigned long *a, *b;
#define BIG 70100
static bool in[BIG], inb[BIG];

static void
put(unsigned long *p, bool *set, bool tail)
{
    int i;
    memset(p, 0, words * 8);
    for (i = 0; i < words * 64; ++i)
        if (i < n ? set[i] : tail)
            p[i / 64] |= 1ul << (i % 64);
}

static int
ref_next(int from, bool want)
{
    for (; from < n; ++from)
        if (in[from] == want)
            return from;
    return n;
}

static int
ref_prev(int from, bool want)
{
    for (; from >= 0; --from)
        if (in[from] == want)
            return from;
    return n;
}

static int
ref_and(int from, int step)
{
    for (; from >= 0 && from < n; from += step)
        if (in[from] && inb[from])
            return from;
    return n;
}

static unsigned seen[BIG], nseen;
static void
visit(unsigned i)
{
    mc_assert(nseen < (unsigned)n + 3, "walk does not end");
    seen[nseen++] = i;
}

static void
check_walk(const struct ops *o, int how, unsigned start)
{
    unsigned k = 0;
    int i, want = !(how & 1), down = how & 2, from, kind = how / 4;

    nseen = 0;
    o->walk(a, how, start, visit);
    mc_step_count();
    if (kind == 0)
        from = down ? n - 1 : 0;
    else if (kind == 1)
        from = start;
    else
        from = down ? (int)start - 1 : (int)start + 1;
    if (kind == 1 && from < n) {
        /* the form without initialisation visits its start in any case */
        mc_assert(nseen && seen[0] == start, "walk %d from %u of %d bits does not visit its start", how, start, n);
        k = 1;
        from += down ? -1 : 1;
    }
    for (i = from; i >= 0 && i < n; i += down ? -1 : 1)
        if (in[i] == want) {
            mc_assert(k < nseen && seen[k] == (unsigned)i, "walk %d from %u of %d bits: visit %u is %u, not %d", how, start, n, k, k < nseen ? seen[k] : 9999, i);
            ++k;
        }
    mc_assert(k == nseen, "walk %d from %u of %d bits visits %u bits, not %u", how, start, n, nseen, k);
}

#define EQ(call, expect, fmt, ...) do {                                                                     \
    unsigned got_ = call; int exp_ = expect;                                                                \
    mc_step_count();                                                                                        \
    mc_assert(got_ == (unsigned)exp_, fmt " of %d bits is %u, not %d", ##__VA_ARGS__, n, got_, exp_);       \
} while (0)

static const short pos[] = { -1, 0, 1, 7, 30, 31, 32, 62, 63, 64, 65, 95, 96, 126, 127, 128, 129, 130 };
#define NPOS MC_ARRAY_SIZE(pos)

static void
choose_set(void)
{
    int i, j, k, inv;

    i = mc_choose(NPOS);
    j = i ? mc_choose(i + 1) : 0;
    k = j ? mc_choose(j + 1) : 0;
    if ((i && pos[i] >= n) || (i && j == i) || (j && k == j))
        mc_prune();
    inv = mc_choose(2);
    memset(in, inv, 192);
    if (i) in[pos[i]] = !inv;
    if (j) in[pos[j]] = !inv;
    if (k) in[pos[k]] = !inv;
    mc_trace("size %d positions %d %d %d inverted %d", n, pos[i], pos[j], pos[k], inv);
    mc_case(mc_mix(mc_mix(n, i * 400 + j * 20 + k), inv));
}

static void
s_find(void)
{
    const struct ops *o;
    int i, how;
    unsigned s;

    if (mc_arg) {
        o = &ops_const[mc_choose(MC_ARRAY_SIZE(ops_const))];
        n = o->n;
    } else {
        o = &ops_rt;
        /* every size in the thorough tier, the quick one too */
        static const short some[] = { 0, 1, 2, 8, 32, 33, 62, 63, 64, 65, 66, 96, 126, 127, 128, 129, 130, 131 };
        n = mc_bound ? mc_choose(MAXN + 1) : some[mc_choose(MC_ARRAY_SIZE(some))];
        rt = n;
    }
    words = WORDS(n);
    choose_set();
    a = mc_buffer(words * 8);
    b = mc_buffer(words * 8);
    for (ntail = 0; ntail < 2; ++ntail) {
        put(a, in, ntail);
        EQ(o->first(a), ref_next(0, 1), "first bit");
        EQ(o->last(a), ref_prev(n - 1, 1), "last bit");
        EQ(o->firstz(a), ref_next(0, 0), "first zero");
        EQ(o->lastz(a), ref_prev(n - 1, 0), "last zero");
        for (s = 0; s < (unsigned)n + 3; ++s) {
            EQ(o->next(a, s), (int)s >= n ? n : ref_next(s, 1), "next bit from %u", s);
            EQ(o->nextz(a, s), (int)s >= n ? n : ref_next(s, 0), "next zero from %u", s);
            EQ(o->prev(a, s), (int)s >= n ? n : ref_prev(s, 1), "previous bit from %u", s);
            EQ(o->prevz(a, s), (int)s >= n ? n : ref_prev(s, 0), "previous zero from %u", s);
        }
        EQ(o->next(a, ~0u), n, "next bit from the top");
        EQ(o->prev(a, ~0u), n, "previous bit from below zero");
        EQ(o->nextz(a, ~0u), n, "next zero from the top");
        EQ(o->prevz(a, ~0u), n, "previous zero from below zero");
        for (how = 0; how < 12; ++how)
            check_walk(o, how, how < 4 ? 77 : how % 4 < 2 ? 5 : 67);
        /* the second bitmap: everything, nothing, even, odd, all but the first match */
        for (i = 0; i < 5; ++i) {
            int k, f = ref_next(0, 1);
            for (k = 0; k < n; ++k)
                inb[k] = i == 0 || (i == 2 && !(k & 1)) || (i == 3 && (k & 1)) || (i == 4 && k != f);
            put(b, inb, !ntail);
            for (s = 0; s < (unsigned)n + 2; s += i < 2 ? 31 : 1) {
                EQ(o->nexta(a, b, s), (int)s >= n ? n : ref_and(s, 1), "next common bit (kind %d) from %u", i, s);
                EQ(o->preva(a, b, s), (int)s >= n ? n : ref_and(s, -1), "previous common bit (kind %d) from %u", i, s);
            }
        }
    }
}

/* the out of line functions with byte swapped words */
static void
s_swap(void)
{
    static const short some[] = { 0, 1, 8, 31, 33, 63, 64, 65, 66, 95, 127, 128, 129, 131 };
    int inv, i;
    unsigned s;

    n = some[mc_choose(MC_ARRAY_SIZE(some))];
    words = WORDS(n);
    choose_set();
    inv = mc_choose(2);
    a = mc_buffer(words * 8);
    for (ntail = 0; ntail < 2; ++ntail) {
        unsigned long v = inv ? ~0ul : 0;
        put(a, in, ntail);
        for (i = 0; i < words; ++i)
            a[i] = __builtin_bswap64(a[i]);
        EQ(bfdev_comp_find_first_bit(a, n, v, true), ref_next(0, !inv), "swapped first bit");
        EQ(bfdev_comp_find_last_bit(a, n, v, true), ref_prev(n - 1, !inv), "swapped last bit");
        for (s = 0; s < (unsigned)n + 2; ++s) {
            EQ(bfdev_comp_find_next_bit(a, NULL, n, s, v, true), (int)s >= n ? n : ref_next(s, !inv), "swapped next bit from %u", s);
            EQ(bfdev_comp_find_prev_bit(a, NULL, n, s, v, true), (int)s >= n ? n : ref_prev(s, !inv), "swapped previous bit from %u", s);
        }
    }
}

/* sizes and positions around 2^8, 2^12 and 2^16 */
static void
s_large(void)
{
    static const int sizes[] = { 255, 256, 257, 320, 511, 512, 513, 4095, 4096, 4097, 32769, 65535, 65536, 65537, 70001 };
    static const int spot[] = { 0, 63, 64, 254, 255, 256, 257, 300, 511, 512, 4095, 4096, 4097, 32767, 32768, 65534, 65535, 65536, 65537, 69999, 70000 };
    const struct ops *o = &ops_rt;
    int i, j, inv, k, how;

    rt = n = sizes[mc_choose(MC_ARRAY_SIZE(sizes))];
    words = WORDS(n);
    i = mc_choose(MC_ARRAY_SIZE(spot) + 1) - 1;
    j = i < 0 ? i : mc_choose(i + 1);   /* itself: only one */
    inv = mc_choose(2);
    if (i >= 0 && spot[i] >= n)
        mc_prune();
    memset(in, inv, n);
    memset(inb, 1, n);
    if (i >= 0)
        in[spot[i]] = in[spot[j]] = !inv;
    mc_trace("size %d positions %d %d inverted %d", n, i < 0 ? -1 : spot[i], i < 0 ? -1 : spot[j], inv);
    mc_case(mc_mix(mc_mix(n, i * 100 + j), inv));
    a = mc_buffer(words * 8);
    b = mc_buffer(words * 8);
    ntail = inv;
    put(a, in, ntail);
    put(b, inb, 1);
    EQ(o->first(a), ref_next(0, 1), "first bit");
    EQ(o->last(a), ref_prev(n - 1, 1), "last bit");
    EQ(o->firstz(a), ref_next(0, 0), "first zero");
    EQ(o->lastz(a), ref_prev(n - 1, 0), "last zero");
    for (k = 0; k < (int)MC_ARRAY_SIZE(spot) * 2; ++k) {
        int s = k & 1 ? n - spot[k / 2] : spot[k / 2];

        if (s < 0)
            continue;
        EQ(o->next(a, s), s >= n ? n : ref_next(s, 1), "next bit from %u", s);
        EQ(o->nextz(a, s), s >= n ? n : ref_next(s, 0), "next zero from %u", s);
        EQ(o->prev(a, s), s >= n ? n : ref_prev(s, 1), "previous bit from %u", s);
        EQ(o->prevz(a, s), s >= n ? n : ref_prev(s, 0), "previous zero from %u", s);
        EQ(o->nexta(a, b, s), s >= n ? n : ref_and(s, 1), "next common bit from %u", s);
        EQ(o->preva(a, b, s), s >= n ? n : ref_and(s, -1), "previous common bit from %u", s);
        EQ(o->nexta(b, a, s), s >= n ? n : ref_and(s, 1), "next common bit from %u", s);
        EQ(o->preva(b, a, s), s >= n ? n : ref_and(s, -1), "previous common bit from %u", s);
    }
    for (how = 0; how < 12; ++how)
        if (!((how ^ inv) & 1) || n < 5000 || (i == j && how < 4))
            check_walk(o, how, how < 4 ? 77 : how % 4 < 2 ? 5 : n - 1);
    for (k = 0; k < words; ++k)
        a[k] = __builtin_bswap64(a[k]);
    for (k = 0; k < 2; ++k) {
        unsigned long v = k ? ~0ul : 0;
        EQ(bfdev_comp_find_first_bit(a, n, v, true), ref_next(0, !k), "swapped first bit");
        EQ(bfdev_comp_find_last_bit(a, n, v, true), ref_prev(n - 1, !k), "swapped last bit");
        for (j = 0; j < (int)MC_ARRAY_SIZE(spot); ++j) {
            EQ(bfdev_comp_find_next_bit(a, NULL, n, spot[j], v, true), spot[j] >= n ? n : ref_next(spot[j], !k), "swapped next bit from %u", spot[j]);
            EQ(bfdev_comp_find_prev_bit(a, NULL, n, spot[j], v, true), spot[j] >= n ? n : ref_prev(spot[j], !k), "swapped previous bit from %u", spot[j]);
        }
    }
}

const mc_scenario_t mc_scenarios[] = {
    { "find", s_find, { 1, 1 }, 0, 2 },
    { "find-const", s_find, { 0, 0 }, 1, 2 },
    { "large", s_large, { 0, 0 }, 0, 3 },
    { "swap", s_swap, { 0, 0 }, 0, 2 },
    { NULL }
};
