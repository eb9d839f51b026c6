/*
 * Bitmaps: every operation for every size up to two words and two bits (run
 * time sizes) and for selected compile time sizes, over boundary patterns
 * with garbage behind the last bit; every range and every shift distance.
 */
#include "mc.h"
#include <bfdev/bitmap.h>
#include <bfdev/bits.h>

#define MAXN 131
#define WORDS(n) (((n) + 63) / 64)
#define GET(p, i) (((p)[(i) / 64] >> ((i) % 64)) & 1)

static volatile unsigned rt;

struct ops {
    int n;
    bool (*empty)(const unsigned long *);
    bool (*full)(const unsigned long *);
    bool (*equal)(const unsigned long *, const unsigned long *);
    bool (*or_equal)(const unsigned long *, const unsigned long *, const unsigned long *);
    bool (*intersects)(const unsigned long *, const unsigned long *);
    bool (*and)(unsigned long *, const unsigned long *, const unsigned long *);
    bool (*andnot)(unsigned long *, const unsigned long *, const unsigned long *);
    void (*or)(unsigned long *, const unsigned long *, const unsigned long *);
    void (*xor)(unsigned long *, const unsigned long *, const unsigned long *);
    void (*shl)(unsigned long *, const unsigned long *, unsigned);
    void (*shr)(unsigned long *, const unsigned long *, unsigned);
    void (*compl)(unsigned long *, const unsigned long *);
    void (*zero)(unsigned long *);
    void (*fill)(unsigned long *);
    void (*copy)(unsigned long *, unsigned long *);
};

#define GEN(tag, N)                                                                                                         \
static bool tag##_empty(const unsigned long *a) { return bfdev_bitmap_empty(a, N); }                                        \
static bool tag##_full(const unsigned long *a) { return bfdev_bitmap_full(a, N); }                                          \
static bool tag##_equal(const unsigned long *a, const unsigned long *b) { return bfdev_bitmap_equal(a, b, N); }             \
static bool tag##_or_equal(const unsigned long *a, const unsigned long *b, const unsigned long *c) { return bfdev_bitmap_or_equal(a, b, c, N); } \
static bool tag##_intersects(const unsigned long *a, const unsigned long *b) { return bfdev_bitmap_intersects(a, b, N); }   \
static bool tag##_and(unsigned long *d, const unsigned long *a, const unsigned long *b) { return bfdev_bitmap_and(d, a, b, N); }    \
static bool tag##_andnot(unsigned long *d, const unsigned long *a, const unsigned long *b) { return bfdev_bitmap_andnot(d, a, b, N); } \
static void tag##_or(unsigned long *d, const unsigned long *a, const unsigned long *b) { bfdev_bitmap_or(d, a, b, N); }     \
static void tag##_xor(unsigned long *d, const unsigned long *a, const unsigned long *b) { bfdev_bitmap_xor(d, a, b, N); }   \
static void tag##_shl(unsigned long *d, const unsigned long *a, unsigned s) { bfdev_bitmap_shl(d, a, s, N); }               \
static void tag##_shr(unsigned long *d, const unsigned long *a, unsigned s) { bfdev_bitmap_shr(d, a, s, N); }               \
static void tag##_compl(unsigned long *d, const unsigned long *a) { bfdev_bitmap_complement(d, a, N); }                     \
static void tag##_zero(unsigned long *d) { bfdev_bitmap_zero(d, N); }                                                       \
static void tag##_fill(unsigned long *d) { bfdev_bitmap_fill(d, N); }                                                       \
static void tag##_copy(unsigned long *d, unsigned long *a) { bfdev_bitmap_copy(d, a, N); }
#define OPS(tag, N) { N, tag##_empty, tag##_full, tag##_equal, tag##_or_equal, tag##_intersects, tag##_and, tag##_andnot,   \
    tag##_or, tag##_xor, tag##_shl, tag##_shr, tag##_compl, tag##_zero, tag##_fill, tag##_copy },
GEN(rt, rt)
#define CONSTS(X) X(1) X(2) X(7) X(8) X(31) X(32) X(33) X(63) X(64) X(65) X(72) X(100) X(127) X(128) X(130) X(136)
#define G(N) GEN(c##N, N)
CONSTS(G)
#define O(N) OPS(c##N, N)
#define RT_OPS { -1, rt_empty, rt_full, rt_equal, rt_or_equal, rt_intersects, rt_and, rt_andnot, rt_or, rt_xor, rt_shl, rt_shr, rt_compl, rt_zero, rt_fill, rt_copy }
static const struct ops ops_rt = RT_OPS, ops_const[] = { CONSTS(O) };

/* boundary bit patterns for a bitmap of n bits */
#define NPAT 14
static bool
pat_bit(int pat, int n, int i)
{
    switch (pat) {
    case 0: return false;
    case 1: return true;
    case 2: return i == 0;
    case 3: return i == n - 1;
    case 4: return i == n / 2;
    case 5: return i == 63;
    case 6: return i == 64;
    case 7: return i & 1;
    case 8: return i != 0;
    case 9: return i != n - 1;
    case 10: return i != 64;
    case 11: return (0x9e3779b97f4a7c15ul >> (i * 7 % 64)) & 1;
    case 12: return i < n / 2;
    default: return i % 3 == 0;
    }
}

static unsigned long *
make(int pat, int n, bool tail)
{
    int words = WORDS(n) ? WORDS(n) : 1, i;
    unsigned long *p = mc_buffer(words * 8);
    for (i = 0; i < words; ++i)
        p[i] = 0;
    for (i = 0; i < words * 64; ++i)
        if (i < n ? pat_bit(pat, n, i) : tail)
            p[i / 64] |= 1ul << (i % 64);
    return p;
}

static const int large[] = { 255, 256, 257, 511, 512, 513, 4095, 4096, 4097, 32768, 65535, 65536, 65537, 70001 };
static const int spots[] = { 0, 1, 63, 64, 65, 255, 256, 257, 300, 511, 512, 4096, 4100, 32767, 32768, 65535, 65536, 65537, 66000, 70000 };

static int
choose_pat(int n)
{
    static const int few[] = { 1, 3, 9, 11 };
    return n > 600 ? few[mc_choose(MC_ARRAY_SIZE(few))] : mc_choose(NPAT);
}

static const struct ops *
choose_size(int *np)
{
    const struct ops *o;
    if (mc_arg & 1) {
        o = &ops_const[mc_choose(MC_ARRAY_SIZE(ops_const))];
        *np = o->n;
    } else {
        o = &ops_rt;
        rt = *np = mc_arg & 2 ? large[mc_choose(MC_ARRAY_SIZE(large))] : mc_choose(MAXN);
    }
    return o;
}

static const char *what;
#define CHECK(expr) do {                                                        \
    mc_step_count();                                                            \
    for (i = 0; i < n; ++i)                                                     \
        mc_assert(GET(d, i) == (unsigned long)(expr), "%s of %d bits: bit %d is wrong (patterns %d %d, alias %d)", what, n, i, pa, pb, alias); \
} while (0)

static void
s_logic(void)
{
    int n, pa, pb, tail, alias = 0, i, any;
    const struct ops *o = choose_size(&n);
    unsigned long *a, *b, *d, *t;

    pa = choose_pat(n);
    pb = choose_pat(n);
    tail = mc_choose(2);
    a = make(pa, n, tail);
    b = make(pb, n, !tail);
    mc_trace("size %d patterns %d %d tail %d", n, pa, pb, tail);
    mc_case(mc_mix(n * 2 + tail, pa * 100 + pb));
#define A(i) pat_bit(pa, n, i)
#define B(i) pat_bit(pb, n, i)
    for (alias = 0; alias < 3; ++alias) {
#define DEST() (d = alias == 0 ? make(11, n, 1) : alias == 1 ? (t = make(pa, n, tail)) : (t = make(pb, n, !tail)))
#define SA (alias == 1 ? d : a)
#define SB (alias == 2 ? d : b)
#define ANY(expr) for (any = i = 0; i < n; ++i) any |= (expr)
        what = "and";
        DEST();
        ANY(A(i) & B(i));
        mc_assert(o->and(d, SA, SB) == any, "and of %d bits reports %s bits (patterns %d %d)", n, any ? "no" : "some", pa, pb);
        CHECK(A(i) & B(i));
        what = "andnot";
        DEST();
        ANY(A(i) & !B(i));
        mc_assert(o->andnot(d, SA, SB) == any, "andnot of %d bits reports %s bits (patterns %d %d)", n, any ? "no" : "some", pa, pb);
        CHECK(A(i) & !B(i));
        what = "or";
        DEST();
        o->or(d, SA, SB);
        CHECK(A(i) | B(i));
        what = "xor";
        DEST();
        o->xor(d, SA, SB);
        CHECK(A(i) ^ B(i));
    }
    alias = 0;
    ANY(A(i) & B(i));
    mc_assert(o->intersects(a, b) == any, "intersects of %d bits, patterns %d %d", n, pa, pb);
    ANY(A(i) ^ B(i));
    mc_assert(o->equal(a, b) == !any, "equal of %d bits, patterns %d %d", n, pa, pb);
    mc_assert(o->equal(b, a) == !any, "equal of %d bits, patterns %d %d", n, pb, pa);
    {
        int pc;
        for (pc = 0; pc < NPAT; ++pc) {
            unsigned long *c = make(pc, n, pc & 1);
            ANY((A(i) | B(i)) != pat_bit(pc, n, i));
            mc_assert(o->or_equal(a, b, c) == !any, "or_equal of %d bits, patterns %d %d %d", n, pa, pb, pc);
            what = "replace";
            d = make(2, n, 1);
            bfdev_bitmap_comp_replace(d, a, b, c, n);
            CHECK(pat_bit(pc, n, i) ? B(i) : A(i));
        }
    }
    for (i = 0; i < n; ++i)
        mc_assert(GET(a, i) == A(i) && GET(b, i) == B(i), "operand changed");
}

static void
s_single(void)
{
    int n, pa, pb = 0, tail, alias, i, any;
    unsigned s, k;
    const struct ops *o = choose_size(&n);
    unsigned long *a, *d;

    pa = choose_pat(n);
    tail = mc_choose(2);
    mc_trace("size %d pattern %d tail %d", n, pa, tail);
    mc_case(mc_mix(n * 2 + tail, pa + 5000));
    a = make(pa, n, tail);
    ANY(A(i));
    mc_assert(o->empty(a) == !any, "empty of %d bits, pattern %d", n, pa);
    ANY(!A(i));
    mc_assert(o->full(a) == !any, "full of %d bits, pattern %d", n, pa);
    alias = 0;
    what = "zero";
    d = make(pa, n, tail);
    o->zero(d);
    CHECK(0);
    what = "fill";
    d = make(pa, n, tail);
    o->fill(d);
    CHECK(1);
    what = "copy";
    d = make(1, n, 1);
    o->copy(d, a);
    CHECK(A(i));
    what = "copy";
    d = make(0, n, 0);
    o->copy(d, a);
    CHECK(A(i));
    for (alias = 0; alias < 2; ++alias) {
        what = "complement";
        d = alias ? make(pa, n, tail) : make(11, n, 1);
        o->compl(d, alias ? d : a);
        CHECK(!A(i));
        /* the one word forms shift a word: keep the distance below its width */
        for (k = 0; k <= (n > 600 ? MC_ARRAY_SIZE(spots) * 2 + 3 : (unsigned)n + 66); ++k) {
            s = n <= 600 ? k : k < MC_ARRAY_SIZE(spots) ? (unsigned)spots[k] : k < MC_ARRAY_SIZE(spots) * 2 ?
                (unsigned)(n - spots[k - MC_ARRAY_SIZE(spots)]) : n + k - MC_ARRAY_SIZE(spots) * 2;
            if ((int)s < 0)
                continue;
            if (o != &ops_rt && n <= 64 && s >= 64)
                break;
            what = "shl";
            d = alias ? make(pa, n, tail) : make(11, n, 1);
            o->shl(d, alias ? d : a, s);
            CHECK(i < (int)s ? 0 : A(i - (int)s));
            what = "shr";
            d = alias ? make(pa, n, tail) : make(11, n, 1);
            o->shr(d, alias ? d : a, s);
            CHECK(i + (int)s >= n ? 0 : A(i + (int)s));
        }
    }
    for (i = 0; i < n; ++i)
        mc_assert(GET(a, i) == A(i), "operand changed");
}

#define RANGES(X) X(0, 1) X(5, 1) X(64, 1) X(0, 8) X(8, 8) X(56, 16) X(64, 64) X(0, 64) X(8, 64) X(16, 112) X(0, 128) \
    X(3, 5) X(3, 61) X(0, 63) X(60, 8) X(63, 2) X(1, 128) X(65, 60) X(0, 0) X(8, 0) X(64, 0)
#define R(s, n) static void set_##s##_##n(unsigned long *b) { bfdev_bitmap_set(b, s, n); } \
                static void clr_##s##_##n(unsigned long *b) { bfdev_bitmap_clr(b, s, n); }
RANGES(R)
#define T(s, n) { s, n, set_##s##_##n, clr_##s##_##n },
static const struct { int s, n; void (*set)(unsigned long *), (*clr)(unsigned long *); } ranges[] = { RANGES(T) };

static void
s_range(void)
{
    int start, len, pat, set, i, words, c = -1;
    unsigned long *d;

    set = mc_choose(2);
    pat = mc_choose(NPAT);
    if (mc_arg & 1) {
        c = mc_choose(MC_ARRAY_SIZE(ranges));
        start = ranges[c].s;
        len = ranges[c].n;
    } else if (mc_arg & 2) {
        start = spots[mc_choose(MC_ARRAY_SIZE(spots))];
        len = spots[mc_choose(MC_ARRAY_SIZE(spots))];
    } else {
        start = mc_choose(MAXN);
        len = mc_choose(MAXN - start + 64);
    }
    words = WORDS(start + len);
    if (!words)
        words = 1;
    d = make(pat, words * 64, 0);
    rt = len;
    if (c >= 0)
        (set ? ranges[c].set : ranges[c].clr)(d);
    else if (set)
        bfdev_bitmap_set(d, start, rt);
    else
        bfdev_bitmap_clr(d, start, rt);
    mc_step("%s %d bits from %d, pattern %d", set ? "set" : "clear", len, start, pat);
    mc_case(mc_mix(start, len));
    for (i = 0; i < words * 64; ++i)
        mc_assert((bool)GET(d, i) == (i >= start && i < start + len ? set : pat_bit(pat, words * 64, i)),
                  "%s of %d bits from %d: bit %d is wrong", set ? "set" : "clear", len, start, i);
}

static void
s_alloc(void)
{
    unsigned long *p;
    int n = 1 + mc_choose(MAXN), z = mc_choose(2), i;

    mc_fault_budget = 1;
    p = z ? bfdev_bitmap_zalloc(&mc_alloc, n) : bfdev_bitmap_alloc(&mc_alloc, n);
    mc_step("allocate %d bits -> %s", n, p ? "ok" : "failed");
    mc_case(n * 4 + z * 2 + !p);
    mc_assert(!p == (mc_faults > 0), "bitmap allocation");
    if (p) {
        for (i = 0; i < WORDS(n); ++i) {
            mc_assert(!z || !p[i], "zeroed bitmap is not zero");
            p[i] = ~0ul;
        }
        bfdev_bitmap_free(&mc_alloc, p);
    }
    mc_no_leaks("freed bitmap");
}

const mc_scenario_t mc_scenarios[] = {
    { "logic", s_logic, { 0, 0 }, 0, 2 },
    { "logic-const", s_logic, { 0, 0 }, 1, 2 },
    { "single", s_single, { 0, 0 }, 0, 2 },
    { "single-const", s_single, { 0, 0 }, 1, 2 },
    { "large-logic", s_logic, { 0, 0 }, 2, 3 },
    { "large-single", s_single, { 0, 0 }, 2, 3 },
    { "large-range", s_range, { 0, 0 }, 2, 3 },
    { "range", s_range, { 0, 0 }, 0, 3 },
    { "range-const", s_range, { 0, 0 }, 1, 3 },
    { "alloc", s_alloc, { 0, 0 }, 0, 2 },
    { NULL }
};
