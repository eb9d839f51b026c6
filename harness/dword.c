/*
 * Double word arithmetic: every combination of operands whose half words are boundary
 * values, against the compiler's 128 bit integers; every allowed aliasing.
 */
#include "mc.h"
#include <bfdev/dword.h>

typedef unsigned __int128 u128;
static const uint32_t half[] = { 0, 1, 0xffffffff, 0x80000000, 0x7fffffff, 2, 0xfffffffe, 0x80000001, 3, 0x55555555, 0xaaaaaaab };
#define NHALF (mc_bound)
#define NWORD (mc_bound * mc_bound)
static unsigned long word(int i) { return (unsigned long)half[i / NHALF] << 32 | half[i % NHALF]; }
static u128 two(unsigned long hi, unsigned long lo) { return (u128)hi << 64 | lo; }

static void s_addsubmul(void)
{
    unsigned long a = word(mc_choose(NWORD)), b = word(mc_choose(NWORD)), c, h, l;
    u128 x;
    int k, m;

    mc_step("first operand %#lx:%#lx", a, b);
    bfdev_umul_ppmm(h, l, a, b);
    mc_assert(two(h, l) == (u128)a * b, "umul_ppmm(%#lx, %#lx) = %#lx:%#lx", a, b, h, l);
    h = a, l = b;
    bfdev_umul_ppmm(h, l, h, l);
    mc_assert(two(h, l) == (u128)a * b, "umul_ppmm(%#lx, %#lx) in place = %#lx:%#lx", a, b, h, l);
    h = a, l = b;
    bfdev_umul_ppmm(l, h, h, l);
    mc_assert(two(l, h) == (u128)a * b, "umul_ppmm(%#lx, %#lx) in swapped place = %#lx:%#lx", a, b, l, h);
    for (k = 0; k < NWORD; k++) {
        c = word(k);
        for (m = 0; m < NWORD; m++) {
            unsigned long d = word(m);

            bfdev_dword_addd(h, l, a, b, c, d);
            x = two(a, b) + two(c, d);
            mc_assert(two(h, l) == x, "addd(%#lx:%#lx, %#lx:%#lx) = %#lx:%#lx", a, b, c, d, h, l);
            h = a, l = b;
            bfdev_dword_addd(h, l, h, l, c, d);
            mc_assert(two(h, l) == x, "addd(%#lx:%#lx, %#lx:%#lx) in place = %#lx:%#lx", a, b, c, d, h, l);
            bfdev_sub_ddmmss(h, l, a, b, c, d);
            x = two(a, b) - two(c, d);
            mc_assert(two(h, l) == x, "sub_ddmmss(%#lx:%#lx, %#lx:%#lx) = %#lx:%#lx", a, b, c, d, h, l);
            h = c, l = d;
            bfdev_sub_ddmmss(h, l, a, b, h, l);
            mc_assert(two(h, l) == x, "sub_ddmmss(%#lx:%#lx, %#lx:%#lx) into the second operand = %#lx:%#lx", a, b, c, d, h, l);
            mc_case(mc_mix(mc_mix(mc_mix(a, b), c), d));
        }
    }
}

static void one_div(unsigned long hi, unsigned long lo, unsigned long d)
{
    unsigned long src[4] = { 0xdead, lo, hi, 0xbeef }, q[4] = { 1, 2, 3, 4 }, r[3] = { 5, 6, 7 }, h, l;
    u128 n = two(hi, lo), want = n / d;
    unsigned long rem = n % d;

#define IS(what, Q, R) mc_assert((Q) && (R), what " (%#lx:%#lx / %#lx) is wrong: quotient %#lx:%#lx remainder %#lx", hi, lo, d, q[2], q[1], r[1])
    bfdev_dword_udiv(q + 1, r + 1, src + 1, d);
    IS("udiv", two(q[2], q[1]) == want, r[1] == rem);
    mc_assert(q[0] == 1 && q[3] == 4 && r[0] == 5 && r[2] == 7 && src[0] == 0xdead && src[1] == lo && src[2] == hi && src[3] == 0xbeef, "udiv changes other words");
    q[1] = q[2] = r[1] = 99;
    bfdev_dword_udiv(NULL, r + 1, src + 1, d);
    mc_assert(r[1] == rem, "udiv without quotient: %#lx:%#lx %% %#lx = %#lx", hi, lo, d, r[1]);
    bfdev_dword_udiv(q + 1, NULL, src + 1, d);
    mc_assert(two(q[2], q[1]) == want, "udiv without remainder: %#lx:%#lx / %#lx = %#lx:%#lx", hi, lo, d, q[2], q[1]);
    bfdev_dword_udiv(NULL, NULL, src + 1, d);
    mc_assert(src[1] == lo && src[2] == hi, "udiv changes the dividend");
    bfdev_dword_udiv(src + 1, r + 1, src + 1, d);
    mc_assert(two(src[2], src[1]) == want && r[1] == rem, "udiv in place: %#lx:%#lx / %#lx = %#lx:%#lx, %#lx", hi, lo, d, src[2], src[1], r[1]);
    src[1] = lo, src[2] = hi;
    bfdev_dword_udiv(q + 1, src + 2, src + 1, d);
    mc_assert(two(q[2], q[1]) == want && src[2] == rem, "udiv, remainder over the high word: %#lx:%#lx / %#lx", hi, lo, d);
    src[1] = lo, src[2] = hi;
    bfdev_dword_udiv(q + 1, src + 1, src + 1, d);
    mc_assert(two(q[2], q[1]) == want && src[1] == rem, "udiv, remainder over the low word: %#lx:%#lx / %#lx", hi, lo, d);
    if (d >> 63 && hi < d) {
        bfdev_udiv_qrnnd(h, l, hi, lo, d);
        mc_assert(h == want && l == rem, "udiv_qrnnd(%#lx:%#lx, %#lx) = %#lx, %#lx", hi, lo, d, h, l);
    }
}

static void s_udiv(void)
{
    unsigned long hi = word(mc_choose(NWORD)), lo = word(mc_choose(NWORD)), d;
    int k, s;

    mc_step("dividend %#lx:%#lx", hi, lo);
    for (k = 1; k < NWORD; k++)
        for (s = 0; s < 64; s += mc_arg) {
            d = word(k) >> s;
            if (!d)
                break;
            one_div(hi, lo, d);
            mc_case(mc_mix(mc_mix(hi, lo), d));
        }
}

static void one_divd(u128 n, u128 d)
{
    unsigned long src[4] = { 0xdead, n, n >> 64, 0xbeef }, div[2] = { d, d >> 64 }, q[4] = { 1, 2, 3, 4 }, r[4] = { 5, 6, 7, 8 };
    u128 want = n / d, rem = n % d;

#define DIFF(what, Q, R) \
    mc_assert((Q) == want && (R) == rem, what ": %#lx:%#lx / %#lx:%#lx is %#lx:%#lx remainder %#lx:%#lx", (unsigned long)(n >> 64), (unsigned long)n, \
        (unsigned long)(d >> 64), (unsigned long)d, (unsigned long)((Q) >> 64), (unsigned long)(Q), (unsigned long)((R) >> 64), (unsigned long)(R))
    bfdev_dword_udivd(q + 1, r + 1, src + 1, div);
    DIFF("udivd", two(q[2], q[1]), two(r[2], r[1]));
    mc_assert(q[0] == 1 && q[3] == 4 && r[0] == 5 && r[3] == 8 && src[0] == 0xdead && two(src[2], src[1]) == n && src[3] == 0xbeef && two(div[1], div[0]) == d,
        "udivd changes other words");
    q[1] = q[2] = 99, r[1] = r[2] = 98;
    bfdev_dword_udivd(NULL, r + 1, src + 1, div);
    DIFF("udivd without quotient", want, two(r[2], r[1]));
    bfdev_dword_udivd(q + 1, NULL, src + 1, div);
    DIFF("udivd without remainder", two(q[2], q[1]), rem);
    bfdev_dword_udivd(NULL, NULL, src + 1, div);
    bfdev_dword_udivd(src + 1, r + 1, src + 1, div);
    DIFF("udivd, quotient over the dividend", two(src[2], src[1]), two(r[2], r[1]));
    src[1] = n, src[2] = n >> 64;
    bfdev_dword_udivd(q + 1, src + 1, src + 1, div);
    DIFF("udivd, remainder over the dividend", two(q[2], q[1]), two(src[2], src[1]));
    src[1] = n, src[2] = n >> 64;
    bfdev_dword_udivd(div, r + 1, src + 1, div);
    DIFF("udivd, quotient over the divisor", two(div[1], div[0]), two(r[2], r[1]));
    div[0] = d, div[1] = d >> 64;
    bfdev_dword_udivd(q + 1, div, src + 1, div);
    DIFF("udivd, remainder over the divisor", two(q[2], q[1]), two(div[1], div[0]));
    mc_case(mc_mix(mc_mix(mc_mix(n >> 64, n), d >> 64), d));
}

static void s_udivd(void)
{
    unsigned long hi = word(mc_choose(NWORD)), lo = word(mc_choose(NWORD));
    int k, m;

    mc_step("dividend %#lx:%#lx", hi, lo);
    for (k = 0; k < NWORD; k++)
        for (m = !k; m < NWORD; m++)
            one_divd(two(hi, lo), two(word(k), word(m)));
}

/* dividends around a multiple of the divisor */
static void s_exact(void)
{
    u128 d, p;
    unsigned long q;
    int k;

    d = two(word(mc_choose(NWORD)), word(mc_choose(NWORD))) >> mc_choose(64) * 2 % 127;
    if (!d)
        mc_prune();
    mc_step("divisor %#lx:%#lx", (unsigned long)(d >> 64), (unsigned long)d);
    for (k = 0; k < NWORD; k++) {
        q = word(k);
        if (q && d > ~(u128)0 / q)
            continue;
        p = d * q;
        one_divd(p, d);
        if (p)
            one_divd(p - 1, d);
        if (p + (d - 1) >= p) {
            one_divd(p + (d - 1), d);
            one_divd(p + (d > 1), d);
        }
        if (!(d >> 64)) {
            one_div(p >> 64, p, d);
            if (p)
                one_div((p - 1) >> 64, p - 1, d);
        }
    }
}

const mc_scenario_t mc_scenarios[] = {
    { "add, subtract, multiply", s_addsubmul, { 6, 8 }, 0, 2 },
    { "one word divisor", s_udiv, { 7, 11 }, 5, 2 },
    { "two word divisor", s_udivd, { 6, 8 }, 0, 2 },
    { "around multiples of the divisor", s_exact, { 5, 8 }, 0, 2 },
    { NULL }
};
