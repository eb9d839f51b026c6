/*
 * Bit fields, flags and bits numbered by byte order, minima and roundings, halves of words
 * and the helpers that find a structure by its member: every field, bit and operation.
 */
#include "mc.h"
#include <limits.h>
#include <bfdev/bitfield.h>
#include <bfdev/bitflags.h>
#include <bfdev/bitops-endian.h>
#include <bfdev/minmax.h>
#include <bfdev/math.h>
#include <bfdev/macro.h>
#include <bfdev/uplower.h>
#include <bfdev/struct.h>
#include <bfdev/container.h>
#include <bfdev/size.h>
#include <bfdev/limits.h>
#include <bfdev/mhelper.h>
#include <bfdev/typecheck.h>
#include <bfdev/stringify.h>

#define ONES(n) ((n) >= 64 ? ~0ull : (1ull << (n)) - 1)

#define FIELDS(type, bits)                                                                      \
static void fields_##bits(int lo, int len, uint64_t reg)                                        \
{                                                                                               \
    type mask = (type)(ONES(len) << lo), got;                                                   \
    int i;                                                                                      \
                                                                                                \
    got = BFDEV_FIELD_GET(mask, (type)reg);                                                     \
    mc_assert(got == (type)(((type)reg & mask) >> lo), "field %d+%d of %#lx is %#lx", lo, len, reg, (uint64_t)got); \
    got = BFDEV_FIELD_PREP(mask, (type)reg);                                                    \
    mc_assert(got == (type)((reg & ONES(len)) << lo), "%#lx in field %d+%d is %#lx", reg, lo, len, (uint64_t)got); \
    mc_assert(BFDEV_FIELD_GET(mask, got) == (type)(reg & ONES(len)), "field %d+%d does not give back %#lx", lo, len, reg); \
    mc_assert(BFDEV_FIELD_MAX(mask) == (type)ONES(len), "the greatest value of field %d+%d is %#lx", lo, len, (uint64_t)BFDEV_FIELD_MAX(mask)); \
    mc_assert(!!BFDEV_FIELD_FIT(mask, (type)reg) == ((type)reg <= (type)ONES(len)), "%#lx does %sfit in field %d+%d of " #bits " bits", (uint64_t)(type)reg, (type)reg <= (type)ONES(len) ? "" : "not ", lo, len); \
    mc_assert(!!BFDEV_FIELD_FIT(mask, reg) == (reg <= ONES(len)), "%#lx does %sfit in field %d+%d of " #bits " bits", reg, reg <= ONES(len) ? "" : "not ", lo, len); \
    mc_assert(!!BFDEV_FIELD_FIT(mask, (int)reg) == ((uint64_t)(int)reg <= ONES(len)), "%d does %sfit in field %d+%d of " #bits " bits", (int)reg, (uint64_t)(int)reg <= ONES(len) ? "" : "not ", lo, len); \
}

FIELDS(uint8_t, 8) FIELDS(uint16_t, 16) FIELDS(uint32_t, 32) FIELDS(uint64_t, 64)

static void s_field(void)
{
    static void (*const fields[])(int, int, uint64_t) = { fields_8, fields_16, fields_32, fields_64 };
    int w = mc_choose(4), width = 8 << w, lo = mc_choose(width), len = 1 + mc_choose(width - lo), a, b;
    uint64_t v;

    mc_step("field of %d bits at %d of a word of %d", len, lo, width);
    for (a = 0; a < 64; a++)
        for (b = 0; b <= a; b++) {
            v = 1ull << a | 1ull << b;
            fields[w](lo, len, v);
            fields[w](lo, len, ~v);
            fields[w](lo, len, v - 1);
        }
    for (v = 0; v < 256; v++) {
        fields[w](lo, len, v);
        fields[w](lo, len, v * 0x0101010101010101ull);
    }
    mc_case(mc_mix(mc_mix(w, lo), len));
}

struct flagged { unsigned long before, flags, after; };
BFDEV_BITFLAGS(plain0, 0) BFDEV_BITFLAGS(plain1, 17) BFDEV_BITFLAGS(plain2, 63)
BFDEV_BITFLAGS_ATOMIC(atom0, 0) BFDEV_BITFLAGS_ATOMIC(atom1, 17) BFDEV_BITFLAGS_ATOMIC(atom2, 63)
BFDEV_BITFLAGS_STRUCT(st0, struct flagged, flags, 0) BFDEV_BITFLAGS_STRUCT(st1, struct flagged, flags, 17) BFDEV_BITFLAGS_STRUCT(st2, struct flagged, flags, 63)
BFDEV_BITFLAGS_STRUCT_ATOMIC(sa0, struct flagged, flags, 0) BFDEV_BITFLAGS_STRUCT_ATOMIC(sa1, struct flagged, flags, 17) BFDEV_BITFLAGS_STRUCT_ATOMIC(sa2, struct flagged, flags, 63)

#define OPS(name, ptr, conv)                                                                    \
static int op_##name(struct flagged *f, int op)                                                 \
{                                                                                               \
    switch (op) {                                                                               \
    case 0: name##_clr(ptr); return -1;                                                         \
    case 1: name##_set(ptr); return -1;                                                         \
    case 2: name##_flip(ptr); return -1;                                                        \
    case 3: return name##_test(ptr);                                                            \
    case 4: return name##_test_clr(ptr);                                                        \
    case 5: return name##_test_set(ptr);                                                        \
    default: return name##_test_flip(ptr);                                                      \
    }                                                                                           \
}

OPS(plain0, &f->flags, ) OPS(plain1, &f->flags, ) OPS(plain2, &f->flags, )
OPS(atom0, &f->flags, ) OPS(atom1, &f->flags, ) OPS(atom2, &f->flags, )
OPS(st0, f, ) OPS(st1, f, ) OPS(st2, f, )
OPS(sa0, f, ) OPS(sa1, f, ) OPS(sa2, f, )

/* every flag, every history over one word */
static void s_flags(void)
{
    static int (*const ops[])(struct flagged *, int) = { op_plain0, op_plain1, op_plain2, op_atom0, op_atom1, op_atom2, op_st0, op_st1, op_st2, op_sa0, op_sa1, op_sa2 };
    static const int bits[] = { 0, 17, 63 };
    static const unsigned long starts[] = { 0, ~0ul, 0xaaaaaaaaaaaaaaaa, 1ul << 63 | 1 };
    struct flagged f = { 0x1111, starts[mc_choose(4)], 0x2222 };
    int i, which, op, got, was;
    unsigned long want, bit;

    for (i = 0; i < mc_bound; i++) {
        which = mc_choose(MC_ARRAY_SIZE(ops));
        op = mc_choose(7);
        bit = 1ul << bits[which % 3];
        was = !!(f.flags & bit);
        want = f.flags;
        if (op == 0 || op == 4)
            want &= ~bit;
        else if (op == 1 || op == 5)
            want |= bit;
        else if (op == 2 || op == 6)
            want ^= bit;
        mc_step("flag %d, operation %d", which, op);
        mc_case(mc_mix(mc_mix(f.flags, which), op));
        got = ops[which](&f, op);
        mc_assert(got == (op < 3 ? -1 : was), "the flag was %d, not %d", was, got);
        mc_assert(f.flags == want, "the flags are %#lx, not %#lx", f.flags, want);
        mc_assert(f.before == 0x1111 && f.after == 0x2222, "the neighbours changed");
    }
}

#define ENDIAN(e)                                                                               \
static int op_##e(unsigned long *p, int op, int bit, bool v)                                    \
{                                                                                               \
    switch (op) {                                                                               \
    case 0: bfdev_bit_clr_##e(p, bit); return -1;                                               \
    case 1: bfdev_bit_set_##e(p, bit); return -1;                                               \
    case 2: bfdev_bit_flip_##e(p, bit); return -1;                                              \
    case 3: bfdev_bit_change_##e(p, bit, v); return -1;                                         \
    case 4: return bfdev_bit_test_##e(p, bit);                                                  \
    case 5: return bfdev_bit_test_clr_##e(p, bit);                                              \
    case 6: return bfdev_bit_test_set_##e(p, bit);                                              \
    case 7: return bfdev_bit_test_flip_##e(p, bit);                                             \
    case 8: bfdev_bit_atomic_clr_##e(p, bit); return -1;                                        \
    case 9: bfdev_bit_atomic_set_##e(p, bit); return -1;                                        \
    case 10: bfdev_bit_atomic_flip_##e(p, bit); return -1;                                      \
    case 11: bfdev_bit_atomic_change_##e(p, bit, v); return -1;                                 \
    case 12: return bfdev_bit_atomic_test_##e(p, bit);                                          \
    case 13: return bfdev_bit_atomic_test_clr_##e(p, bit);                                      \
    case 14: return bfdev_bit_atomic_test_set_##e(p, bit);                                      \
    case 15: return bfdev_bit_atomic_test_flip_##e(p, bit);                                     \
    default: return bfdev_bit_atomic_test_change_##e(p, bit, v);                                \
    }                                                                                           \
}

ENDIAN(le) ENDIAN(be)

/* bit n of little endian words is bit n % 8 of byte n / 8; of big endian words, byte 7 is first */
static void s_endian(void)
{
    static const int kinds[] = { 0, 1, 2, 3, 4, 0, 1, 2, 0, 1, 2, 3, 4, 0, 1, 2, 3 };
    int big = mc_choose(2), op = mc_choose(17), bit = mc_choose(128), start = mc_choose(6), v = mc_choose(2), at, got, was, i, kind = kinds[op];
    unsigned char *p = mc_buffer(16), want[16];
    bool ret = (op >= 4 && op < 8) || op >= 12;

    for (i = 0; i < 16; i++)
        p[i] = start == 0 ? 0 : start == 1 ? 0xff : start == 2 ? 0x55 : start == 3 ? 0xaa : start == 4 ? i * 0x11 : 0x80 + i;
    memcpy(want, p, 16);
    at = big ? bit / 64 * 8 + 7 - bit / 8 % 8 : bit / 8;
    was = want[at] >> bit % 8 & 1;
    if (kind == 0)
        want[at] &= ~(1 << bit % 8);
    else if (kind == 1)
        want[at] |= 1 << bit % 8;
    else if (kind == 2)
        want[at] ^= 1 << bit % 8;
    else if (kind == 3)
        want[at] = (want[at] & ~(1 << bit % 8)) | v << bit % 8;
    mc_step("%s endian bit %d, operation %d, %d", big ? "big" : "little", bit, op, v);
    mc_case(mc_mix(mc_mix(big * 32 + op, bit), start * 2 + v));
    got = (big ? op_be : op_le)((unsigned long *)p, op, bit, v);
    mc_assert(got == (ret ? was : -1), "the bit was %d, not %d", was, got);
    for (i = 0; i < 16; i++)
        mc_assert(p[i] == want[i], "byte %d is %#x, not %#x", i, p[i], want[i]);
    if (big)
        mc_assert(bfdev_bit_test_change_be((unsigned long *)p, bit, !v) == (want[at] >> bit % 8 & 1) && (p[at] >> bit % 8 & 1) == !v, "test and change");
}

static const long nums[] = { 0, 1, -1, 2, -2, 3, -3, 4, 5, 7, -7, 8, 9, 100, -100, 1000, 1001, 127, 128, 255, 256, -128, 32767, 65536, -65537 };

static void s_order(void)
{
    long a = nums[mc_choose(MC_ARRAY_SIZE(nums))], b = nums[mc_choose(MC_ARRAY_SIZE(nums))], c = nums[mc_choose(MC_ARRAY_SIZE(nums))], v, x, y;
    int calls = 0, i;
    double q;

    mc_step("%ld, %ld, %ld", a, b, c);
    mc_case(mc_mix(mc_mix(a, b), c));
    mc_assert(bfdev_min(a, b) == (a < b ? a : b) && bfdev_max(a, b) == (a > b ? a : b), "min or max of %ld, %ld", a, b);
    mc_assert(bfdev_min((calls++, a), b) + 0 * bfdev_max((calls++, a), b) == (a < b ? a : b) && calls == 2, "an argument was evaluated %d times", calls);
    if (b <= c) {
        x = a < b ? b : a > c ? c : a;
        mc_assert(bfdev_clamp(a, b, c) == x, "%ld in %ld..%ld is %ld", a, b, c, bfdev_clamp(a, b, c));
        v = a;
        bfdev_clamp_adj(v, b, c);
        mc_assert(v == x, "%ld in %ld..%ld is %ld", a, b, c, v);
    }
    v = a;
    bfdev_min_adj(v, b);
    mc_assert(v == (a < b ? a : b), "min_adj of %ld, %ld is %ld", a, b, v);
    v = a;
    bfdev_max_adj(v, b);
    mc_assert(v == (a > b ? a : b), "max_adj of %ld, %ld is %ld", a, b, v);
    if (b) {
        v = BFDEV_DIV_ROUND_CLOSEST(a, b);
        x = labs(v * b - a) * 2;
        mc_assert(x <= labs(b), "%ld / %ld rounds to %ld", a, b, v);
        /* halves away from zero */
        if (x == labs(b))
            mc_assert(labs(v * b) >= labs(a), "half of %ld / %ld rounds to %ld", a, b, v);
    }
    if (a >= 0 && b > 0) {
        unsigned long ua = a, ub = b;

        mc_assert(BFDEV_DIV_ROUND_UP(ua, ub) == ua / ub + !!(ua % ub), "%lu / %lu rounds up to %lu", ua, ub, BFDEV_DIV_ROUND_UP(ua, ub));
        mc_assert(BFDEV_DIV_ROUND_CLOSEST(ua, ub) == (ua + ub / 2) / ub, "%lu / %lu rounds to %lu", ua, ub, BFDEV_DIV_ROUND_CLOSEST(ua, ub));
        mc_assert(BFDEV_DIV_ROUND_CLOSEST(ua, b) == (ua + ub / 2) / ub, "%lu / %ld rounds to %lu", ua, b, BFDEV_DIV_ROUND_CLOSEST(ua, b));
        mc_assert(BFDEV_DIV_ROUND_CLOSEST(a, ub) == (ua + ub / 2) / ub, "%ld / %lu rounds to %lu", a, ub, BFDEV_DIV_ROUND_CLOSEST(a, ub));
    }
    x = a;
    y = b;
    bfdev_swap(x, y);
    mc_assert(x == b && y == a, "swap of %ld, %ld", a, b);
    mc_assert(bfdev_cmp(a > b) == (a > b ? BFDEV_BT : BFDEV_LT), "cmp");
}

static void s_words(void)
{
    uint64_t v = mc_choose(65), r;
    int i, c;

    v = v == 64 ? 0 : 1ull << v;
    for (i = 0; i < 64; i++) {
        r = (v | 1ull << i) * (i % 3 == 0 ? 1 : i % 3 == 1 ? 0xffff1235 : ~0ull);
        mc_step("halves of %#lx", r);
        mc_case(r);
        mc_assert(bfdev_upper_32_bits(r) == r / 4294967296ull && bfdev_lower_32_bits(r) == r % 4294967296ull, "halves of %#lx are %#x, %#x", r, bfdev_upper_32_bits(r), bfdev_lower_32_bits(r));
        mc_assert(bfdev_upper_32_bits((uint32_t)r) == 0, "a 32 bit word has an upper half");
        mc_assert(bfdev_upper_16_bits((uint32_t)r) == (uint32_t)r / 65536 && bfdev_lower_16_bits((uint32_t)r) == r % 65536, "halves of %#x", (uint32_t)r);
    }
    for (c = 0; c < 256; c++) {
        r = BFDEV_REPEAT_BYTE(c);
        for (i = 0; i < 8; i++)
            mc_assert((r >> 8 * i & 255) == (uint64_t)c, "byte %d of repeated %#x is %#lx", i, c, r >> 8 * i & 255);
    }
}

struct inner { short s; char c; };
struct outer {
    char pad[3];
    struct inner in[3];
    long tail;
    bfdev_struct_group(group, int x; char y; long z;);
    bfdev_struct_group_attr(packed, __attribute__((packed)), char p; int q;);
};

#define SQ(x) ((x) * (x))
#define SZ(unit, shift) { BFDEV_SZ_1##unit, BFDEV_SZ_2##unit, BFDEV_SZ_4##unit, BFDEV_SZ_8##unit, BFDEV_SZ_16##unit, BFDEV_SZ_32##unit, BFDEV_SZ_64##unit, BFDEV_SZ_128##unit, BFDEV_SZ_256##unit, BFDEV_SZ_512##unit }

static void s_static(void)
{
    static const unsigned long long sz[4][10] = { SZ(Byte, 0), SZ(KiB, 10), SZ(MiB, 20), SZ(GiB, 30) };
    static struct outer o[2];
    struct inner *in;
    const struct inner *cin;
    int i, k, counts[] = { BFDEV_COUNT_ARGS(), BFDEV_COUNT_ARGS(a), BFDEV_COUNT_ARGS(a, b), BFDEV_COUNT_ARGS(a, b, c), BFDEV_COUNT_ARGS(a, b, c, d),
        BFDEV_COUNT_ARGS(a, b, c, d, e), BFDEV_COUNT_ARGS(a, b, c, d, e, f), BFDEV_COUNT_ARGS(a, b, c, d, e, f, g), BFDEV_COUNT_ARGS(a, b, c, d, e, f, g, h),
        BFDEV_COUNT_ARGS(a, b, c, d, e, f, g, h, i), BFDEV_COUNT_ARGS(a, b, c, d, e, f, g, h, i, j), BFDEV_COUNT_ARGS(a, b, c, d, e, f, g, h, i, j, k), BFDEV_COUNT_ARGS(a, b, c, d, e, f, g, h, i, j, k, l) };
    int split[] = { 7, BFDEV_MMAP_SPLITN(1, SQ, 2), BFDEV_MMAP_SPLITN(6, SQ, 1, 2, 3, 4, 5, 6), BFDEV_MMAP_SPLIT0(SQ) };

    mc_step("constants and structures");
    mc_case(1);
    for (k = 0; k < 4; k++)
        for (i = 0; i < 10; i++)
            mc_assert(sz[k][i] == 1ull << (10 * k + i), "size 2^%d is %#llx", 10 * k + i, sz[k][i]);
    for (k = 0; k < 2; k++)
        for (i = 0; i < 3; i++) {
            in = &o[k].in[i];
            cin = in;
            mc_assert(bfdev_container_of(in, struct outer, in[i]) == &o[k], "container of element %d", i);
            mc_assert(bfdev_container_of_safe(in, struct outer, in[i]) == &o[k], "container of element %d", i);
            mc_assert(bfdev_container_of_const(cin, struct outer, in[i]) == &o[k], "container of element %d", i);
            mc_assert(bfdev_container_of_const(in, struct outer, in[i]) == &o[k], "container of element %d", i);
        }
    in = NULL;
    mc_assert(!bfdev_container_of_safe(in, struct outer, in[1]), "nothing has a container");
    mc_assert(_Generic(bfdev_container_of_const(cin, struct outer, in[0]), const struct outer *: 1, default: 0), "the container of a constant is not constant");
    mc_assert(bfdev_struct_field(struct outer, in) == sizeof(o[0].in) && bfdev_struct_field(struct outer, tail) == sizeof(long), "field size");
    mc_assert((void *)&o[0].x == (void *)&o[0].group.x && (void *)&o[0].y == (void *)&o[0].group.y && (void *)&o[0].z == (void *)&o[0].group.z, "the group is another place");
    mc_assert((char *)&o[0].packed.q == (char *)&o[0].packed.p + 1 && (void *)&o[0].q == (void *)&o[0].packed.q && sizeof(o[0].packed) == 5, "the packed group");
    for (i = 0; i < (int)MC_ARRAY_SIZE(counts); i++)
        mc_assert(counts[i] == i, "%d arguments are counted as %d", i, counts[i]);
    mc_assert(MC_ARRAY_SIZE(split) == 8 && split[1] == 4 && split[7] == 36, "mapped arguments");
    mc_assert(BFDEV_ARRAY_SIZE(counts) == 13, "array size");
    mc_assert(!strcmp(__bfdev_stringify(SQ(3), x), "((3) * (3)), x"), "stringify");
    mc_assert(bfdev_typecheck(long, o[0].tail) == 1 && bfdev_typecheck_pointer(&o[0]) == 1 && bfdev_typecheck_func(void (*)(void), s_static) == 1, "type checks");
    mc_assert(BFDEV_UCHAR_MAX == UCHAR_MAX && BFDEV_CHAR_MAX == SCHAR_MAX && BFDEV_CHAR_MIN == SCHAR_MIN && BFDEV_USHRT_MAX == USHRT_MAX && BFDEV_SHRT_MAX == SHRT_MAX && BFDEV_SHRT_MIN == SHRT_MIN, "char and short limits");
    mc_assert(BFDEV_UINT_MAX == UINT_MAX && BFDEV_INT_MAX == INT_MAX && BFDEV_INT_MIN == INT_MIN && BFDEV_ULONG_MAX == ULONG_MAX && BFDEV_LONG_MAX == LONG_MAX && BFDEV_LONG_MIN == LONG_MIN, "int and long limits");
    mc_assert(BFDEV_ULLONG_MAX == ULLONG_MAX && BFDEV_LLONG_MAX == LLONG_MAX && BFDEV_LLONG_MIN == LLONG_MIN, "long long limits");
    mc_assert(BFDEV_UINT8_MAX == UINT8_MAX && BFDEV_UINT16_MAX == UINT16_MAX && BFDEV_UINT32_MAX == UINT32_MAX && BFDEV_UINT64_MAX == UINT64_MAX, "unsigned limits");
    mc_assert(BFDEV_INT8_MAX == INT8_MAX && BFDEV_INT16_MAX == INT16_MAX && BFDEV_INT32_MAX == INT32_MAX && BFDEV_INT64_MAX == INT64_MAX, "signed limits");
    mc_assert(BFDEV_INT8_MIN == INT8_MIN && BFDEV_INT16_MIN == INT16_MIN && BFDEV_INT32_MIN == INT32_MIN && BFDEV_INT64_MIN == INT64_MIN, "signed limits");
    mc_assert(BFDEV_UINTPTR_MAX == UINTPTR_MAX && BFDEV_UINTMAX_MAX == UINTMAX_MAX && BFDEV_SIZE_MAX == SIZE_MAX && BFDEV_INTPTR_MAX == INTPTR_MAX && BFDEV_PTRDIFF_MAX == PTRDIFF_MAX, "pointer limits");
    mc_assert(BFDEV_INTMAX_MAX == INTMAX_MAX && BFDEV_SSIZE_MAX == SSIZE_MAX && BFDEV_INTPTR_MIN == INTPTR_MIN && BFDEV_PTRDIFF_MIN == PTRDIFF_MIN && BFDEV_INTMAX_MIN == INTMAX_MIN, "pointer limits");
}

const mc_scenario_t mc_scenarios[] = {
    { "fields", s_field, { 1, 1 }, 0, 2 },
    { "flags", s_flags, { 2, 3 }, 0, 2 },
    { "endian bits", s_endian, { 1, 1 }, 0, 2 },
    { "order and rounding", s_order, { 1, 1 }, 0, 2 },
    { "halves", s_words, { 1, 1 }, 0, 1 },
    { "constants", s_static, { 1, 1 }, 0, 1 },
    { NULL }
};
