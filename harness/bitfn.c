/*
 * Bit and integer primitives: every helper on every 8/16 bit argument and on a
 * structured family of 32/64 bit arguments (up to two set bits, every range,
 * every byte in every position, complements and neighbours), in run time and
 * compile time forms, against bit-by-bit definitions.
 */
#include "mc.h"
#include <bfdev/bitops.h>
#include <bfdev/bitops-endian.h>
#include <bfdev/bitflags.h>
#include <bfdev/bitfield.h>
#include <bfdev/bitrev.h>
#include <bfdev/popcount.h>
#include <bfdev/swab.h>
#include <bfdev/byteorder.h>
#include <bfdev/unaligned.h>
#include <bfdev/overflow.h>
#include <bfdev/math.h>
#include <bfdev/minmax.h>
#include <bfdev/align.h>
#include <bfdev/log2.h>
#include <bfdev/hash.h>
#include <bfdev/bcd.h>

#define EQ(what, got, want) do { uint64_t g_ = (uint64_t)(got), w_ = (uint64_t)(want); \
    mc_assert(g_ == w_, "%s: got 0x%llx, expected 0x%llx (argument 0x%llx)", what, (unsigned long long)g_, \
              (unsigned long long)w_, (unsigned long long)cur); } while (0)

static uint64_t cur;

/* the family of 64 bit arguments */
#define NPAIR (64 * 64)
#define NRANGE (64 * 64)
#define NBYTE (8 * 256)
#define NEDGE (64 * 3)
#define NWIDE (7 * 65536)

static uint64_t value_of(unsigned i, int *valid)
{
    *valid = 1;
    if (i < NPAIR)
        return (1ull << (i / 64)) | (1ull << (i % 64));
    i -= NPAIR;
    if (i < NPAIR)
        return ~((1ull << (i / 64)) | (1ull << (i % 64)));
    i -= NPAIR;
    if (i < NRANGE) {
        unsigned lo = i / 64, hi = i % 64;

        if (hi < lo) {
            *valid = 0;
            return 0;
        }
        return (~0ull >> (63 - hi)) & (~0ull << lo);
    }
    i -= NRANGE;
    if (i < NBYTE)
        return (uint64_t)(i % 256) << (8 * (i / 256));
    i -= NBYTE;
    if (i < NEDGE)
        return (1ull << (i / 3)) + (uint64_t)(int64_t)((int)(i % 3) - 1);
    i -= NEDGE;
    if (i < 2)
        return i ? ~0ull : 0;
    i -= 2;
    return (uint64_t)(i % 65536) << (8 * (i / 65536));
}
#define NVALUE (2 * NPAIR + NRANGE + NBYTE + NEDGE + 2)

static unsigned ref_pop(uint64_t v) { unsigned n = 0, i; for (i = 0; i < 64; i++) n += (v >> i) & 1; return n; }
static uint64_t ref_rev(uint64_t v, unsigned w) { uint64_t r = 0; unsigned i; for (i = 0; i < w; i++) if ((v >> i) & 1) r |= 1ull << (w - 1 - i); return r; }
static uint64_t ref_group(uint64_t v, unsigned w, unsigned g, unsigned span)
{
    /* reverse the order of g-bit groups inside every span-bit group of a w-bit word */
    uint64_t r = 0;
    unsigned i;

    for (i = 0; i < w; i++)
        if ((v >> i) & 1) {
            unsigned base = i / span * span, in = i % span;
            r |= 1ull << (base + (span / g - 1 - in / g) * g + in % g);
        }
    return r;
}
static unsigned ref_first(uint64_t v) { unsigned i; for (i = 0; i < 64; i++) if ((v >> i) & 1) return i; return 64; }
static unsigned ref_last(uint64_t v) { unsigned i; for (i = 64; i--; ) if ((v >> i) & 1) return i; return 64; }
static unsigned ref_nth(uint64_t v, unsigned nr) { unsigned i; for (i = 0; i < 64; i++) if (((v >> i) & 1) && !nr--) return i; return 64; }
static unsigned ref_nth_last(uint64_t v, unsigned nr) { unsigned i; for (i = 64; i--; ) if (((v >> i) & 1) && !nr--) return i; return 64; }

static void check_width8(uint8_t v)
{
    EQ("popcount8_const", bfdev_popcount8_const(v), ref_pop(v));
    EQ("popcount8", bfdev_popcount8(v), ref_pop(v));
    EQ("popparity8_const", bfdev_popparity8_const(v), ref_pop(v) & 1);
    EQ("popparity8", bfdev_popparity8(v), ref_pop(v) & 1);
    EQ("bitrev8_const", (uint8_t)bfdev_bitrev8_const(v), ref_rev(v, 8));
    EQ("bitrev8", bfdev_bitrev8(v), ref_rev(v, 8));
}

static void check_width16(uint16_t v)
{
    volatile uint16_t rt = v;
    uint16_t s = v;

    EQ("popcount16_const", bfdev_popcount16_const(v), ref_pop(v));
    EQ("popcount16", bfdev_popcount16(rt), ref_pop(v));
    EQ("popparity16_const", bfdev_popparity16_const(v), ref_pop(v) & 1);
    EQ("popparity16", bfdev_popparity16(rt), ref_pop(v) & 1);
    EQ("bitrev16_const", (uint16_t)bfdev_bitrev16_const(v), ref_rev(v, 16));
    EQ("bitrev16", bfdev_bitrev16(rt), ref_rev(v, 16));
    EQ("swab16_const", bfdev_swab16_const(v), ref_group(v, 16, 8, 16));
    EQ("swab16", bfdev_swab16(rt), ref_group(v, 16, 8, 16));
    EQ("fswab16", bfdev_fswab16(rt), ref_group(v, 16, 8, 16));
    EQ("swab16p", bfdev_swab16p(&v), ref_group(v, 16, 8, 16));
    bfdev_swab16s(&s);
    EQ("swab16s", s, ref_group(v, 16, 8, 16));
    EQ("htons_const", bfdev_htons_const(v), ref_group(v, 16, 8, 16));
    EQ("ntohs_const", bfdev_ntohs_const(v), ref_group(v, 16, 8, 16));
}

static void check_width32(uint32_t v)
{
    volatile uint32_t rt = v;
    uint32_t s;

    EQ("popcount32_const", bfdev_popcount32_const(v), ref_pop(v));
    EQ("popcount32", bfdev_popcount32(rt), ref_pop(v));
    EQ("popparity32_const", bfdev_popparity32_const(v), ref_pop(v) & 1);
    EQ("popparity32", bfdev_popparity32(rt), ref_pop(v) & 1);
    EQ("bitrev32_const", (uint32_t)bfdev_bitrev32_const(v), ref_rev(v, 32));
    EQ("bitrev32", bfdev_bitrev32(rt), ref_rev(v, 32));
#define SW32(name, g, span) \
    EQ(#name "_const", bfdev_##name##_const(v), ref_group(v, 32, g, span)); \
    EQ(#name, bfdev_##name(rt), ref_group(v, 32, g, span)); \
    EQ("f" #name, bfdev_f##name(rt), ref_group(v, 32, g, span)); \
    EQ(#name "p", bfdev_##name##p(&v), ref_group(v, 32, g, span)); \
    s = v; bfdev_##name##s(&s); EQ(#name "s", s, ref_group(v, 32, g, span));
    SW32(swab32, 8, 32)
    SW32(swahb32, 8, 16)
    SW32(swahw32, 16, 32)
    EQ("htonl_const", bfdev_htonl_const(v), ref_group(v, 32, 8, 32));
    EQ("ntohl_const", bfdev_ntohl_const(v), ref_group(v, 32, 8, 32));
}

static void check_word(uint64_t v)
{
    volatile uint64_t rt = v;
    uint64_t s;
    unsigned long l;
    unsigned nr, cnt;

    EQ("popcount64_const", bfdev_popcount64_const(v), ref_pop(v));
    EQ("popcount64", bfdev_popcount64(rt), ref_pop(v));
    EQ("popparity64_const", bfdev_popparity64_const(v), ref_pop(v) & 1);
    EQ("popparity64", bfdev_popparity64(rt), ref_pop(v) & 1);
    EQ("bitrev64_const", (uint64_t)bfdev_bitrev64_const(v), ref_rev(v, 64));
    EQ("bitrev64", bfdev_bitrev64(rt), ref_rev(v, 64));
#define SW64(name, g, span) \
    EQ(#name "_const", bfdev_##name##_const(v), ref_group(v, 64, g, span)); \
    EQ(#name, bfdev_##name(rt), ref_group(v, 64, g, span)); \
    EQ("f" #name, bfdev_f##name(rt), ref_group(v, 64, g, span)); \
    EQ(#name "p", bfdev_##name##p(&v), ref_group(v, 64, g, span)); \
    s = v; bfdev_##name##s(&s); EQ(#name "s", s, ref_group(v, 64, g, span));
    SW64(swab64, 8, 64)
    SW64(swahb64, 8, 16)
    SW64(swahw64, 16, 32)
    SW64(swahl64, 32, 64)
    l = v;
    EQ("swab", bfdev_swab(l), ref_group(v, 64, 8, 64));
    EQ("swabp", bfdev_swabp(&l), ref_group(v, 64, 8, 64));
    bfdev_swabs(&l);
    EQ("swabs", l, ref_group(v, 64, 8, 64));

    if (v) {
        EQ("ffsuf", bfdev_ffsuf(v), ref_first(v));
        EQ("flsuf", bfdev_flsuf(v), ref_last(v));
        EQ("ffsuf64", bfdev_ffsuf64(v), ref_first(v));
        EQ("flsuf64", bfdev_flsuf64(v), ref_last(v));
        EQ("ctz", bfdev_ctz(v), ref_first(v));
        EQ("clz", bfdev_clz(v), 63 - ref_last(v));
        EQ("ctz64", bfdev_ctz64(v), ref_first(v));
        EQ("clz64", bfdev_clz64(v), 63 - ref_last(v));
    }
    if (~v) {
        EQ("ffzuf", bfdev_ffzuf(v), ref_first(~v));
        EQ("flzuf", bfdev_flzuf(v), ref_last(~v));
        EQ("ffzuf64", bfdev_ffzuf64(v), ref_first(~v));
        EQ("flzuf64", bfdev_flzuf64(v), ref_last(~v));
    }
    EQ("ffs", bfdev_ffs(v), v ? ref_first(v) + 1 : 0);
    EQ("fls", bfdev_fls(v), v ? ref_last(v) + 1 : 0);
    EQ("ffz", bfdev_ffz(v), ~v ? ref_first(~v) + 1 : 0);
    EQ("flz", bfdev_flz(v), ~v ? ref_last(~v) + 1 : 0);
    EQ("ffs64", bfdev_ffs64(v), v ? ref_first(v) + 1 : 0);
    EQ("fls64", bfdev_fls64(v), v ? ref_last(v) + 1 : 0);
    EQ("ffz64", bfdev_ffz64(v), ~v ? ref_first(~v) + 1 : 0);
    EQ("flz64", bfdev_flz64(v), ~v ? ref_last(~v) + 1 : 0);

    for (nr = 0; nr < 66; nr++) {
        unsigned want;
#define NTH(name, ref, word) \
        want = ref(word, nr); \
        cnt = nr; \
        EQ(#name "p", bfdev_##name##p(v, &cnt), want); \
        if (want == 64) EQ(#name "p: what is left of the index", cnt, nr - ref_pop(word)); \
        cnt = nr; \
        EQ(#name "p64", bfdev_##name##p64(v, &cnt), want); \
        if (want == 64) EQ(#name "p64: what is left of the index", cnt, nr - ref_pop(word)); \
        EQ(#name, bfdev_##name(v, nr), want); \
        EQ(#name "64", bfdev_##name##64(v, nr), want);
        NTH(ffns, ref_nth, v)
        NTH(flns, ref_nth_last, v)
        NTH(ffnz, ref_nth, ~v)
        NTH(flnz, ref_nth_last, ~v)
        /* beyond the first missing index nothing new happens */
        if (nr > ref_pop(v) + 1 && nr > ref_pop(~v) + 1)
            break;
        if (nr == 3 && ref_pop(v) > 6 && ref_pop(~v) > 6)
            nr = (ref_pop(v) < ref_pop(~v) ? ref_pop(v) : ref_pop(~v)) - 3;
    }

    EQ("ilog2", bfdev_ilog2(rt), v < 2 ? 0 : ref_last(v));
    EQ("ilog2_dynamic", bfdev_ilog2_dynamic(v), v < 2 ? 0 : ref_last(v));
    EQ("ilog2_64_dynamic", bfdev_ilog2_64_dynamic(v), v < 2 ? 0 : ref_last(v));
    EQ("pow2_check", bfdev_pow2_check(v), ref_pop(v) == 1);
    EQ("pow2_rounddown", bfdev_pow2_rounddown(rt), v < 2 ? v : 1ull << ref_last(v));
    EQ("pow2_rounddown_dynamic", bfdev_pow2_rounddown_dynamic(v), v < 2 ? v : 1ull << ref_last(v));
    if (v <= 1ull << 63) {
        uint64_t up = v < 2 ? v : ref_pop(v) == 1 ? v : 2ull << ref_last(v);

        EQ("pow2_roundup", bfdev_pow2_roundup(rt), up);
        EQ("pow2_roundup_dynamic", bfdev_pow2_roundup_dynamic(v), up);
    }
}

static void narrow_ilog(uint32_t v)
{
    volatile uint32_t rt = v;

    EQ("ilog2 of a 32 bit value", bfdev_ilog2(rt), v < 2 ? 0 : ref_last(v));
}

static void s_words(void)
{
    unsigned n = NVALUE + (mc_bound ? NWIDE : 0), top = mc_choose((n + 255) / 256), i = top * 256 + mc_choose(256);
    uint64_t v;
    int valid;

    if (i >= n)
        return;
    v = value_of(i, &valid);
    if (!valid)
        return;
    cur = v;
    mc_case(mc_mix(1, v));
    mc_step("argument 0x%llx", (unsigned long long)v);
    check_word(v);
    check_width32(v);
    check_width32(v >> 32);
    narrow_ilog(v);
}

static void s_small(void)
{
    unsigned hi = mc_choose(256), lo = mc_choose(256);
    uint16_t v = hi << 8 | lo;

    cur = v;
    mc_case(v);
    mc_step("argument 0x%x", v);
    if (!hi)
        check_width8(v);
    check_width16(v);
}

/* helpers evaluated by the compiler on literals */
#define P64(X) P32(X, 0) P32(X, 32)
#define P32(X, b) P8(X, b) P8(X, b + 8) P8(X, b + 16) P8(X, b + 24)
#define P8(X, b) X((b)) X((b + 1)) X((b + 2)) X((b + 3)) X((b + 4)) X((b + 5)) X((b + 6)) X((b + 7))
struct lit { uint64_t v; int log_const, log; uint64_t up, down; uint64_t rev, sw; unsigned pop; int par; uint32_t rev32, sw32; };
#define L(val) { (val), bfdev_ilog2_const(val), bfdev_ilog2(val), (val) > (1ull << 63) ? 0 : bfdev_pow2_roundup(val), \
    bfdev_pow2_rounddown(val), bfdev_bitrev64_const(val), bfdev_swab64(val), bfdev_popcount64_const(val), \
    bfdev_popparity64_const(val), bfdev_bitrev32_const(val), bfdev_swab32_const(val) },
#define LIT(k) L(1ull << k) L((1ull << k) + 1) L((1ull << k) - 1) L(~(1ull << k)) L((1ull << 63 >> k) | (1ull << (k / 2)))

static void s_literals(void)
{
    const struct lit lits[] = { P64(LIT) };
    unsigned i = mc_choose(MC_ARRAY_SIZE(lits));
    const struct lit *t = &lits[i];
    uint64_t v = cur = t->v;

    mc_case(v);
    mc_step("literal 0x%llx", (unsigned long long)v);
    EQ("ilog2_const", t->log_const, v < 2 ? 0 : ref_last(v));
    EQ("ilog2 of a literal", t->log, v < 2 ? 0 : ref_last(v));
    if (v <= 1ull << 63)
        EQ("pow2_roundup of a literal", t->up, v < 2 ? v : ref_pop(v) == 1 ? v : 2ull << ref_last(v));
    EQ("pow2_rounddown of a literal", t->down, v < 2 ? v : 1ull << ref_last(v));
    EQ("bitrev64_const of a literal", t->rev, ref_rev(v, 64));
    EQ("bitrev32_const of a literal", t->rev32, ref_rev((uint32_t)v, 32));
    EQ("swab64 of a literal", t->sw, ref_group(v, 64, 8, 64));
    EQ("swab32_const of a literal", t->sw32, ref_group((uint32_t)v, 32, 8, 32));
    EQ("popcount of a literal", t->pop, ref_pop(v));
    EQ("parity of a literal", t->par, ref_pop(v) & 1);
}

static void s_rotate(void)
{
    static const uint64_t pat[] = { 0, 1, ~0ull, 0x8000000000000001ull, 0x0123456789abcdefull, 0xfedcba9876543210ull, 0x8040201008040201ull, 0x80ull, 0xa5ull };
    uint64_t v = pat[mc_choose(MC_ARRAY_SIZE(pat))];
    unsigned s = mc_choose(130), i;

    cur = v;
    mc_case(mc_mix(v, s));
    mc_step("rotate 0x%llx by %u", (unsigned long long)v, s);
#define ROT64 { uint64_t x = v, l = 0, r = 0; \
    for (i = 0; i < 64; i++) if ((x >> i) & 1) { l |= 1ull << ((i + s) % 64); r |= 1ull << ((i + 256 - s) % 64); } \
    EQ("rol64", bfdev_rol64(x, s), l); EQ("ror64", bfdev_ror64(x, s), r); }
#define ROTN(w) { uint##w##_t x = v, l = 0, r = 0; \
    for (i = 0; i < w; i++) if ((x >> i) & 1) { l |= (uint##w##_t)1 << ((i + s) % w); r |= (uint##w##_t)1 << ((i + 256 - s) % w); } \
    EQ("rol" #w, bfdev_rol##w(x, s), l); EQ("ror" #w, bfdev_ror##w(x, s), r); }
    ROTN(8) ROTN(16) ROTN(32) ROT64
}

/* single bit operations on three words; BE/LE views address the bit by byte order */
BFDEV_BITFLAGS(flag_a, 5)
BFDEV_BITFLAGS_ATOMIC(flag_b, 63)
struct holder { unsigned long before, flags, after; };
BFDEV_BITFLAGS_STRUCT(flag_c, struct holder, flags, 0)
BFDEV_BITFLAGS_STRUCT_ATOMIC(flag_d, struct holder, flags, 31)

static void s_bits(void)
{
    static const unsigned long fill[] = { 0, ~0ul, 0x5555555555555555ul, 0xaaaaaaaaaaaaaaaaul };
    unsigned long w[3], m[3], pat = fill[mc_choose(4)];
    unsigned bit = mc_choose(192), view = mc_choose(3), pos = view == 2 ? bit ^ 56 : bit, old, val;

    cur = bit;
    mc_case(mc_mix(mc_mix(pat, bit), view));
    mc_step("bit %u of 0x%lx.. (%s)", bit, pat, view == 0 ? "native" : view == 1 ? "le" : "be");
    /* the words differ in every bit from their neighbours, so that an access to a wrong one shows */
#define RESET (w[0] = m[0] = pat, w[1] = m[1] = ~pat, w[2] = m[2] = pat)
#define SAME(what) mc_assert(!memcmp(w, m, sizeof(w)), "%s(%u) changed the wrong bits: %lx %lx %lx, expected %lx %lx %lx", what, bit, w[0], w[1], w[2], m[0], m[1], m[2])
#define MODEL(op) (op == 0 ? (m[pos / 64] &= ~(1ul << (pos % 64))) : op == 1 ? (m[pos / 64] |= 1ul << (pos % 64)) : (m[pos / 64] ^= 1ul << (pos % 64)))
    old = ((pos / 64 == 1 ? ~pat : pat) >> (pos % 64)) & 1;
#define SUITE(a, e) \
    RESET; bfdev_bit##a##_clr##e(w, bit); MODEL(0); SAME("bit" #a "_clr" #e); \
    RESET; bfdev_bit##a##_set##e(w, bit); MODEL(1); SAME("bit" #a "_set" #e); \
    RESET; bfdev_bit##a##_flip##e(w, bit); MODEL(2); SAME("bit" #a "_flip" #e); \
    for (val = 0; val < 2; val++) { \
        RESET; bfdev_bit##a##_change##e(w, bit, val); MODEL(val); SAME("bit" #a "_change" #e); } \
    RESET; EQ("bit" #a "_test" #e, bfdev_bit##a##_test##e(w, bit), old); SAME("bit" #a "_test" #e); \
    RESET; EQ("bit" #a "_test_clr" #e, bfdev_bit##a##_test_clr##e(w, bit), old); MODEL(0); SAME("bit" #a "_test_clr" #e); \
    RESET; EQ("bit" #a "_test_set" #e, bfdev_bit##a##_test_set##e(w, bit), old); MODEL(1); SAME("bit" #a "_test_set" #e); \
    RESET; EQ("bit" #a "_test_flip" #e, bfdev_bit##a##_test_flip##e(w, bit), old); MODEL(2); SAME("bit" #a "_test_flip" #e);
#define SUITE2(a, e) SUITE(a, e) \
    for (val = 0; val < 2; val++) { \
        RESET; EQ("bit" #a "_test_change" #e, bfdev_bit##a##_test_change##e(w, bit, val), old); MODEL(val); SAME("bit" #a "_test_change" #e); }
    switch (view) {
    case 0: SUITE2(,) SUITE2(_atomic,) break;
    case 1: SUITE(, _le) SUITE2(_atomic, _le) break;
    case 2: SUITE2(, _be) SUITE2(_atomic, _be) break;
    }
    if (!bit && !view) {
        struct holder h;
        unsigned long x;
#define FLAGS(name, ptr, word, nr, ctx) \
        for (val = 0; val < 4; val++) { \
            unsigned long b = 1ul << nr, f = fill[val]; \
            ctx = f; name##_set(ptr); EQ(#name "_set", word, f | b); \
            ctx = f; name##_clr(ptr); EQ(#name "_clr", word, f & ~b); \
            ctx = f; name##_flip(ptr); EQ(#name "_flip", word, f ^ b); \
            ctx = f; EQ(#name "_test", name##_test(ptr), !!(f & b)); EQ(#name "_test", word, f); \
            ctx = f; EQ(#name "_test_set", name##_test_set(ptr), !!(f & b)); EQ(#name "_test_set", word, f | b); \
            ctx = f; EQ(#name "_test_clr", name##_test_clr(ptr), !!(f & b)); EQ(#name "_test_clr", word, f & ~b); \
            ctx = f; EQ(#name "_test_flip", name##_test_flip(ptr), !!(f & b)); EQ(#name "_test_flip", word, f ^ b); }
        FLAGS(flag_a, &x, x, 5, x)
        FLAGS(flag_b, &x, x, 63, x)
        FLAGS(flag_c, &h, h.flags, 0, h.before = h.after = pat; h.flags)
        EQ("bitflags neighbours", h.before == pat && h.after == pat, 1);
        FLAGS(flag_d, &h, h.flags, 31, h.flags)
        EQ("bitflags neighbours", h.before == pat && h.after == pat, 1);
    }
}

static void s_fields(void)
{
    unsigned lo = mc_choose(64), hi = mc_choose(64);
    static const uint64_t regs[] = { 0, ~0ull, 0x0123456789abcdefull, 0xaaaaaaaaaaaaaaaaull };
    unsigned long mask = 0, i;

    if (hi < lo)
        return;
    for (i = lo; i <= hi; i++)
        mask |= 1ul << i;
    cur = mask;
    mc_case(mc_mix(lo, hi));
    mc_step("field %u..%u", lo, hi);
    EQ("BIT_RANGE", BFDEV_BIT_RANGE(hi, lo), mask);
    EQ("BIT_RANGE_ULL", BFDEV_BIT_RANGE_ULL(hi, lo), mask);
    EQ("BIT", BFDEV_BIT(lo), 1ul << lo);
    EQ("BIT_ULL", BFDEV_BIT_ULL(lo), 1ul << lo);
    EQ("BIT_SHIFT", BFDEV_BIT_SHIFT(lo, 1ul), 1ul << lo);
    EQ("BIT_LOW_MASK", BFDEV_BIT_LOW_MASK(hi + 1), ~0ul >> (63 - hi));
    EQ("BIT_HIGH_MASK", BFDEV_BIT_HIGH_MASK(lo), ~0ul << lo);
    EQ("FIELD_MAX", BFDEV_FIELD_MAX(mask), mask >> lo);
    for (i = 0; i < MC_ARRAY_SIZE(regs); i++) {
        unsigned long v = regs[i], max = mask >> lo;

        EQ("FIELD_GET", BFDEV_FIELD_GET(mask, v), (v & mask) >> lo);
        EQ("FIELD_PREP", BFDEV_FIELD_PREP(mask, v & max), (v & max) << lo);
        EQ("FIELD_FIT", BFDEV_FIELD_FIT(mask, v & max), 1);
        /* a value too big by a bit that the shift keeps */
        if (hi < 63)
            EQ("FIELD_FIT of a value that is too big", BFDEV_FIELD_FIT(mask, (v & max) | (max + 1)), 0);
        if (hi < 32) {
            uint32_t m32 = mask, v32 = v;

            EQ("32 bit FIELD_GET", BFDEV_FIELD_GET(m32, v32), (v32 & m32) >> lo);
            EQ("32 bit FIELD_PREP", BFDEV_FIELD_PREP(m32, v32 & (m32 >> lo)), (v32 & (m32 >> lo)) << lo);
            EQ("32 bit FIELD_MAX", BFDEV_FIELD_MAX(m32), m32 >> lo);
        }
    }
}

/* overflow helpers: every 8 bit pair; boundary pairs above */
static const uint64_t edges[] = {
    0, 1, 2, 3, 5, 7, 10, 15, 16, 100, 126, 127, 128, 129, 180, 181, 182, 254, 255, 256, 257, 32766, 32767, 32768, 32769, 46340, 46341, 65534,
    65535, 65536, 65537, 0x7ffffffe, 0x7fffffff, 0x80000000, 0x80000001, 0xfffffffe, 0xffffffff, 0x100000000, 0x100000001, 3037000499ull,
    3037000500ull, 0x7ffffffffffffffeull, 0x7fffffffffffffffull, 0x8000000000000000ull, 0x8000000000000001ull,
    0xffffffff80000000ull, 0xffffffffffff8000ull, 0xffffffffffffff80ull, 0xfffffffffffffffdull, 0xfffffffffffffffeull, 0xffffffffffffffffull,
};

#define OV(tag, type) static void ov_##tag(uint64_t x, uint64_t y) \
{ \
    type a = (type)x, b = (type)y, d, ones = (type)~0ull; \
    __int128 A = a, B = b, r; \
    int o; \
    r = A + B; o = (__int128)(type)r != r; \
    EQ("overflow_check_add " #tag, bfdev_overflow_check_add(a, b, &d), o); EQ("wrapped sum " #tag, d, (type)r); \
    EQ("overflow_add_" #tag, bfdev_overflow_add_##tag(a, b), o ? ones : (type)r); EQ("overflow_add " #tag, bfdev_overflow_add(a, b), o ? ones : (type)r); \
    r = A - B; o = (__int128)(type)r != r; \
    EQ("overflow_check_sub " #tag, bfdev_overflow_check_sub(a, b, &d), o); EQ("wrapped difference " #tag, d, (type)r); \
    EQ("overflow_sub_" #tag, bfdev_overflow_sub_##tag(a, b), o ? ones : (type)r); EQ("overflow_sub " #tag, bfdev_overflow_sub(a, b), o ? ones : (type)r); \
    if (sizeof(type) == 8 && (type)~0ull > 0) { \
        unsigned __int128 u = (unsigned __int128)(uint64_t)a * (uint64_t)b; \
        o = u >> 64 != 0; r = (__int128)(uint64_t)u; \
    } else { r = A * B; o = (__int128)(type)r != r; } \
    EQ("overflow_check_mul " #tag, bfdev_overflow_check_mul(a, b, &d), o); EQ("wrapped product " #tag, d, (type)r); \
    EQ("overflow_mul_" #tag, bfdev_overflow_mul_##tag(a, b), o ? ones : (type)r); EQ("overflow_mul " #tag, bfdev_overflow_mul(a, b), o ? ones : (type)r); \
    EQ("min " #tag, bfdev_min(a, b), a < b ? a : b); EQ("max " #tag, bfdev_max(a, b), a > b ? a : b); \
    d = a; bfdev_min_adj(d, b); EQ("min_adj " #tag, d, a < b ? a : b); \
    d = a; bfdev_max_adj(d, b); EQ("max_adj " #tag, d, a > b ? a : b); \
    d = a; bfdev_clamp_adj(d, (type)1, (type)100); EQ("clamp_adj " #tag, d, a < 1 ? 1 : a > 100 ? 100 : a); \
    if (a <= b) { unsigned k; for (k = 0; k < MC_ARRAY_SIZE(edges); k += 3) { type v = (type)edges[k]; EQ("clamp " #tag, bfdev_clamp(v, a, b), v < a ? a : v > b ? b : v); } } \
}
OV(s8, int8_t) OV(s16, int16_t) OV(s32, int32_t) OV(s64, int64_t) OV(u8, uint8_t) OV(u16, uint16_t) OV(u32, uint32_t) OV(u64, uint64_t)

static void s_overflow8(void)
{
    unsigned a = mc_choose(256), b = mc_choose(256);

    cur = a << 8 | b;
    mc_case(cur);
    mc_step("8 bit pair %u, %u", a, b);
    ov_s8(a, b);
    ov_u8(a, b);
}

static void s_overflow(void)
{
    uint64_t a = edges[mc_choose(MC_ARRAY_SIZE(edges))], b = edges[mc_choose(MC_ARRAY_SIZE(edges))];

    cur = a;
    mc_case(mc_mix(a, b));
    mc_step("pair 0x%llx, 0x%llx", (unsigned long long)a, (unsigned long long)b);
    ov_s16(a, b);
    ov_s32(a, b);
    ov_s64(a, b);
    ov_u16(a, b);
    ov_u32(a, b);
    ov_u64(a, b);
}

/* rounding and alignment */
static void s_round(void)
{
    unsigned x = mc_choose(520), y = 1 + mc_choose(70), base = mc_choose(3);
    uint64_t v = base == 0 ? x : base == 1 ? 0xfffffffull * 16 - 260 + x : 0x8000000000000000ull - 260 + x;
    uint64_t up = (v + y - 1) / y * y;
    unsigned k;

    cur = v;
    mc_case(mc_mix(v, y));
    mc_step("value 0x%llx by %u", (unsigned long long)v, y);
    EQ("DIV_ROUND_UP", BFDEV_DIV_ROUND_UP(v, y), up / y);
    EQ("DIV_ROUND_CLOSEST unsigned", BFDEV_DIV_ROUND_CLOSEST(v, (uint64_t)y), (v + y / 2) / y);
    if (!base) {
        int sx = (int)x - 260, sy = y, q;

        for (k = 0; k < 2; k++, sy = -sy) {
            int dist, m = sx < 0 ? -sx : sx, n = sy < 0 ? -sy : sy;

            q = BFDEV_DIV_ROUND_CLOSEST(sx, sy);
            dist = (sx < 0) == (sy < 0) ? m - q * n : m + q * n;
            mc_assert(2 * dist <= n && 2 * dist >= -n, "DIV_ROUND_CLOSEST(%d, %d) is %d", sx, sy, q);
        }
        EQ("DIV_ROUND_UP of ints", BFDEV_DIV_ROUND_UP((int)x, (int)y), up / y);
    }
    if (y & (y - 1))
        return;
    EQ("round_up", bfdev_round_up(v, y), up);
    EQ("round_down", bfdev_round_down(v, y), v / y * y);
    EQ("align_check", bfdev_align_check(v, (uint64_t)y), v % y == 0);
    EQ("align_low", bfdev_align_low(v, (uint64_t)y), v / y * y);
    EQ("align_high", bfdev_align_high(v, (uint64_t)y), up);
    EQ("align_low with an int", bfdev_align_low(v, (int)y), v / y * y);
    EQ("align_high with an int", bfdev_align_high(v, (int)y), up);
    EQ("align_ptr_check", bfdev_align_ptr_check((char *)v, (uint64_t)y), v % y == 0);
    EQ("align_ptr_low", (uint64_t)bfdev_align_ptr_low((char *)v, (uint64_t)y), v / y * y);
    EQ("align_ptr_high", (uint64_t)bfdev_align_ptr_high((char *)v, (uint64_t)y), up);
    {
        uint64_t a = v;
        char *p = (char *)v;

        bfdev_align_low_adj(a, (uint64_t)y);
        EQ("align_low_adj", a, v / y * y);
        a = v;
        bfdev_align_high_adj(a, (uint64_t)y);
        EQ("align_high_adj", a, up);
        bfdev_align_ptr_low_adj(p, (uint64_t)y);
        EQ("align_ptr_low_adj", (uint64_t)p, v / y * y);
        p = (char *)v;
        bfdev_align_ptr_high_adj(p, (uint64_t)y);
        EQ("align_ptr_high_adj", (uint64_t)p, up);
    }
    if (!base) {
        EQ("BITS_TO_U8", BFDEV_BITS_TO_U8(v), (v + 7) / 8);
        EQ("BITS_TO_U16", BFDEV_BITS_TO_U16(v), (v + 15) / 16);
        EQ("BITS_TO_U32", BFDEV_BITS_TO_U32(v), (v + 31) / 32);
        EQ("BITS_TO_U64", BFDEV_BITS_TO_U64(v), (v + 63) / 64);
        EQ("BITS_TO_LONG", BFDEV_BITS_TO_LONG(v), (v + 63) / 64);
        EQ("BITS_TO_INT", BFDEV_BITS_TO_INT(v), (v + 31) / 32);
        EQ("BITS_TO_SHORT", BFDEV_BITS_TO_SHORT(v), (v + 15) / 16);
        EQ("BITS_TO_CHAR", BFDEV_BITS_TO_CHAR(v), (v + 7) / 8);
        EQ("BITS_DIV_LONG", BFDEV_BITS_DIV_LONG(v), v / 64);
        EQ("BITS_MOD_LONG", BFDEV_BITS_MOD_LONG(v), v % 64);
        EQ("BITS_DIV_U8", BFDEV_BITS_DIV_U8(v), v / 8);
        EQ("BITS_MOD_U8", BFDEV_BITS_MOD_U8(v), v % 8);
        EQ("BITS_DIV_U16", BFDEV_BITS_DIV_U16(v), v / 16);
        EQ("BITS_MOD_U16", BFDEV_BITS_MOD_U16(v), v % 16);
        EQ("BITS_DIV_U32", BFDEV_BITS_DIV_U32(v), v / 32);
        EQ("BITS_MOD_U32", BFDEV_BITS_MOD_U32(v), v % 32);
#define DIVMOD(type, bits) EQ("BITS_DIV_" #type, BFDEV_BITS_DIV_##type(v), v / bits); EQ("BITS_MOD_" #type, BFDEV_BITS_MOD_##type(v), v % bits);
        DIVMOD(U64, 64) DIVMOD(CHAR, 8) DIVMOD(SHORT, 16) DIVMOD(INT, 32) DIVMOD(LONG_LONG, 64)
        EQ("BITS_TO_LONG_LONG", BFDEV_BITS_TO_LONG_LONG(v), (v + 63) / 64);
        EQ("BITS_WORD", BFDEV_BITS_WORD(v), v / 64);
    }
}

/* memory images: unaligned accessors and byte order, at every offset */
static void s_memory(void)
{
    static const uint64_t vals[] = { 0, 1, 0x80, 0xff, 0x100, 0x8000, 0x0123456789abcdefull, 0xfedcba9876543210ull, ~0ull, 0x8000000000000000ull, 0x00ff00ff00ff00ffull };
    unsigned off = mc_choose(9), i, k;
    uint64_t v = vals[mc_choose(MC_ARRAY_SIZE(vals))];
    uint8_t img[24], want[24], *p = img + off;

    cur = v;
    mc_case(mc_mix(v, off));
    mc_step("value 0x%llx at offset %u", (unsigned long long)v, off);
#define IMG(bytes, be) do { memset(img, 0xee, sizeof(img)); memset(want, 0xee, sizeof(want)); \
    for (i = 0; i < bytes; i++) want[off + i] = v >> (8 * (be ? bytes - 1 - i : i)); } while (0)
#define IS(what) mc_assert(!memcmp(img, want, sizeof(img)), "%s(0x%llx) at offset %u wrote the wrong bytes", what, (unsigned long long)v, off)
#define ACC(name, bytes, be, type) \
    IMG(bytes, be); bfdev_unaligned_set_##name(p, (type)v); IS("unaligned_set_" #name); \
    EQ("unaligned_get_" #name, bfdev_unaligned_get_##name(p), (type)v);
    ACC(le16, 2, 0, uint16_t) ACC(le32, 4, 0, uint32_t) ACC(le64, 8, 0, uint64_t)
    ACC(be16, 2, 1, uint16_t) ACC(be32, 4, 1, uint32_t) ACC(be64, 8, 1, uint64_t)
    ACC(u16, 2, 0, uint16_t) ACC(u32, 4, 0, uint32_t) ACC(u64, 8, 0, uint64_t)
    ACC(uint, 4, 0, unsigned int) ACC(ulong, 8, 0, unsigned long)
#define ORDER(w, bytes) { \
    uint##w##_t x = v, y, arr[3], out[3]; \
    uint8_t le[bytes], be[bytes]; \
    for (k = 0; k < bytes; k++) { le[k] = x >> (8 * k); be[k] = x >> (8 * (bytes - 1 - k)); } \
    y = bfdev_cpu_to_le##w(x); EQ("cpu_to_le" #w, memcmp(&y, le, bytes), 0); EQ("le" #w "_to_cpu", bfdev_le##w##_to_cpu(y), x); \
    EQ("le" #w "_to_cpup", bfdev_le##w##_to_cpup(&y), x); y = bfdev_cpu_to_le##w##p(&x); EQ("cpu_to_le" #w "p", memcmp(&y, le, bytes), 0); \
    y = bfdev_cpu_to_le##w##_const(x); EQ("cpu_to_le" #w "_const", memcmp(&y, le, bytes), 0); EQ("le" #w "_to_cpu_const", bfdev_le##w##_to_cpu_const(y), x); \
    y = x; bfdev_cpu_to_le##w##s(&y); EQ("cpu_to_le" #w "s", memcmp(&y, le, bytes), 0); bfdev_le##w##_to_cpus(&y); EQ("le" #w "_to_cpus", y, x); \
    y = bfdev_cpu_to_be##w(x); EQ("cpu_to_be" #w, memcmp(&y, be, bytes), 0); EQ("be" #w "_to_cpu", bfdev_be##w##_to_cpu(y), x); \
    EQ("be" #w "_to_cpup", bfdev_be##w##_to_cpup(&y), x); y = bfdev_cpu_to_be##w##p(&x); EQ("cpu_to_be" #w "p", memcmp(&y, be, bytes), 0); \
    y = bfdev_cpu_to_be##w##_const(x); EQ("cpu_to_be" #w "_const", memcmp(&y, be, bytes), 0); EQ("be" #w "_to_cpu_const", bfdev_be##w##_to_cpu_const(y), x); \
    y = x; bfdev_cpu_to_be##w##s(&y); EQ("cpu_to_be" #w "s", memcmp(&y, be, bytes), 0); bfdev_be##w##_to_cpus(&y); EQ("be" #w "_to_cpus", y, x); \
    arr[0] = x; arr[1] = ~x; arr[2] = x + 1; memset(out, 0, sizeof(out)); \
    bfdev_cpu_to_le##w##_array(out, arr, 2); EQ("cpu_to_le" #w "_array", out[0] == arr[0] && out[1] == arr[1] && !out[2], 1); \
    memset(out, 0, sizeof(out)); bfdev_le##w##_to_cpu_array(out, arr, 2); EQ("le" #w "_to_cpu_array", out[0] == arr[0] && out[1] == arr[1] && !out[2], 1); \
    bfdev_swab##w##_array(arr, 2); \
    EQ("swab" #w "_array", arr[0] == (uint##w##_t)ref_group(x, w, 8, w) && arr[1] == (uint##w##_t)ref_group((uint##w##_t)~x, w, 8, w) && arr[2] == (uint##w##_t)(x + 1), 1); }
    ORDER(16, 2) ORDER(32, 4) ORDER(64, 8)
    EQ("cpu_to_le_long", bfdev_cpu_to_le_long(v), v);
    EQ("cpu_to_be_long", bfdev_cpu_to_be_long(v), ref_group(v, 64, 8, 64));
    EQ("le_long_to_cpu", bfdev_le_long_to_cpu(v), v);
    EQ("be_long_to_cpu", bfdev_be_long_to_cpu(v), ref_group(v, 64, 8, 64));
    {
        unsigned long arr[2] = { v, ~v };

        unsigned long out[3] = { 7, 7, 7 };
        bfdev_cpu_to_le_long_array(out + 1, arr, 1);
        EQ("cpu_to_le_long_array", out[0] == 7 && out[1] == v && out[2] == 7, 1);
        bfdev_le_long_to_cpu_array(out, arr, 2);
        EQ("le_long_to_cpu_array", out[0] == v && out[1] == ~v && out[2] == 7, 1);
        bfdev_swab_array(arr, 1);
        EQ("swab_array", arr[0] == ref_group(v, 64, 8, 64) && arr[1] == ~v, 1);
    }
}

static void s_misc(void)
{
    unsigned i = mc_choose(256), bits;
    uint64_t v;
    int valid;
    volatile uint8_t rt = i;

    cur = i;
    mc_case(i);
    mc_step("value %u", i);
    if ((i >> 4) < 10 && (i & 15) < 10) {
        EQ("bcd2bin", bfdev_bcd2bin(rt), (i >> 4) * 10 + (i & 15));
        EQ("bcd2bin_const", bfdev_bcd2bin_const(i), (i >> 4) * 10 + (i & 15));
    }
    if (i < 100) {
        EQ("bin2bcd", bfdev_bin2bcd(rt), i / 10 * 16 + i % 10);
        EQ("bin2bcd_const", bfdev_bin2bcd_const(i), i / 10 * 16 + i % 10);
    }
    v = cur = value_of(i * 47 % NVALUE, &valid);
    for (bits = 1; bits <= 64; bits++) {
        uint64_t h = (v * 7046029254386353131ull) >> (64 - bits);

        EQ("hash64", bfdev_hash64(v, bits), h);
        EQ("hashl", bfdev_hashl(v, bits), h);
        if (bits <= 32)
            EQ("hash32", bfdev_hash32(v, bits), (uint32_t)((uint32_t)v * 1640531527u) >> (32 - bits));
    }
}

const mc_scenario_t mc_scenarios[] = {
    { "words", s_words, { 0, 1 }, 0, 1 },
    { "small", s_small, { 0, 0 }, 0, 1 },
    { "literals", s_literals, { 0, 0 }, 0, 1 },
    { "rotate", s_rotate, { 0, 0 }, 0, 1 },
    { "bits", s_bits, { 0, 0 }, 0, 1 },
    { "fields", s_fields, { 0, 0 }, 0, 1 },
    { "overflow8", s_overflow8, { 0, 0 }, 0, 1 },
    { "overflow", s_overflow, { 0, 0 }, 0, 1 },
    { "round", s_round, { 0, 0 }, 0, 1 },
    { "memory", s_memory, { 0, 0 }, 0, 1 },
    { "misc", s_misc, { 0, 0 }, 0, 1 },
    { NULL }
};
