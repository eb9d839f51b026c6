/*
 * Hash functions against independent definitions: Jenkins' lookup3 (byte at a time), the
 * 32 bit PJW hash, and multiplication by the golden ratio.
 */
#include "mc.h"
#include <bfdev/jhash.h>
#include <bfdev/stringhash.h>
#include <bfdev/hash.h>
#include <bfdev/hashtbl.h>

static uint32_t rot(uint32_t x, int k) { return x << k | x >> (32 - k); }

/* lookup3 hashlittle, from the published description */
static uint32_t ref_jhash(const unsigned char *k, size_t length, uint32_t init)
{
    static const signed char mix[6][2] = { { 0, 4 }, { 1, 6 }, { 2, 8 }, { 0, 16 }, { 1, 19 }, { 2, 4 } };
    static const signed char fin[7][2] = { { 2, 14 }, { 0, 11 }, { 1, 25 }, { 2, 16 }, { 0, 4 }, { 1, 14 }, { 2, 24 } };
    uint32_t s[3];
    size_t i, rest = length;
    int r;

    s[0] = s[1] = s[2] = 0xdeadbeef + (uint32_t)length + init;
    while (rest > 12) {
        for (i = 0; i < 12; i++)
            s[i / 4] += (uint32_t)k[i] << 8 * (i % 4);
        for (r = 0; r < 6; r++) {
            int x = mix[r][0], y = (x + 1) % 3, z = (x + 2) % 3;

            s[x] -= s[z];
            s[x] ^= rot(s[z], mix[r][1]);
            s[z] += s[y];
        }
        k += 12;
        rest -= 12;
    }
    if (!rest)
        return s[2];
    for (i = 0; i < rest; i++)
        s[i / 4] += (uint32_t)k[i] << 8 * (i % 4);
    for (r = 0; r < 7; r++) {
        int x = fin[r][0], y = (x + 2) % 3;

        s[x] ^= s[y];
        s[x] -= rot(s[y], fin[r][1]);
    }
    return s[2];
}

static const uint32_t inits[] = { 0, 1, 0xffffffff, 0x80000000, 0xdeadbeef, 0x21524111, 0x12345678 };

static void s_jhash(void)
{
    int len = mc_choose(mc_bound + 1), align = mc_choose(8), kind = mc_choose(6), i;
    uint32_t init = inits[mc_choose(MC_ARRAY_SIZE(inits))], got, want;
    unsigned char *block = mc_buffer(len + align), *k = block + align;

    for (i = 0; i < len; i++)
        k[i] = kind == 0 ? 0 : kind == 1 ? 0xff : kind == 2 ? i : kind == 3 ? 0x80 + i * 37 : kind == 4 ? (i == len - 1) << 7 : !i;
    want = ref_jhash(k, len, init);
    got = bfdev_jhash(k, len, init);
    mc_step("jhash of %d bytes (kind %d, alignment %d), init %#x -> %#x", len, kind, align, init, got);
    mc_case(mc_mix(mc_mix(mc_mix_bytes(init, k, len), len), align));
    mc_assert(got == want, "the hash is %#x, not %#x", got, want);
}

/* every value of every pair of bytes of one block */
static void s_bytes(void)
{
    int len = 1 + mc_choose(26), at = mc_choose(len), v = mc_choose(256);
    unsigned char *k = mc_buffer(len);
    uint32_t got;

    memset(k, 0x5a, len);
    k[at] = v;
    got = bfdev_jhash(k, len, 7);
    mc_step("jhash of %d bytes, byte %d is %#x -> %#x", len, at, v, got);
    mc_case(mc_mix(len * 64 + at, v));
    mc_assert(got == ref_jhash(k, len, 7), "the hash is %#x, not %#x", got, ref_jhash(k, len, 7));
}

static void s_vectors(void)
{
    static const struct { const char *s; uint32_t init, want; } v[] = {
        { "", 0, 0xdeadbeef }, { "", 0xdeadbeef, 0xbd5b7dde },
        { "Four score and seven years ago", 0, 0x17770551 }, { "Four score and seven years ago", 1, 0xcd628161 },
    };
    int i = mc_choose(MC_ARRAY_SIZE(v));
    uint32_t got = bfdev_jhash(v[i].s, strlen(v[i].s), v[i].init);

    mc_step("jhash \"%s\" %#x -> %#x", v[i].s, v[i].init, got);
    mc_case(i);
    mc_assert(got == v[i].want, "the published hash is %#x", v[i].want);
    mc_assert(ref_jhash((const unsigned char *)v[i].s, strlen(v[i].s), v[i].init) == v[i].want, "the oracle is wrong");
}

static uint32_t ref_pjw(const unsigned char *s, int n)
{
    uint32_t h = 0, g;
    int i;

    for (i = 0; i < n; i++) {
        h = (uint32_t)(h << 4) + s[i];
        g = h >> 28;
        h = (h & 0x0fffffff) ^ g << 4;
    }
    return h;
}

static void pjw(const unsigned char *s, int n)
{
    unsigned long got = bfdev_pjwhash((const char *)s), want = ref_pjw(s, n);

    mc_step("pjwhash of %d characters -> %#lx", n, got);
    mc_case(mc_mix_bytes(n, s, n));
    mc_assert(got == want, "the hash is %#lx, not %#lx", got, want);
}

static const unsigned char letters[] = { 'a', 0xff, 1, 0x7f, 0x80, 0x10, 'z', 0xf0 };

static void s_short(void)
{
    int n = mc_choose(mc_bound + 1), i;
    unsigned char *s = mc_buffer(n + 1);

    for (i = 0; i < n; i++)
        s[i] = letters[mc_choose(mc_arg)];
    s[n] = 0;
    pjw(s, n);
}

static void s_long(void)
{
    int n = mc_choose(mc_bound + 1), kind = mc_choose(MC_ARRAY_SIZE(letters) + 2), i;
    unsigned char *s = mc_buffer(n + 1);

    for (i = 0; i < n; i++)
        s[i] = kind < (int)MC_ARRAY_SIZE(letters) ? letters[kind] : kind == 8 ? 1 + i * 7 % 255 : 255 - i * 11 % 255;
    s[n] = 0;
    pjw(s, n);
}

static const uint64_t words[] = {
    0, 1, 2, 3, 0x7f, 0xff, 0x100, 0x7fffffff, 0x80000000, 0xffffffff, 0x100000000, 0x61c88647, 0x61c8864680b583eb,
    0x7fffffffffffffff, 0x8000000000000000, 0xffffffffffffffff, 0xfffffffffffffffe, 0x123456789abcdef0, 0xaaaaaaaaaaaaaaaa, 0x5555555555555555,
};

static void ints(uint64_t w, unsigned bits)
{
    uint64_t p = w * 0x61c8864680b583ebull;
    uint32_t q = (uint32_t)w * 0x61c88647u;

    mc_case(mc_mix(w, bits));
    mc_assert(bfdev_hashv64(w) == p, "hashv64 of %#lx is %#lx, not %#lx", w, bfdev_hashv64(w), p);
    mc_assert(bfdev_hashv32(w) == q, "hashv32 of %#lx is %#x, not %#x", w, bfdev_hashv32(w), q);
    mc_assert(bfdev_hashvl(w) == p, "hashvl of %#lx is %#lx, not %#lx", w, (uint64_t)bfdev_hashvl(w), p);
    mc_assert(bfdev_hash64(w, bits) == p >> (64 - bits), "hash64 of %#lx in %u bits is %#lx", w, bits, bfdev_hash64(w, bits));
    mc_assert(bfdev_hashl(w, bits) == p >> (64 - bits), "hashl of %#lx in %u bits is %#lx", w, bits, (uint64_t)bfdev_hashl(w, bits));
    if (bits <= 32)
        mc_assert(bfdev_hash32(w, bits) == q >> (32 - bits), "hash32 of %#lx in %u bits is %#x", w, bits, bfdev_hash32(w, bits));
    if (bits < 64)
        mc_assert(bfdev_hashtbl_index(1ul << bits, w) < 1ul << bits, "the index of %#lx in a table of 2^%u is %#lx", w, bits, bfdev_hashtbl_index(1ul << bits, w));
}

static void s_ints(void)
{
    uint64_t w = words[mc_choose(MC_ARRAY_SIZE(words))];
    unsigned bits = 1 + mc_choose(64);

    mc_step("hash of %#lx in %u bits", w, bits);
    ints(w, bits);
}

/* every small word, and every word with one or two bits */
static void s_words(void)
{
    unsigned bits = 1 + mc_choose(64);
    int a, b;
    uint64_t w;

    mc_step("hashes in %u bits", bits);
    for (w = 0; w < (uint64_t)mc_bound; w++)
        ints(w, bits);
    for (a = 0; a < 64; a++)
        for (b = 0; b <= a; b++)
            ints(1ull << a | 1ull << b, bits);
}

/* lengths around 2^8, 2^12 and 2^16 */
static void s_large(void)
{
    static const int lens[] = { 255, 256, 257, 511, 512, 513, 1023, 1024, 1025, 4095, 4096, 4097, 32767, 32768, 65535, 65536, 65537, 70001, 131072, 200003 };
    int n = lens[mc_choose(MC_ARRAY_SIZE(lens))], kind = mc_choose(6), align = mc_choose(2), i;
    uint32_t init = inits[mc_choose(3)], got, want;
    unsigned char *block = mc_buffer(n + align + 1), *k = block + align;

    for (i = 0; i < n; i++)
        k[i] = kind == 0 ? 1 : kind == 1 ? 0xff : kind == 2 ? 1 + i % 255 : kind == 3 ? 0x80 : kind == 4 ? 1 + (i * 2654435761u >> 24) % 255 : i == n - 1 ? 'z' : 'a';
    k[n] = 0;
    want = ref_jhash(k, n, init);
    got = bfdev_jhash(k, n, init);
    mc_step("jhash of %d bytes (kind %d), init %#x -> %#x", n, kind, init, got);
    mc_assert(got == want, "the hash is %#x, not %#x", got, want);
    if (!init)
        pjw(k, n);
    mc_case(mc_mix(mc_mix(n, kind), init));
}

const mc_scenario_t mc_scenarios[] = {
    { "jhash vectors", s_vectors, { 1, 1 }, 0, 1 },
    { "jhash", s_jhash, { 100, 400 }, 0, 1 },
    { "jhash bytes", s_bytes, { 1, 1 }, 0, 1 },
    { "pjw short", s_short, { 6, 7 }, 8, 2 },
    { "pjw long", s_long, { 300, 2000 }, 0, 1 },
    { "large", s_large, { 0, 0 }, 0, 2 },
    { "integers", s_ints, { 1, 1 }, 0, 1 },
    { "words", s_words, { 3000, 100000 }, 0, 1 },
    { NULL }
};
