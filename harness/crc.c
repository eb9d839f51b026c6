/*
 * Every CRC against a bit at a time division by its polynomial, in the table and the
 * extended configuration.
 */
#include "mc.h"
#include <bfdev/crc.h>

typedef struct { const char *name; int bits; bool reflected; uint64_t poly; int shift; } crc_t;
static const crc_t crcs[] = {
    { "crc7", 7, false, 0x09, 1 },      /* the register is kept in the upper bits of the byte */
    { "crc8", 8, false, 0x07 },
    { "crc16", 16, true, 0xa001 },
    { "crc32", 32, true, 0xedb88320 },
    { "crc64", 64, false, 0x42f0e1eba9ea3693 },
    { "crc_ccitt", 16, true, 0x8408 },
    { "crc_itut", 16, false, 0x1021 },
    { "crc_t10dif", 16, false, 0x8bb7 },
    { "crc_rocksoft", 64, true, 0x9a6c9329ac4bc9b5 },
};
#define NCRC MC_ARRAY_SIZE(crcs)

static uint64_t lib(int k, const void *p, size_t n, uint64_t crc)
{
    switch (k) {
    case 0: return bfdev_crc7(p, n, crc);
    case 1: return bfdev_crc8(p, n, crc);
    case 2: return bfdev_crc16(p, n, crc);
    case 3: return bfdev_crc32(p, n, crc);
    case 4: return bfdev_crc64(p, n, crc);
    case 5: return bfdev_crc_ccitt(p, n, crc);
    case 6: return bfdev_crc_itut(p, n, crc);
    case 7: return bfdev_crc_t10dif(p, n, crc);
    default: return bfdev_crc_rocksoft(p, n, crc);
    }
}

static uint64_t ref(int k, const uint8_t *p, size_t n, uint64_t crc)
{
    const crc_t *c = &crcs[k];
    uint64_t mask = c->bits == 64 ? ~0UL : (1UL << c->bits) - 1;
    size_t i;

    crc >>= c->shift;
    for (i = 0; i < n * 8; i++) {
        bool in, out;

        if (c->reflected) {
            in = p[i / 8] >> i % 8 & 1;
            out = crc & 1;
            crc >>= 1;
        } else {
            in = p[i / 8] >> (7 - i % 8) & 1;
            out = crc >> (c->bits - 1) & 1;
            crc = crc << 1 & mask;
        }
        if (in != out)
            crc ^= c->poly;
    }
    return crc << c->shift;
}

static uint64_t start(int k, int i)
{
    static const uint64_t v[] = { 0, ~0UL, 1, 1UL << 63, 0x8000, 0x80000000UL, 0x100000000UL, 0x123456789abcdef0UL, 0xffffffff00000000UL, 0x80, 0x02 };
    const crc_t *c = &crcs[k];
    uint64_t mask = c->bits == 64 ? ~0UL : (1UL << c->bits) - 1;

    return (v[i] & mask) << c->shift;
}
#define NSTART 11

/* every initial value of the narrow ones, every byte */
static void s_single(void)
{
    int k = mc_choose(NCRC), b, part = mc_choose(16);
    unsigned long i, n = crcs[k].bits >= 16 ? 65536 : 1UL << crcs[k].bits;
    const int step = n == 65536 ? mc_bound : 1;
    uint8_t d;

    mc_step("%s of one byte", crcs[k].name);
    for (i = part; i < n; i += 16)
        for (b = i / 16 % step; b < 256; b += step) {
            uint64_t crc = i << crcs[k].shift, want;

            d = b;
            if (crcs[k].bits > 16 && i & 1)
                crc = crc * 0x0001000100010001UL & (crcs[k].bits == 32 ? 0xffffffffUL : ~0UL);
            want = ref(k, &d, 1, crc);
            mc_assert(lib(k, &d, 1, crc) == want, "%s of byte %#x from %#lx is %#lx, expected %#lx", crcs[k].name, b, crc, lib(k, &d, 1, crc), want);
            mc_case(mc_mix(mc_mix(k, i), b));
        }
}

static void fill(uint8_t *m, int n, int kind)
{
    int i;

    for (i = 0; i < n; i++)
        m[i] = kind == 0 ? 0 : kind == 1 ? 0xff : kind == 2 ? i * 37 + 11 + (i >> 2) * 101 : kind == 3 ? (i == 0) << 7 : i == n - 1;
}

/* every length, alignment and split */
static void s_lengths(void)
{
    int k = mc_choose(NCRC), align = mc_choose(8), n = mc_choose(mc_bound + 1), cut, s, kind;
    uint8_t m[128], *p = mc_malloc(align + n ?: 1);

    mc_step("%s of %d bytes, misaligned by %d", crcs[k].name, n, align);
    for (kind = 0; kind < 5; kind++)
        for (s = 0; s < NSTART; s++) {
            uint64_t crc = start(k, s), want, got;

            fill(m, n, kind);
            memcpy(p + align, m, n);
            want = ref(k, m, n, crc);
            got = lib(k, p + align, n, crc);
            mc_assert(got == want, "%s of %d bytes (pattern %d, misaligned by %d) from %#lx is %#lx, expected %#lx", crcs[k].name, n, kind, align, crc, got, want);
            mc_assert(!memcmp(p + align, m, n), "%s changes the data", crcs[k].name);
            for (cut = 0; cut <= n; cut++) {
                got = lib(k, p + align + cut, n - cut, lib(k, p + align, cut, crc));
                mc_assert(got == want, "%s of %d bytes (pattern %d, misaligned by %d) split after %d is %#lx, expected %#lx", crcs[k].name, n, kind, align, cut, got, want);
            }
            mc_case(mc_mix(mc_mix(k, align * 200 + n), kind * 100 + s));
        }
    mc_free(p);
}

/* every bit of the message: every table entry in every position */
static void s_bits(void)
{
    int k = mc_choose(NCRC), i, v, n = mc_bound;
    uint8_t m[64] __attribute__((aligned(8)));

    mc_step("%s with one byte set", crcs[k].name);
    for (i = 0; i < n; i++)
        for (v = 0; v < 256; v++) {
            uint64_t got, want;

            memset(m, 0, n);
            m[i] = v;
            want = ref(k, m, n, 0);
            got = lib(k, m, n, 0);
            mc_assert(got == want, "%s of %d bytes, all zero but byte %d = %#x, is %#lx, expected %#lx", crcs[k].name, n, i, v, got, want);
            mc_case(mc_mix(mc_mix(k, i), v));
        }
}

/* crc4: four bits at a time, high nibble first; an incomplete last byte counts as a byte holding only its low bits */
static void s_crc4(void)
{
    int bits = mc_choose(mc_bound + 1), kind, crc, n = (bits + 7) / 8, i, b, cut;
    uint8_t m[64], *p = mc_malloc(n ?: 1);

    mc_step("crc4 of %d bits", bits);
    for (kind = 0; kind < 5; kind++)
        for (crc = 0; crc < 16; crc++) {
            uint8_t want = crc, got;

            fill(m, n, kind);
            memcpy(p, m, n);
            if (bits % 8)
                m[n - 1] &= (1 << bits % 8) - 1;
            for (i = 0; i < n; i++)
                for (b = 7; b >= 0; b--) {
                    bool top = (want >> 3 & 1) != (m[i] >> b & 1);

                    want = want << 1 & 0xf;
                    if (top)
                        want ^= 0x7;
                }
            got = bfdev_crc4(p, bits, crc);
            mc_assert(got == want, "crc4 of %d bits (pattern %d) from %#x is %#x, expected %#x", bits, kind, crc, got, want);
            for (cut = 0; cut <= bits; cut += 8) {
                got = bfdev_crc4(p + cut / 8, bits - cut, bfdev_crc4(p, cut, crc));
                mc_assert(got == want, "crc4 of %d bits split after %d is %#x, expected %#x", bits, cut, got, want);
            }
            mc_case(mc_mix(mc_mix(bits, kind), crc));
        }
    if (bits == 8)
        for (i = 0; i < 256; i++)
            for (crc = 0; crc < 16; crc++) {
                uint8_t want = crc, d = i;

                for (b = 7; b >= 0; b--) {
                    bool top = (want >> 3 & 1) != (i >> b & 1);

                    want = want << 1 & 0xf;
                    if (top)
                        want ^= 0x7;
                }
                mc_assert(bfdev_crc4(&d, 8, crc) == want, "crc4 of byte %#x from %#x", i, crc);
                mc_case(mc_mix(crc, 1000 + i));
            }
    mc_free(p);
}

/* catalogue check values of "123456789": the references are the published algorithms */
static void s_catalogue(void)
{
    static const struct { int k; uint64_t init, xor, check; } cat[] = {
        { 0, 0, 0, 0x75 << 1 },                 /* CRC-7/MMC */
        { 1, 0, 0, 0xf4 },                      /* CRC-8/SMBUS */
        { 2, 0, 0, 0xbb3d },                    /* CRC-16/ARC */
        { 3, 0xffffffff, 0xffffffff, 0xcbf43926 },
        { 4, 0, 0, 0x6c40df5f0b497347 },        /* CRC-64/ECMA-182 */
        { 5, 0, 0, 0x2189 },                    /* CRC-16/KERMIT */
        { 6, 0, 0, 0x31c3 },                    /* CRC-16/XMODEM */
        { 7, 0, 0, 0xd0db },                    /* CRC-16/T10-DIF */
        { 8, ~0UL, ~0UL, 0xae8b14860a799888 },  /* CRC-64/NVME */
    };
    int i = mc_choose(MC_ARRAY_SIZE(cat));
    uint64_t got = lib(cat[i].k, "123456789", 9, cat[i].init) ^ cat[i].xor;

    mc_case(i);
    mc_assert(got == cat[i].check, "%s of \"123456789\" is %#lx, the catalogue says %#lx", crcs[cat[i].k].name, got, cat[i].check);
    mc_assert((ref(cat[i].k, (const uint8_t *)"123456789", 9, cat[i].init) ^ cat[i].xor) == cat[i].check, "reference");
}

/* lengths around 2^8, 2^12 and 2^16, in one call and in two */
static void s_large(void)
{
    static const int sizes[] = { 127, 128, 129, 255, 256, 257, 511, 512, 513, 4095, 4096, 4097, 32767, 32768, 65535, 65536, 65537, 70001 };
    int k = mc_choose(NCRC + 1), n = sizes[mc_choose(MC_ARRAY_SIZE(sizes))], align = mc_choose(2), kind, s, c, i, b;
    uint8_t *m = mc_malloc(n), *p = mc_malloc(n + align);

    mc_step("%s of %d bytes, misaligned by %d", k == NCRC ? "crc4" : crcs[k].name, n, align);
    for (kind = 0; kind < 5; kind++) {
        const int cuts[] = { 1, 255, 256, 257, 4096, 65535, 65536, 65537, n / 2, n - 256, n - 1 };

        fill(m, n, kind);
        memcpy(p + align, m, n);
        if (k == NCRC) {
            uint8_t want = kind * 3, got;

            for (i = 0; i < n; i++)
                for (b = 7; b >= 0; b--) {
                    bool top = (want >> 3 & 1) != (m[i] >> b & 1);

                    want = want << 1 & 0xf;
                    if (top)
                        want ^= 0x7;
                }
            got = bfdev_crc4(p + align, n * 8L, kind * 3);
            mc_assert(got == want, "crc4 of %d bytes (pattern %d) is %#x, expected %#x", n, kind, got, want);
            mc_case(mc_mix(n, kind));
            continue;
        }
        for (s = 0; s < (n < 5000 ? 4 : 1); s++) {
            uint64_t crc = start(k, kind + s), want, got;

            want = ref(k, m, n, crc);
            got = lib(k, p + align, n, crc);
            mc_assert(got == want, "%s of %d bytes (pattern %d) from %#lx is %#lx, expected %#lx", crcs[k].name, n, kind, crc, got, want);
            for (c = 0; c < MC_ARRAY_SIZE(cuts); c++) {
                if (cuts[c] < 0 || cuts[c] > n)
                    continue;
                got = lib(k, p + align + cuts[c], n - cuts[c], lib(k, p + align, cuts[c], crc));
                mc_assert(got == want, "%s of %d bytes (pattern %d) split after %d is %#lx, expected %#lx", crcs[k].name, n, kind, cuts[c], got, want);
            }
            mc_case(mc_mix(mc_mix(k, n), kind * 100 + s));
        }
    }
    mc_free(m);
    mc_free(p);
}

const mc_scenario_t mc_scenarios[] = {
    { "catalogue", s_catalogue, { 1, 1 }, 0, 1 },
    { "one byte from every state", s_single, { 32, 1 }, 0, 2 },
    { "lengths, alignments and splits", s_lengths, { 40, 80 }, 0, 3 },
    { "every byte at every position", s_bits, { 40, 64 }, 0, 1 },
    { "large", s_large, { 0, 0 }, 0, 3 },
    { "crc4", s_crc4, { 150, 300 }, 0, 1 },
    { NULL }
};
