/*
 * RC4 against the published algorithm for every key length and division into calls;
 * the random generator against the published recurrences for every kind of seed.
 */
#include "mc.h"
#include <bfdev/arc4.h>
#include <bfdev/prandom.h>

static void ref_rc4(const uint8_t *key, unsigned klen, uint8_t *out, unsigned n)
{
    uint8_t s[256], t;
    unsigned i, j = 0, k;

    for (i = 0; i < 256; i++)
        s[i] = i;
    for (i = 0; i < 256; i++) {
        j = (j + s[i] + key[i % klen]) % 256;
        t = s[i];
        s[i] = s[j];
        s[j] = t;
    }
    for (i = j = k = 0; k < n; k++) {
        i = (i + 1) % 256;
        j = (j + s[i]) % 256;
        t = s[i];
        s[i] = s[j];
        s[j] = t;
        out[k] = s[(s[i] + s[j]) % 256];
    }
}

static uint8_t pattern(int kind, unsigned i)
{
    return kind == 0 ? 0 : kind == 1 ? 0xff : kind == 2 ? i : kind == 3 ? i * 37 + 11 + (i >> 3) : 255 - i;
}

#define STREAM 700
static void s_keys(void)
{
    unsigned klen = 1 + mc_choose(mc_bound), i;
    int kind = mc_choose(5);
    uint8_t *key = mc_buffer(klen), want[STREAM], *out = mc_buffer(STREAM), *in = mc_buffer(STREAM);
    bfdev_arc4_ctx_t ctx, saved;

    for (i = 0; i < klen; i++)
        key[i] = pattern(kind, i);
    memset(&ctx, 0xa5, sizeof(ctx));
    bfdev_arc4_setkey(&ctx, key, klen);
    ref_rc4(key, klen, want, STREAM);
    for (i = 0; i < STREAM; i++)
        in[i] = i * 7;
    saved = ctx;
    bfdev_arc4_trans(&ctx, out, in, STREAM);
    mc_step("key of %u bytes, kind %d", klen, kind);
    for (i = 0; i < STREAM; i++) {
        mc_assert(out[i] == (want[i] ^ in[i]), "byte %u of the stream of a key of %u bytes", i, klen);
        mc_assert(in[i] == (uint8_t)(i * 7), "the source was changed");
    }
    ctx = saved;
    bfdev_arc4_trans(&ctx, out, out, STREAM);
    for (i = 0; i < STREAM; i++)
        mc_assert(out[i] == in[i], "byte %u decrypted in place", i);
    /* a key that is not one leaves the stream as it is */
    saved = ctx;
    bfdev_arc4_setkey(&ctx, key, 0);
    mc_assert(!memcmp(&saved, &ctx, sizeof(ctx)), "an empty key changed the state");
    bfdev_arc4_setkey(&ctx, key, klen);
    bfdev_arc4_trans(&ctx, out, in, 20);
    for (i = 0; i < 20; i++)
        mc_assert(out[i] == (want[i] ^ in[i]), "byte %u after keying again", i);
    mc_case(mc_mix(klen, kind));
}

/* divisions into calls of these sizes, every order; out of place and in place */
static void s_chunks(void)
{
    static const unsigned sizes[] = { 0, 1, 2, 255, 256, 257, 3, 511 };
    static const uint8_t key[] = { 1, 2, 3, 4, 5 };
    uint8_t *want = mc_malloc(mc_bound * 512), *buf;
    unsigned pos = 0, n, i;
    bfdev_arc4_ctx_t ctx;
    int k;

    ref_rc4(key, 5, want, mc_bound * 512);
    bfdev_arc4_setkey(&ctx, key, 5);
    for (k = 0; k < mc_bound; k++) {
        n = sizes[mc_choose(MC_ARRAY_SIZE(sizes))];
        buf = mc_buffer(n);
        memset(buf, 0, n);
        bfdev_arc4_trans(&ctx, buf, buf, n);
        mc_step("%u bytes", n);
        for (i = 0; i < n; i++)
            mc_assert(buf[i] == want[pos + i], "byte %u of the stream, %u of a call of %u", pos + i, i, n);
        pos += n;
    }
    mc_case(pos);
}

/* every two way split */
static void s_split(void)
{
    unsigned n = mc_choose(mc_bound + 1), cut, i;
    uint8_t want[400], out[400], in[400];
    static const uint8_t key[] = "Wiki";
    bfdev_arc4_ctx_t ctx;

    ref_rc4(key, 4, want, 400);
    for (i = 0; i < n; i++)
        in[i] = i;
    for (cut = 0; cut <= n; cut++) {
        bfdev_arc4_setkey(&ctx, key, 4);
        memset(out, 0x5a, sizeof(out));
        bfdev_arc4_trans(&ctx, out, in, cut);
        bfdev_arc4_trans(&ctx, out + cut, in + cut, n - cut);
        for (i = 0; i < n; i++)
            mc_assert(out[i] == (want[i] ^ in[i]), "byte %u of %u split after %u", i, n, cut);
        mc_assert(out[n] == 0x5a, "written past the end");
        mc_case(mc_mix(n, cut));
    }
    mc_step("splits of %u", n);
}

static void s_vectors(void)
{
    static const struct { const char *key, *text; uint8_t cipher[16]; } v[] = {
        { "Key", "Plaintext", { 0xbb, 0xf3, 0x16, 0xe8, 0xd9, 0x40, 0xaf, 0x0a, 0xd3 } },
        { "Wiki", "pedia", { 0x10, 0x21, 0xbf, 0x04, 0x20 } },
        { "Secret", "Attack at dawn", { 0x45, 0xa0, 0x1f, 0x64, 0x5f, 0xc3, 0x5b, 0x38, 0x35, 0x52, 0x54, 0x4b, 0x9b, 0xf5 } },
    };
    int i = mc_choose(3);
    uint8_t out[20];
    bfdev_arc4_ctx_t ctx;

    bfdev_arc4_setkey(&ctx, (const uint8_t *)v[i].key, strlen(v[i].key));
    bfdev_arc4_trans(&ctx, out, v[i].text, strlen(v[i].text));
    mc_step("vector %s", v[i].key);
    mc_case(i);
    mc_assert(!memcmp(out, v[i].cipher, strlen(v[i].text)), "published vector \"%s\"", v[i].key);
}

/* LFSR113 as published by L'Ecuyer, seeded as in Linux */
typedef struct { uint32_t z[4]; } lfsr_t;

static uint32_t lfsr(lfsr_t *s)
{
    uint32_t *z = s->z, b;

    b = ((z[0] << 6) ^ z[0]) >> 13;
    z[0] = ((z[0] & 4294967294U) << 18) ^ b;
    b = ((z[1] << 2) ^ z[1]) >> 27;
    z[1] = ((z[1] & 4294967288U) << 2) ^ b;
    b = ((z[2] << 13) ^ z[2]) >> 21;
    z[2] = ((z[2] & 4294967280U) << 7) ^ b;
    b = ((z[3] << 3) ^ z[3]) >> 12;
    z[3] = ((z[3] & 4294967168U) << 13) ^ b;
    return z[0] ^ z[1] ^ z[2] ^ z[3];
}

static void lfsr_seed(lfsr_t *s, uint64_t seed)
{
    static const uint32_t min[] = { 2, 8, 16, 128 };
    uint32_t v = (seed >> 32) ^ (seed << 10) ^ seed;
    int i;

    for (i = 0; i < 4; i++)
        s->z[i] = v < min[i] ? v + min[i] : v;
    for (i = 0; i < 10; i++)
        lfsr(s);
}

static void follow(bfdev_prandom_t *p, lfsr_t *s, int n, uint64_t seed)
{
    uint32_t a, b;
    int i;

    for (i = 0; i < n; i++) {
        if (i % 3 == 2) {
            uint64_t got = i & 1 ? bfdev_prandom_u64(p) : bfdev_prandom_long(p);

            a = lfsr(s);
            b = lfsr(s);
            mc_assert(got == ((uint64_t)a << 32 | b), "double value %d of seed %#lx is %#lx", i, seed, got);
        } else {
            b = bfdev_prandom_value(p);
            a = lfsr(s);
            mc_assert(a == b, "value %d of seed %#lx is %#x, expected %#x", i, seed, b, a);
        }
        mc_assert((s->z[0] > 1) && (s->z[1] > 7) && (s->z[2] > 15) && (s->z[3] > 127), "seed %#lx degenerates", seed);
    }
}

static void s_seeds(void)
{
    unsigned hi = mc_choose(128), k, form;
    bfdev_prandom_t p, q;
    lfsr_t s;

    mc_step("seeds %u", hi);
    for (k = 0; k < (unsigned)mc_bound; k++)
        for (form = 0; form < 5; form++) {
            uint64_t v = hi * mc_bound + k, seed = form == 0 ? v : form == 1 ? v << 32 : form == 2 ? v << 48 | v : form == 3 ? ~v : v << 22;

            memset(&p, form * 37, sizeof(p));
            bfdev_prandom_seed(&p, seed);
            lfsr_seed(&s, seed);
            q = p;
            follow(&p, &s, 12, seed);
            lfsr_seed(&s, seed);
            follow(&q, &s, 4, seed);        /* the state is all there is */
            mc_case(seed);
        }
}

static void s_default(void)
{
    BFDEV_DEFINE_PRANDOM(p);
    bfdev_prandom_t q, *use = mc_choose(2) ? &p : &q;
    lfsr_t s = { { 0x408c3c09, 0x408c3c09, 0x408c3c09, 0x408c3c09 } };

    bfdev_prandom_init(&q);
    follow(use, &s, mc_bound, 0);
    mc_step("default");
    mc_case(use == &p);
}

/* long streams, in calls of one size */
static void s_large(void)
{
    static const unsigned sizes[] = { 1, 255, 256, 257, 4096, 65535, 65536, 65537, 200003 };
    unsigned size = sizes[mc_choose(MC_ARRAY_SIZE(sizes))], klen = mc_choose(2) ? 256 : 16, pos, i, n, all = 200003;
    uint8_t key[256], *want = mc_malloc(all), *out = mc_malloc(all), *in = mc_malloc(all);
    bool place = mc_choose(2);
    bfdev_arc4_ctx_t ctx;

    for (i = 0; i < klen; i++)
        key[i] = pattern(3, i);
    ref_rc4(key, klen, want, all);
    bfdev_arc4_setkey(&ctx, key, klen);
    for (i = 0; i < all; i++)
        out[i] = in[i] = i * 7;
    for (pos = 0; pos < all; pos += n) {
        n = size < all - pos ? size : all - pos;
        bfdev_arc4_trans(&ctx, out + pos, place ? out + pos : in + pos, n);
    }
    mc_step("%u bytes in calls of %u", all, size);
    mc_case(mc_mix(size, klen * 2 + place));
    for (i = 0; i < all; i++)
        mc_assert(out[i] == (want[i] ^ (uint8_t)(i * 7)), "byte %u of the stream, in calls of %u", i, size);
}

const mc_scenario_t mc_scenarios[] = {
    { "RC4 vectors", s_vectors, { 1, 1 }, 0, 1 },
    { "RC4 key lengths", s_keys, { 300, 600 }, 0, 2 },
    { "RC4 splits", s_split, { 300, 399 }, 0, 1 },
    { "RC4 long streams", s_large, { 0, 0 }, 0, 2 },
    { "RC4 calls", s_chunks, { 4, 6 }, 0, 2 },
    { "random seeds", s_seeds, { 512, 8192 }, 0, 1 },
    { "random default", s_default, { 10000, 1000000 }, 0, 1 },
    { NULL }
};
