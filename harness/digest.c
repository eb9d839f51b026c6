/*
 * MD5, SHA-1, SHA-224, SHA-256: every length, every split, every bit, against plain
 * implementations of the standards (themselves tied to known digests).
 */
#include "mc.h"
#include <math.h>
#include <sys/mman.h>
#include <bfdev/md5.h>
#include <bfdev/sha1.h>
#include <bfdev/sha2.h>

enum { MD5, SHA1, SHA224, SHA256 };
static const int dsize[] = { 16, 20, 28, 32 };
static const char *const name[] = { "md5", "sha1", "sha224", "sha256" };

typedef union { bfdev_md5_ctx_t md5; bfdev_sha1_ctx_t sha1; bfdev_sha2_ctx_t sha2; } ctx_t;
static void init(int a, ctx_t *c) { a == MD5 ? bfdev_md5_init(&c->md5) : a == SHA1 ? bfdev_sha1_init(&c->sha1) : a == SHA224 ? bfdev_sha224_init(&c->sha2) : bfdev_sha256_init(&c->sha2); }
static void update(int a, ctx_t *c, const void *p, size_t n) { a == MD5 ? bfdev_md5_update(&c->md5, p, n) : a == SHA1 ? bfdev_sha1_update(&c->sha1, p, n) : bfdev_sha2_update(&c->sha2, p, n); }
static void finish(int a, ctx_t *c, void *p) { a == MD5 ? bfdev_md5_finish(&c->md5, p) : a == SHA1 ? bfdev_sha1_finish(&c->sha1, p) : a == SHA224 ? bfdev_sha224_finish(&c->sha2, p) : bfdev_sha256_finish(&c->sha2, p); }

#ifndef DIGEST_LONG
static uint32_t rol(uint32_t x, int n) { return x << n | x >> (32 - n); }
static uint32_t ror(uint32_t x, int n) { return rol(x, 32 - n); }
static uint32_t K2[64], KM[64], H256[8];
/* second 32 bits of the fractions of the square roots of the 9th to 16th prime */
static const uint32_t H224[8] = { 0xc1059ed8, 0x367cd507, 0x3070dd17, 0xf70e5939, 0xffc00b31, 0x68581511, 0x64f98fa7, 0xbefa4fa4 };

static void tables(void)
{
    int p, n = 0, d;

    if (KM[0])
        return;
    for (n = 0; n < 64; n++)
        KM[n] = floor(4294967296.0 * fabs(sin(n + 1)));
    for (n = 0, p = 2; n < 64; p++) {
        long double r;

        for (d = 2; d * d <= p && p % d; d++)
            ;
        if (d * d <= p)
            continue;
        r = cbrtl(p);
        K2[n] = (r - floorl(r)) * 4294967296.0L;
        r = sqrtl(p);
        if (n < 8)
            H256[n] = (r - floorl(r)) * 4294967296.0L;
        n++;
    }
}

static void ref_block(int a, uint32_t *h, const uint8_t *b)
{
    uint32_t w[80], s[8], f, g, t;
    int i;

    memcpy(s, h, 32);
    for (i = 0; i < 16; i++)
        w[i] = a == MD5 ? b[4 * i] | b[4 * i + 1] << 8 | b[4 * i + 2] << 16 | (uint32_t)b[4 * i + 3] << 24
                        : b[4 * i + 3] | b[4 * i + 2] << 8 | b[4 * i + 1] << 16 | (uint32_t)b[4 * i] << 24;
    if (a == MD5) {
        static const int r[4][4] = { { 7, 12, 17, 22 }, { 5, 9, 14, 20 }, { 4, 11, 16, 23 }, { 6, 10, 15, 21 } };

        for (i = 0; i < 64; i++) {
            uint32_t x = s[1], y = s[2], z = s[3];

            switch (i / 16) {
            case 0: f = (x & y) | (~x & z); g = i; break;
            case 1: f = (x & z) | (y & ~z); g = (5 * i + 1) % 16; break;
            case 2: f = x ^ y ^ z; g = (3 * i + 5) % 16; break;
            default: f = y ^ (x | ~z); g = 7 * i % 16; break;
            }
            t = s[3];
            s[3] = s[2];
            s[2] = s[1];
            s[1] += rol(s[0] + f + KM[i] + w[g], r[i / 16][i % 4]);
            s[0] = t;
        }
    } else if (a == SHA1) {
        static const uint32_t k[] = { 0x5a827999, 0x6ed9eba1, 0x8f1bbcdc, 0xca62c1d6 };

        for (i = 16; i < 80; i++)
            w[i] = rol(w[i - 3] ^ w[i - 8] ^ w[i - 14] ^ w[i - 16], 1);
        for (i = 0; i < 80; i++) {
            uint32_t x = s[1], y = s[2], z = s[3];

            f = i < 20 ? (x & y) | (~x & z) : i >= 40 && i < 60 ? (x & y) | (x & z) | (y & z) : x ^ y ^ z;
            t = rol(s[0], 5) + f + s[4] + k[i / 20] + w[i];
            s[4] = s[3];
            s[3] = s[2];
            s[2] = rol(s[1], 30);
            s[1] = s[0];
            s[0] = t;
        }
    } else {
        for (i = 16; i < 64; i++)
            w[i] = (ror(w[i - 2], 17) ^ ror(w[i - 2], 19) ^ w[i - 2] >> 10) + w[i - 7] + (ror(w[i - 15], 7) ^ ror(w[i - 15], 18) ^ w[i - 15] >> 3) + w[i - 16];
        for (i = 0; i < 64; i++) {
            uint32_t t2;

            t = s[7] + (ror(s[4], 6) ^ ror(s[4], 11) ^ ror(s[4], 25)) + ((s[4] & s[5]) ^ (~s[4] & s[6])) + K2[i] + w[i];
            t2 = (ror(s[0], 2) ^ ror(s[0], 13) ^ ror(s[0], 22)) + ((s[0] & s[1]) ^ (s[0] & s[2]) ^ (s[1] & s[2]));
            memmove(s + 1, s, 28);
            s[4] += t;
            s[0] = t + t2;
        }
    }
    for (i = 0; i < (a == MD5 ? 4 : a == SHA1 ? 5 : 8); i++)
        h[i] += s[i];
}

static void reference(int a, const uint8_t *d, size_t n, uint8_t *out)
{
    static const uint32_t iv[] = { 0x67452301, 0xefcdab89, 0x98badcfe, 0x10325476, 0xc3d2e1f0 };
    uint32_t h[8] = { 0 };
    static uint8_t m[70200];
    size_t len = n, i;

    tables();
    memcpy(h, a == SHA256 ? H256 : a == SHA224 ? H224 : iv, a >= SHA224 ? 32 : 20);
    memcpy(m, d, n);
    m[len++] = 0x80;
    while (len % 64 != 56)
        m[len++] = 0;
    for (i = 0; i < 8; i++)
        m[len++] = (uint64_t)n * 8 >> (a == MD5 ? 8 * i : 56 - 8 * i);
    for (i = 0; i < len; i += 64)
        ref_block(a, h, m + i);
    for (i = 0; i < (size_t)dsize[a]; i++)
        out[i] = h[i / 4] >> (a == MD5 ? 8 * (i % 4) : 24 - 8 * (i % 4));
}

static void hex(char *s, const uint8_t *d, int n) { int i; for (i = 0; i < n; i++) sprintf(s + 2 * i, "%02x", d[i]); }

/* hash data given in pieces ending at the given places; exactly sized buffers everywhere */
static void check(int a, const uint8_t *data, size_t n, const size_t *cut, int ncuts, int align)
{
    uint8_t want[32], *out, *buf[5];
    char s[80], t[80];
    size_t from = 0;
    ctx_t *c = mc_malloc(a == MD5 ? sizeof(c->md5) : a == SHA1 ? sizeof(c->sha1) : sizeof(c->sha2));
    int i, pass;

    reference(a, data, n, want);
    out = mc_malloc(dsize[a] + align);
    memset(c, 0xa5, a == MD5 ? sizeof(c->md5) : a == SHA1 ? sizeof(c->sha1) : sizeof(c->sha2));
    for (i = 0; i <= ncuts; i++) {
        size_t to = i < ncuts ? cut[i] : n;

        buf[i] = mc_malloc(to - from + align ?: 1);
        memcpy(buf[i] + align, data + from, to - from);
        from = to;
    }
    for (pass = 0; pass < 2; pass++) {
        init(a, c);
        for (from = i = 0; i <= ncuts; i++) {
            size_t to = i < ncuts ? cut[i] : n;

            update(a, c, buf[i] + align, to - from);
            mc_assert(!memcmp(buf[i] + align, data + from, to - from), "%s changes the data", name[a]);
            from = to;
        }
        memset(out, 0x5a, dsize[a] + align);
        finish(a, c, out + align);
        if (memcmp(out + align, want, dsize[a])) {
            hex(s, out + align, dsize[a]);
            hex(t, want, dsize[a]);
            mc_fail("%s of %zu bytes in %d pieces%s is %s, expected %s", name[a], n, ncuts + 1, pass ? ", reinitialised," : "", s, t);
        }
    }
    for (i = 0; i <= ncuts; i++)
        mc_free(buf[i]);
    mc_free(out);
    mc_free(c);
}

/* the references against hashlib: digest of the digests of 300 messages */
static void s_reference(void)
{
    static const char *const known[] = {
        "07078cab541bc45f0a66e2c0213a32f4", "dfc942b5ddc5fe6421ccada9be50fa42e873926c",
        "d88e0c78201368a96088c911f15d0f9e9d274ff23ac82fc481f92e00", "d5238871a46ac4a1a75ac3fb19d645b0b3b9e5f35f5f720e2b240d605c6b694e",
    };
    int a = mc_choose(4), n, i;
    static uint8_t all[300 * 32], m[300];
    uint8_t out[32];
    char s[80];

    /* all digests would exceed the reference's buffer: chain through the library under test only after checking it */
    for (n = 0; n < 300; n++) {
        for (i = 0; i < n; i++)
            m[i] = i * 7 + n;
        reference(a, m, n, all + n * dsize[a]);
        check(a, m, n, NULL, 0, 0);
    }
    ctx_t c;
    init(a, &c);
    update(a, &c, all, 300 * dsize[a]);
    finish(a, &c, out);
    hex(s, out, dsize[a]);
    mc_case(a);
    mc_assert(!strcmp(s, known[a]), "%s of the digests of 300 messages is %s, expected %s", name[a], s, known[a]);
}

static void fill(uint8_t *m, size_t n, int kind)
{
    size_t i;

    for (i = 0; i < n; i++)
        m[i] = kind == 0 ? 0xff : kind == 1 ? i * 37 + (i >> 3) * 11 + 5 : kind == 2 ? 0x80 : 0;
}

static void s_lengths(void)
{
    int a = mc_choose(4), align = mc_choose(4), n, kind;
    uint8_t m[600];

    mc_step("%s, data misaligned by %d", name[a], align);
    for (n = 0; n <= mc_bound; n++)
        for (kind = 0; kind < 4; kind++) {
            fill(m, n, kind);
            check(a, m, n, NULL, 0, align);
            mc_case(mc_mix(mc_mix(a, align), n * 4 + kind));
        }
}

static void s_splits(void)
{
    static const int lens[] = { 0, 1, 55, 56, 63, 64, 65, 119, 120, 127, 128, 129, 130, 191, 192, 193, 200 };
    int a = mc_choose(4), n = lens[mc_choose(mc_bound)], step = n > 130 ? mc_arg : 1;
    uint8_t m[256];
    size_t cut[2], k = mc_choose(8);

    mc_step("%s of %d bytes", name[a], n);
    fill(m, n, 1);
    for (cut[0] = k; cut[0] <= (size_t)n; cut[0] += 8)
        for (cut[1] = cut[0]; cut[1] <= (size_t)n; cut[1] += step) {
            check(a, m, n, cut, 2, 0);
            mc_case(mc_mix(mc_mix(a, n), cut[0] * 1000 + cut[1]));
        }
}

/* pieces of every size, one by one */
static void s_pieces(void)
{
    int a = mc_choose(4), n, size, from;
    uint8_t m[300], want[32], out[32], *p;
    ctx_t c;

    mc_step("%s", name[a]);
    for (n = 0; n <= mc_bound; n++)
        for (size = 1; size <= n && size <= 70; size++) {
            fill(m, n, 1);
            reference(a, m, n, want);
            init(a, &c);
            for (from = 0; from < n; from += size) {
                int k = from + size < n ? size : n - from;

                p = mc_malloc(k);
                memcpy(p, m + from, k);
                update(a, &c, p, k);
                mc_free(p);
                update(a, &c, m, 0);
            }
            finish(a, &c, out);
            mc_assert(!memcmp(out, want, dsize[a]), "%s of %d bytes in pieces of %d is wrong", name[a], n, size);
            mc_case(mc_mix(mc_mix(a, n), size));
        }
}

/* every single bit, every pair of bytes */
static void s_bits(void)
{
    int a = mc_choose(4), n = mc_choose(2) ? 64 : 40, i, k;
    uint8_t m[64];

    mc_step("%s of %d bytes", name[a], n);
    for (k = 0; k < 2; k++)
        for (i = 0; i < n * 8; i++) {
            memset(m, -k, n);
            m[i / 8] ^= 1 << i % 8;
            check(a, m, n, NULL, 0, 0);
            mc_case(mc_mix(mc_mix(a, n), i * 2 + k));
        }
    for (i = 0; i < n; i++)
        for (k = 0; k < i; k++) {
            memset(m, 0, n);
            m[i] = 0xff;
            m[k] = 0x80;
            check(a, m, n, NULL, 0, 0);
            mc_case(mc_mix(mc_mix(a, n), 10000 + i * 64 + k));
        }
}

/* lengths around 2^12 and 2^16, in pieces of one size */
static void s_large(void)
{
    static const size_t lens[] = { 1023, 1024, 4095, 4096, 4097, 8183, 8184, 8192, 32768, 65527, 65528, 65535, 65536, 65537, 70001 }, sizes[] = { 63, 64, 65, 255, 256, 257, 4096, 65535, 65536, 70001 };
    int a = mc_choose(4), kind = mc_choose(2);
    size_t n = lens[mc_choose(MC_ARRAY_SIZE(lens))], size = sizes[mc_choose(MC_ARRAY_SIZE(sizes))], from, k;
    uint8_t *m = mc_malloc(n), want[32], out[32];
    ctx_t c;

    mc_step("%s of %zu bytes in pieces of %zu", name[a], n, size);
    fill(m, n, kind);
    reference(a, m, n, want);
    init(a, &c);
    for (from = 0; from < n; from += size) {
        k = from + size < n ? size : n - from;
        update(a, &c, m + from, k);
    }
    finish(a, &c, out);
    mc_assert(!memcmp(out, want, dsize[a]), "%s of %zu bytes in pieces of %zu is wrong", name[a], n, size);
    mc_case(mc_mix(mc_mix(a, n), size * 2 + kind));
}

/* two contexts in use at once do not disturb each other */
static void s_interleaved(void)
{
    int a = mc_choose(4), b = mc_choose(4), i, k, n1 = 70, n2 = 75;
    uint8_t x[200], y[200], wx[32], wy[32], o[32];
    ctx_t c, d;

    mc_step("%s and %s", name[a], name[b]);
    fill(x, n1, 1);
    fill(y, n2, 0);
    reference(a, x, n1, wx);
    reference(b, y, n2, wy);
    for (i = 0; i <= n1; i++)
        for (k = 0; k <= n2; k += 5) {
            init(a, &c);
            init(b, &d);
            update(a, &c, x, i);
            update(b, &d, y, k);
            update(a, &c, x + i, n1 - i);
            finish(a, &c, o);
            mc_assert(!memcmp(o, wx, dsize[a]), "%s disturbed by %s", name[a], name[b]);
            update(b, &d, y + k, n2 - k);
            finish(b, &d, o);
            mc_assert(!memcmp(o, wy, dsize[b]), "%s disturbed by %s", name[b], name[a]);
            mc_case(mc_mix(mc_mix(a, b), i * 100 + k));
        }
}

const mc_scenario_t mc_scenarios[] = {
    { "reference", s_reference, { 1, 1 }, 0, 1 },
    { "lengths", s_lengths, { 260, 520 }, 0, 2 },
    { "splits", s_splits, { 13, 17 }, 1, 2 },
    { "pieces", s_pieces, { 140, 260 }, 0, 1 },
    { "large", s_large, { 0, 0 }, 0, 3 },
    { "bits", s_bits, { 1, 1 }, 0, 2 },
    { "two contexts", s_interleaved, { 1, 1 }, 0, 2 },
    { NULL }
};
#else
/* message lengths that need more than 32 bits: half a gigabyte (bits) and four (bytes) */
static void s_long(void)
{
    static const char *const known[2][4] = {
        { "b9f385c9de754bba20185392cb179de5", "caf1e4026d845fdf89d2e5c529757aee1771306c",
          "65f1cddea47c89d3614e0f99dc6a79f53133d08821fbe65203367169", "d10b92c907ca30038168559ed528aaeff973e5177fc7a48bf4750c3766490ef7" },
        { "b8b3b7226036b11e553eb9a4eec87172", "8f80d4587822fe272523a15b7d164b976b673eb2",
          "de05e98380aa939a084d07d8a7f684d64ea8350b812c2b47dfe4ec80", "79794d7c1e940aba31644d858367dc072c21c7e99f6711690f36d667f07bac6b" },
    };
    int a = mc_choose(4), i;
    size_t n = (mc_bound ? 1UL << 32 : 1UL << 29) + 67, piece = 1 << 24, k;
    uint8_t *zero, out[32];
    char s[80];
    ctx_t c;

    mc_step("%s of %zu zero bytes%s", name[a], n, mc_arg ? " in one call" : "");
    if (mc_arg)
        piece = n;
    zero = mmap(NULL, piece, PROT_READ, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
    mc_assert(zero != MAP_FAILED, "mmap");
    init(a, &c);
    for (k = 0; k < n; k += piece, mc_step_count())     /* tells that it still runs */
        update(a, &c, zero, n - k < piece ? n - k : piece);
    finish(a, &c, out);
    for (i = 0; i < dsize[a]; i++)
        sprintf(s + 2 * i, "%02x", out[i]);
    munmap(zero, piece);
    mc_case(mc_mix(a, n));
    mc_assert(!strcmp(s, known[mc_bound][a]), "%s of %zu zero bytes is %s, expected %s", name[a], n, s, known[mc_bound][a]);
}

const mc_scenario_t mc_scenarios[] = {
    { "half a gigabyte", s_long, { 0, 0 }, 0, 1 },
    { "four gigabytes", s_long, { -1, 1 }, 0, 1 },
    { "four gigabytes in one call", s_long, { 1, 1 }, 1, 1 },
    { NULL }
};
#endif
