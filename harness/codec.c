/*
 * Base32, Base64 and Ascii85 against bit level references, on exactly sized buffers.
 */
#include "mc.h"
#include <bfdev/base32.h>
#include <bfdev/base64.h>
#include <bfdev/ascii85.h>

static const char alphabet64[] = "ABCDEFGHIJKLMNOPQRSTUVWXYZabcdefghijklmnopqrstuvwxyz0123456789+/";
static const char alphabet32[] = "ABCDEFGHIJKLMNOPQRSTUVWXYZ234567";
#define B32 (mc_arg == 32)

static int find(const char *a, uint8_t c) { const char *p = c ? strchr(a, c) : NULL; return p ? p - a : -1; }

/* one bit at a time */
static size_t ref_encode(char *out, const uint8_t *d, size_t n, int bits, const char *a)
{
    size_t group = bits == 5 ? 8 : 4, len = 0, i;
    int acc = 0, have = 0;

    for (i = 0; i < n * 8; i++) {
        acc = acc << 1 | (d[i / 8] >> (7 - i % 8) & 1);
        if (++have == bits) {
            out[len++] = a[acc];
            acc = have = 0;
        }
    }
    if (have)
        out[len++] = a[acc << (bits - have)];
    while (len % group)
        out[len++] = '=';
    return len;
}

static void check_base(const uint8_t *data, size_t n, int bits)
{
    const char *a = bits == 5 ? alphabet32 : alphabet64;
    size_t enc = bits == 5 ? bfdev_base32_encode_length(n) : bfdev_base64_encode_length(n), dec, len, i;
    char *want = mc_malloc(2 * n + 16);
    uint8_t *text, *src, *back;
    int ret;

    len = ref_encode(want, data, n, bits, a);
    mc_assert(enc == len, "encode_length(%zu) = %zu, expected %zu", n, enc, len);
    dec = bits == 5 ? bfdev_base32_decode_length(enc) : bfdev_base64_decode_length(enc);
    mc_assert(dec >= n && dec < n + 5, "decode_length(%zu) = %zu for %zu bytes", enc, dec, n);
    src = mc_malloc(n ?: 1);
    memcpy(src, data, n);
    text = mc_malloc(enc ?: 1);
    back = mc_malloc(dec ?: 1);
    if (bits == 5)
        bfdev_base32_encode(text, src, n);
    else
        bfdev_base64_encode(text, src, n);
    mc_assert(!memcmp(text, want, len), "%zu bytes encode to %.*s, expected %.*s", n, (int)len, text, (int)len, want);
    mc_assert(!memcmp(src, data, n), "encoding changes the data");
    ret = bits == 5 ? bfdev_base32_decode(back, text, enc) : bfdev_base64_decode(back, text, enc);
    mc_assert(!ret, "decode(%.*s) = %d", (int)len, text, ret);
    mc_assert(!memcmp(back, data, n), "decode(%.*s) does not give the %zu bytes back", (int)len, text, n);
    mc_assert(!memcmp(text, want, len), "decoding changes the text");
    /* without the padding */
    for (i = len; i && want[i - 1] == '='; i--)
        ;
    if (i != len) {
        mc_free(text);
        text = mc_malloc(i ?: 1);
        memcpy(text, want, i);
        memset(back, 0xa5, dec);
        ret = bits == 5 ? bfdev_base32_decode(back, text, i) : bfdev_base64_decode(back, text, i);
        mc_assert(!ret && !memcmp(back, data, n), "decode(%.*s) without padding", (int)i, text);
    }
    mc_free(src);
    mc_free(text);
    mc_free(back);
    mc_free(want);
    mc_case(mc_mix_bytes(n * 8 + bits, data, n));
}

/* every string of up to two bytes, and three bytes from boundary values */
static void s_base_short(void)
{
    static const uint8_t v[] = { 0, 1, 0x7f, 0x80, 0xff, 0x55, 0xaa, 3 };
    int bits = B32 ? 5 : 6, i, j, k;
    uint8_t d[4];

    check_base(d, 0, bits);
    for (i = 0; i < 256; i++) {
        d[0] = i;
        check_base(d, 1, bits);
        for (j = 0; j < 256; j++) {
            d[1] = j;
            check_base(d, 2, bits);
            if (j % mc_bound)
                continue;
            for (k = 0; k < 8; k++) {
                d[2] = v[k];
                check_base(d, 3, bits);
            }
        }
    }
}

/* every byte value at every position of every length over several backgrounds */
static void s_base_long(void)
{
    static const uint8_t back[] = { 0, 0xff, 0x55, 0xaa, 0x33, 0x0f };
    int bits = B32 ? 5 : 6, n, i, k, x;
    uint8_t d[40];

    n = mc_choose(mc_bound) + 1;
    i = mc_choose(n);
    mc_step("%d bytes, varying byte %d", n, i);
    for (x = 0; x < 6; x++)
        for (k = 0; k < 256; k++) {
            memset(d, back[x], n);
            d[i] = k;
            check_base(d, n, bits);
        }
}

/* every character at every position of an encoding */
static void s_base_corrupt(void)
{
    int bits = B32 ? 5 : 6, group = B32 ? 8 : 4, n, i, k, x, m, len, ret, dec;
    const char *a = B32 ? alphabet32 : alphabet64;
    char text[64];
    uint8_t d[40], want[64], *in, *out;

    n = mc_choose(mc_bound) + 1;
    for (i = 0; i < n; i++)
        d[i] = 0x9e * (i + 1) + 0x37;
    len = ref_encode(text, d, n, bits, a);
    i = mc_choose(len);
    mc_step("%.*s, changing character %d", len, text, i);
    for (k = 0; k < 256; k++) {
        bool bad = false;

        text[i] = k;
        memset(want, 0, sizeof(want));
        for (x = m = 0; x < len; x++) {
            int v = find(a, text[x]), y;

            if (v < 0) {
                bad = text[x] != '=';
                break;
            }
            for (y = bits; y--; m++)
                want[m / 8] |= (v >> y & 1) << (7 - m % 8);
        }
        dec = B32 ? bfdev_base32_decode_length(len) : bfdev_base64_decode_length(len);
        in = mc_malloc(len);
        out = mc_malloc(dec);
        memcpy(in, text, len);
        ret = B32 ? bfdev_base32_decode(out, in, len) : bfdev_base64_decode(out, in, len);
        mc_assert(!!ret == bad, "decode(%.*s), character %d is %#x: returned %d", len, text, i, k, ret);
        if (!bad)
            mc_assert(!memcmp(out, want, m / 8), "decode(%.*s) gives wrong bytes", len, text);
        mc_free(in);
        mc_free(out);
        mc_case(mc_mix(mc_mix(n, i), k));
    }
    (void)group;
}

/* ascii85 */
static size_t a85_encode(char *out, const uint8_t *d, size_t n)
{
    size_t len = 0, i;

    for (i = 0; i < n; i += 4) {
        unsigned long v = 0, p;
        int k;

        for (k = 0; k < 4; k++)
            v = v << 8 | (i + k < n ? d[i + k] : 0);
        if (!v)
            out[len++] = 'z';
        else
            for (p = 85UL * 85 * 85 * 85; p; p /= 85)
                out[len++] = '!' + v / p % 85;
    }
    return len;
}

/* number of bytes, or negative */
static int a85_decode(uint8_t *out, const char *t, size_t len)
{
    size_t i = 0, n = 0;

    while (i < len) {
        unsigned long v = 0;
        int k;

        if (t[i] == 'z')
            i++;
        else {
            if (len - i < 5)
                return -1;
            for (k = 0; k < 5; k++, i++) {
                if ((uint8_t)t[i] < '!' || (uint8_t)t[i] > 'u')
                    return -1;
                v = v * 85 + (t[i] - '!');
            }
            if (v >> 32)
                return -1;
        }
        for (k = 0; k < 4; k++)
            out[n++] = v >> (24 - 8 * k);
    }
    return n;
}

static void check_a85_text(const char *text, size_t len)
{
    uint8_t *want = mc_malloc(len * 4 + 4), *in, *out;
    size_t got = 12345;
    int n, ret;

    n = a85_decode(want, text, len);
    in = mc_malloc(len ?: 1);
    memcpy(in, text, len);
    out = mc_malloc(len * 4 ?: 1);
    ret = bfdev_ascii85_decode(out, in, &got, len);
    if (n < 0)
        mc_assert(ret, "malformed text %.*s is accepted", (int)len, text);
    else {
        mc_assert(!ret, "decode(%.*s) = %d", (int)len, text, ret);
        mc_assert(got == (size_t)n, "decode(%.*s) gives %zu bytes, expected %d", (int)len, text, got, n);
        mc_assert(!memcmp(out, want, n), "decode(%.*s) gives wrong bytes", (int)len, text);
        if (got > bfdev_ascii85_decode_length(len)) {
            if (!memchr(text, 'z', len))
                mc_fail("%.*s decodes to %zu bytes, but decode_length is %zu", (int)len, text, got, bfdev_ascii85_decode_length(len));
            mc_known("ascii85-decode-length-z");
        }
    }
    mc_assert(!memcmp(in, text, len), "decoding changes the text");
    mc_free(in);
    mc_free(out);
    mc_free(want);
}

static void check_a85(const uint8_t *data, size_t n)
{
    size_t max = bfdev_ascii85_encode_length(n), len, got = 12345;
    char *want = mc_malloc(n * 2 + 8);
    uint8_t *src, *text;

    len = a85_encode(want, data, n);
    mc_assert(max >= len && max == (n + 3) / 4 * 5, "encode_length(%zu) = %zu", n, max);
    src = mc_malloc(n ?: 1);
    memcpy(src, data, n);
    text = mc_malloc(max ?: 1);
    bfdev_ascii85_encode(text, src, &got, n);
    mc_assert(got == len, "%zu bytes encode to %zu characters, expected %zu", n, got, len);
    mc_assert(!memcmp(text, want, len), "%zu bytes encode to %.*s, expected %.*s", n, (int)len, text, (int)len, want);
    mc_assert(!memcmp(src, data, n), "encoding changes the data");
    mc_free(src);
    mc_free(text);
    check_a85_text(want, len);
    mc_free(want);
    mc_case(mc_mix_bytes(n, data, n));
}

static void s_a85(void)
{
    static const uint32_t w[] = { 0, 1, 0xffffffff, 84, 85, 7224, 7225, 614124, 614125, 52200624, 52200625, 0x80000000, 0xff000000, 0x00ff0000, 0x0000ff00, 0x100, 0x10000, 0x1000000, 0x12345678 };
    int groups, tail, i, k;
    uint8_t d[40];
    size_t n = 0;

    groups = mc_choose(mc_bound + 1);
    for (i = 0; i < groups; i++) {
        uint32_t v = w[mc_choose(MC_ARRAY_SIZE(w))];

        for (k = 0; k < 4; k++)
            d[n++] = v >> (24 - 8 * k);
    }
    tail = mc_choose(4);
    for (i = 0; i < tail; i++) {
        static const uint8_t t[] = { 0, 1, 0xff, 0x80, 0x55, 84, 85 };
        d[n++] = t[mc_choose(MC_ARRAY_SIZE(t))];
    }
    mc_step("%zu bytes", n);
    for (i = 0; i < (int)n; i++)
        mc_step("%02x", d[i]);
    check_a85(d, n);
}

static void s_a85_tail(void)
{
    int i, j;
    uint8_t d[2];

    for (i = 0; i < 256; i++) {
        d[0] = i;
        check_a85(d, 1);
        for (j = 0; j < 256; j++) {
            d[1] = j;
            check_a85(d, 2);
        }
    }
}

static const uint8_t letters[] = { '!', 'u', 'z', '"', 's', '8', 'W', '-', 'v', ' ', 0, 0xff, 'y', 't' };
static void s_a85_text(void)
{
    int len, i;
    char t[40];

    len = mc_choose(mc_bound + 1);
    for (i = 0; i < len; i++)
        t[i] = letters[mc_choose(i < 7 ? mc_arg : 4)];
    mc_step("text of %d characters: %.*s", len, len, t);
    check_a85_text(t, len);
    mc_case(mc_mix_bytes(len, t, len));
}

static void s_a85_corrupt(void)
{
    static const char *const base[] = { "!!!!\"", "s8W-!", "s8W-!s8W-!", "z!!!!\"", "!!!!\"z", "5sdq,5sdq,z", "s8W,uz", "t!!!!", "zz", "5sdq,77Kd<8P2WL" };
    int b, len, i, k;
    char t[40];

    b = mc_choose(MC_ARRAY_SIZE(base));
    len = strlen(base[b]);
    i = mc_choose(len);
    mc_step("%s with character %d changed", base[b], i);
    for (k = 0; k < 256; k++) {
        memcpy(t, base[b], len);
        t[i] = k;
        check_a85_text(t, len);
        mc_case(mc_mix(mc_mix(b, i), k));
    }
    for (k = 0; k <= len; k++)
        check_a85_text(base[b], k);
}

/* lengths around 2^8, 2^12 and 2^16, every content pattern */
static void s_large(void)
{
    static const unsigned n[] = { 255, 256, 257, 383, 384, 511, 512, 513, 1023, 1024, 1025, 4095, 4096, 4097, 16383, 16384, 32767, 32768, 49152, 49153, 65535, 65536, 65537, 70001 };
    size_t len = n[mc_choose(MC_ARRAY_SIZE(n))], i;
    int pat = mc_choose(5);
    uint8_t *d = mc_malloc(len);

    for (i = 0; i < len; i++)
        d[i] = pat == 0 ? 0 : pat == 1 ? 0xff : pat == 2 ? i : pat == 3 ? i * 2654435761u >> 13 : i % 5 == 4 ? 1 : 0;
    mc_step("%zu bytes of pattern %d", len, pat);
    if (mc_arg)
        check_base(d, len, mc_arg == 32 ? 5 : 6);
    else
        check_a85(d, len);
}

const mc_scenario_t mc_scenarios[] = {
    { "base32 all short strings", s_base_short, { 8, 1 }, 32, 2 },
    { "base64 all short strings", s_base_short, { 8, 1 }, 64, 2 },
    { "base32 every byte everywhere", s_base_long, { 16, 24 }, 32, 2 },
    { "base64 every byte everywhere", s_base_long, { 16, 24 }, 64, 2 },
    { "base32 corrupted", s_base_corrupt, { 11, 16 }, 32, 2 },
    { "base64 corrupted", s_base_corrupt, { 11, 16 }, 64, 2 },
    { "ascii85", s_a85, { 2, 3 }, 0, 3 },
    { "ascii85 all short strings", s_a85_tail, { 1, 1 }, 0, 2 },
    { "ascii85 texts", s_a85_text, { 6, 7 }, 8, 3 },
    { "base32 large", s_large, { 1, 1 }, 32, 2 },
    { "base64 large", s_large, { 1, 1 }, 64, 2 },
    { "ascii85 large", s_large, { 1, 1 }, 0, 2 },
    { "ascii85 corrupted", s_a85_corrupt, { 1, 1 }, 0, 2 },
    { NULL }
};
