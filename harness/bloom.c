/*
 * Bloom filter: every assignment of hash values to keys and functions, every history.
 * Which hash values share a bit is learnt from filters of one function and one element;
 * that and the history decide every answer exactly.
 */
#include "mc.h"
#include <limits.h>
#include <bfdev/bloom.h>

#define MAXF 3
#define MAXK 3
static const unsigned values[] = { 0, 1, 2, UINT_MAX, 0x80000000, 0x12345678, 64, 0x7fffffff };
static unsigned hv[MAXF][MAXK];
static int keys[MAXK];
static int marker;

static unsigned int hash(unsigned int func, const void *key, void *pdata)
{
    long k = (const int *)key - keys;

    mc_assert(pdata == &marker, "the private data was lost");
    mc_assert(func < MAXF && k >= 0 && k < MAXK, "hash called for another key or function %u", func);
    return hv[func][k];
}

static unsigned int direct(unsigned int func, const void *key, void *pdata)
{
    mc_assert(!func, "function %u of one", func);
    return *(const unsigned *)key;
}

static const unsigned capacities[] = { 64, 1, 63, 65, 128, 100, 1000, 2 };
static signed char share[8][8][8];

static bool same(int c, int a, int b)
{
    if (!share[c][a][b]) {
        bfdev_bloom_t *f = bfdev_bloom_create(NULL, capacities[c], direct, 1, NULL);
        unsigned x = values[a], y = values[b];

        mc_assert(f && !bfdev_bloom_push(f, &x), "the first element of a filter was there already");
        share[c][a][b] = bfdev_bloom_peek(f, &y) ? 1 : -1;
        bfdev_bloom_destroy(f);
        mc_assert(a != b || share[c][a][b] == 1, "an added element is not present");
    }
    return share[c][a][b] > 0;
}

static void s_history(void)
{
    int c = mc_choose(MC_ARRAY_SIZE(capacities)), funcs = mc_arg / 10, nk = mc_arg % 10, nv = mc_bound / 10, f, k, g, i, j;
    int which[MAXF][MAXK], depth = mc_bound % 10;
    bool in[MAXK] = { };
    bfdev_bloom_t *b;

    for (f = 0; f < funcs; f++)
        for (k = 0; k < nk; k++)
            hv[f][k] = values[which[f][k] = mc_choose(nv)];
    b = bfdev_bloom_create(&mc_alloc, capacities[c], hash, funcs, &marker);
    mc_assert(b, "no filter of capacity %u", capacities[c]);
    for (i = 0; ; i++) {
        bool want[MAXK];
        uint64_t h = c;

        for (k = 0; k < nk; k++) {
            want[k] = true;
            for (f = 0; f < funcs; f++) {
                bool bit = false;

                for (j = 0; j < nk; j++)
                    for (g = 0; g < funcs && in[j]; g++)
                        bit |= same(c, which[g][j], which[f][k]);
                want[k] &= bit;
                h = mc_mix(h, which[f][k]);
            }
            mc_assert(bfdev_bloom_peek(b, &keys[k]) == want[k], "capacity %u: key %d is %s", capacities[c], k, want[k] ? (in[k] ? "not present although it was added" : "not present although its bits are set") : "present although its bits are not set");
            h = mc_mix(h, in[k] * 2 + want[k]);
        }
        mc_case(h);
        if (i == depth)
            break;
        k = mc_choose(nk + 1);
        if (k == nk) {
            mc_step("flush");
            bfdev_bloom_flush(b);
            memset(in, 0, sizeof(in));
        } else {
            bool had = bfdev_bloom_push(b, &keys[k]);

            mc_step("push %d: %d", k, had);
            mc_assert(had == want[k], "capacity %u: adding key %d says it was %s", capacities[c], k, had ? "there" : "not there");
            in[k] = true;
        }
    }
    bfdev_bloom_destroy(b);
    mc_no_leaks("destroy");
}

/* every bit of a filter can be set, is cleared by a flush, and tells elements apart */
static void s_fill(void)
{
    unsigned cap = 1 + mc_choose(mc_bound), i, absent = 0, max = cap < 64 ? 64 : cap, n = max * 8;
    bfdev_bloom_t *b = bfdev_bloom_create(&mc_alloc, cap, direct, 1, NULL);

    mc_step("capacity %u", cap);
    mc_case(cap);
    i = 12345;
    bfdev_bloom_push(b, &i);
    for (i = 0; i < n; i++)
        absent += !bfdev_bloom_peek(b, &i);
    mc_assert(absent >= n / 2, "capacity %u: after one element %u of %u are present", cap, n - absent, n);
    for (i = 0; i < n; i++) {
        bfdev_bloom_push(b, &i);
        mc_assert(bfdev_bloom_peek(b, &i), "capacity %u: element %u was lost", cap, i);
    }
    for (i = 0; i < n; i++)
        mc_assert(bfdev_bloom_peek(b, &i), "capacity %u: element %u was lost later", cap, i);
    bfdev_bloom_flush(b);
    for (i = 0; i < n; i++)
        mc_assert(!bfdev_bloom_peek(b, &i), "capacity %u: element %u outlived a flush", cap, i);
    bfdev_bloom_destroy(b);
    mc_no_leaks("destroy");
}

static void s_create(void)
{
    static const unsigned caps[] = { 0, 1, UINT_MAX, UINT_MAX - 62, 64 };
    unsigned cap = caps[mc_choose(5)], x = 5;
    bfdev_bloom_t *b;

    mc_alloc_limit = 1 << 20;
    mc_fault_budget = 1;
    b = bfdev_bloom_create(&mc_alloc, cap, direct, 1, NULL);
    mc_fault_budget = 0;
    mc_step("create of %u: %d", cap, !!b);
    mc_case(mc_mix(cap, !!b));
    if (mc_faults)
        mc_assert(!b, "created without memory");
    if (b) {
        mc_assert(!bfdev_bloom_push(b, &x) && bfdev_bloom_peek(b, &x), "capacity %u does not hold an element", cap);
        bfdev_bloom_destroy(b);
    } else
        mc_assert(mc_faults || !cap || cap > 1 << 20, "not created");
    mc_no_leaks("create");
}

/* capacities around 2^8, 2^10, 2^12 and 2^16 */
static void s_large(void)
{
    static const unsigned caps[] = { 255, 256, 257, 511, 512, 513, 1023, 1024, 1025, 4095, 4096, 4097, 32768, 65535, 65536, 65537, 70001, 200003 };
    unsigned cap = caps[mc_choose(MC_ARRAY_SIZE(caps))], step = mc_choose(3), i, absent = 0, v, n = cap * 4;
    bfdev_bloom_t *b = bfdev_bloom_create(&mc_alloc, cap, direct, 1, NULL);

    step = step == 0 ? 1 : step == 1 ? 65536 : 0x9e3779b1;
    mc_step("capacity %u, keys %u apart", cap, step);
    mc_case(mc_mix(cap, step));
    mc_assert(b, "no filter of capacity %u", cap);
    mc_assert(mc_live_bytes >= cap / 8, "capacity %u in %zu bytes", cap, (size_t)mc_live_bytes);
    v = 12345 * step;
    bfdev_bloom_push(b, &v);
    for (i = 0; i < n; i++) {
        v = i * step;
        absent += !bfdev_bloom_peek(b, &v);
    }
    mc_assert(absent >= n / 2, "capacity %u: after one element %u of %u are present", cap, n - absent, n);
    for (i = 0; i < n; i++) {
        v = i * step;
        bfdev_bloom_push(b, &v);
        mc_assert(bfdev_bloom_peek(b, &v), "capacity %u: element %u was lost", cap, i);
    }
    for (i = 0; i < n; i++) {
        v = i * step;
        mc_assert(bfdev_bloom_peek(b, &v), "capacity %u: element %u was lost later", cap, i);
    }
    bfdev_bloom_flush(b);
    for (i = 0; i < n; i++) {
        v = i * step;
        mc_assert(!bfdev_bloom_peek(b, &v), "capacity %u: element %u outlived a flush", cap, i);
    }
    bfdev_bloom_destroy(b);
    mc_no_leaks("destroy");
}

const mc_scenario_t mc_scenarios[] = {
    { "creation", s_create, { 1, 1 }, 0, 1 },
    { "every bit", s_fill, { 200, 600 }, 0, 1 },
    { "large", s_large, { 0, 0 }, 0, 2 },
    { "one function, three keys", s_history, { 85, 87 }, 13, 3 },
    { "two functions, two keys", s_history, { 85, 86 }, 22, 3 },
    { "two functions, three keys", s_history, { 43, 64 }, 23, 3 },
    { "three functions, two keys", s_history, { 43, 54 }, 32, 3 },
    { "no functions", s_history, { 13, 13 }, 2, 2 },
    { NULL }
};
