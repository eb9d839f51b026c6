/*
 * Edit distance: every pair of short strings and a set of weights against
 * a search over every alignment.
 */
#include "mc.h"
#include <bfdev/levenshtein.h>

static const char *s1, *s2;
static int n1, n2;
static unsigned ws, ww, wa, wd;

/* cheapest way to turn the first i letters of s1 into the first j of s2 */
static unsigned
best(int i, int j)
{
    unsigned m = ~0u, t;
    if (!i && !j)
        return 0;
    if (i && j && (t = best(i - 1, j - 1) + (s1[i - 1] == s2[j - 1] ? 0 : ws)) < m)
        m = t;
    if (i && (t = best(i - 1, j) + wd) < m)
        m = t;
    if (j && (t = best(i, j - 1) + wa) < m)
        m = t;
    if (i > 1 && j > 1 && s1[i - 1] == s2[j - 2] && s1[i - 2] == s2[j - 1] &&
        (t = best(i - 2, j - 2) + ww) < m)
        m = t;
    return m;
}

static char *
choose_string(int *np, int max, int letters)
{
    int i, n = mc_choose(max + 1);
    char *s = mc_buffer(n + 1);
    for (i = 0; i < n; ++i)
        s[i] = "ab\xff"[mc_choose(letters)];
    s[n] = 0;
    *np = n;
    return s;
}

static void
s_lev(void)
{
    static const unsigned weights[][4] = {
        { 1, 1, 1, 1 }, { 1, 0, 1, 1 }, { 0, 1, 1, 1 }, { 1, 2, 1, 3 }, { 2, 1, 3, 1 },
        { 0, 0, 1, 0 }, { 0, 0, 0, 1 }, { 5, 9, 2, 4 }, { 0, 0, 0, 0 }, { 9, 1, 1, 9 },
        { 1000000, 1, 3, 70000 },
    };
    const unsigned *w;
    unsigned want, got;
    bool nul;

    s1 = choose_string(&n1, mc_bound, mc_arg & 15);
    s2 = choose_string(&n2, mc_bound, mc_arg & 15);
    w = weights[mc_choose(MC_ARRAY_SIZE(weights))];
    ws = w[0], ww = w[1], wa = w[2], wd = w[3];
    want = best(n1, n2);
    mc_case(mc_mix(mc_mix_bytes(mc_mix_bytes(n1, s1, n1), s2, n2), want));
    mc_fault_budget = mc_arg >> 4;
    nul = mc_choose(2);
    got = nul ? bfdev_levenshtein(&mc_alloc, s1, s2, ws, ww, wa, wd) :
                bfdev_levenshtein_len(&mc_alloc, s1, s2, n1, n2, ws, ww, wa, wd);
    mc_step("levenshtein(\"%s\", \"%s\", %u, %u, %u, %u) -> %u", s1, s2, ws, ww, wa, wd, got);
    if (mc_faults)
        mc_assert(got == UINT32_MAX, "distance %u in spite of an allocation failure", got);
    else
        mc_assert(got == want, "distance is %u, cheapest edit script costs %u", got, want);
    mc_no_leaks("levenshtein");
}

/* strings around 2^8 letters against the recurrence over the full table; distances beyond 16 bits */
static void
s_large(void)
{
    static const int lens[] = { 0, 1, 127, 128, 129, 254, 255, 256, 257, 300, 600 };
    static const unsigned weights[][4] = { { 1, 1, 1, 1 }, { 300, 200, 260, 290 }, { 3, 1, 2, 4 }, { 70000, 60000, 65537, 65535 } };
    static unsigned d[602][602];
    const unsigned *w;
    char *p, *q;
    unsigned got;
    int i, j, ka, kb;

    n1 = lens[mc_choose(MC_ARRAY_SIZE(lens))];
    n2 = lens[mc_choose(MC_ARRAY_SIZE(lens))];
    ka = mc_choose(4);
    kb = mc_choose(5);
    w = weights[mc_choose(MC_ARRAY_SIZE(weights))];
    s1 = p = mc_buffer(n1 + 1);
    s2 = q = mc_buffer(n2 + 1);
    for (i = 0; i < n1; ++i)
        p[i] = ka == 0 ? 'a' : ka == 1 ? "ab"[i & 1] : ka == 2 ? 1 + i % 255 : 'a' + (i * 2654435761u >> 28);
    for (i = 0; i < n2; ++i)
        q[i] = kb == 0 ? 'b' : kb == 1 ? "ba"[i & 1] : kb == 2 ? 1 + (i + 3) % 255 : kb == 3 ? 'a' + ((i ^ 1) * 2654435761u >> 28) : 'a' + ((i + 1) * 2654435761u >> 28);
    p[n1] = q[n2] = 0;
    for (i = 0; i <= n1; ++i)
        for (j = 0; j <= n2; ++j) {
            unsigned m = i || j ? ~0u : 0, t;
            if (i && j && (t = d[i - 1][j - 1] + (p[i - 1] == q[j - 1] ? 0 : w[0])) < m)
                m = t;
            if (i && (t = d[i - 1][j] + w[3]) < m)
                m = t;
            if (j && (t = d[i][j - 1] + w[2]) < m)
                m = t;
            if (i > 1 && j > 1 && p[i - 1] == q[j - 2] && p[i - 2] == q[j - 1] && (t = d[i - 2][j - 2] + w[1]) < m)
                m = t;
            d[i][j] = m;
        }
    mc_case(mc_mix(mc_mix(n1 * 1000 + n2, ka * 10 + kb), w[0]));
    got = (ka ^ kb) & 1 ? bfdev_levenshtein(&mc_alloc, p, q, w[0], w[1], w[2], w[3]) :
        bfdev_levenshtein_len(&mc_alloc, p, q, n1, n2, w[0], w[1], w[2], w[3]);
    mc_step("levenshtein of %d and %d letters (kinds %d, %d; weights %u, %u, %u, %u) -> %u", n1, n2, ka, kb, w[0], w[1], w[2], w[3], got);
    mc_assert(got == d[n1][n2], "distance is %u, cheapest edit script costs %u", got, d[n1][n2]);
    mc_no_leaks("levenshtein");
}

const mc_scenario_t mc_scenarios[] = {
    { "three-letters", s_lev, { 4, 5 }, 3, 5 },
    { "large", s_large, { 0, 0 }, 0, 2 },
    { "two-letters", s_lev, { 5, 6 }, 2, 5 },
    { "two-letters-faults", s_lev, { 2, 3 }, 2 + 16, 3 },
    { NULL }
};
