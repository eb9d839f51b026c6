/*
 * Argument splitting: every string over letters and separators, with
 * allocation failures; exact sized input so that overreads show.
 */
#include "mc.h"
#include <bfdev/argv.h>

static void
s_argv(void)
{
    static const char letters[] = "a \tb\r\n\v";
    int n, i, j, words = 0;
    const char *word[32];
    int wlen[32];
    char *s, **argv;
    unsigned argc, *pargc;

    n = mc_choose(mc_bound + 1);
    s = mc_buffer(n + 1);
    for (i = 0; i < n; ++i)
        s[i] = letters[mc_choose(mc_arg & 15)];
    s[n] = 0;
    for (i = 0; i < n; ) {
        if (strchr(" \t\r\n", s[i])) {
            i++;
            continue;
        }
        for (j = i; j < n && !strchr(" \t\r\n", s[j]); ++j);
        word[words] = s + i;
        wlen[words++] = j - i;
        i = j;
    }
    mc_case(mc_mix_bytes(n, s, n));
    mc_assert(bfdev_argv_count(s) == (unsigned)words, "count of \"%s\" is %u instead of %d", s, bfdev_argv_count(s), words);
    mc_fault_budget = mc_arg >> 4;
    argc = 12345;
    pargc = mc_choose(2) ? NULL : &argc;
    argv = bfdev_argv_split(&mc_alloc, s, pargc);
    mc_step("split \"%s\" -> %s", s, argv ? "ok" : "failed");
    mc_assert(!argv == (mc_faults > 0), "split returned %p", argv);
    mc_assert(argv || argc == 12345 || argc == 0, "failed split reported %u words", argc);
    if (!argv) {
        mc_no_leaks("failed split");
        return;
    }
    mc_assert(!pargc || argc == (unsigned)words, "argc is %u instead of %d", argc, words);
    for (i = 0; i < words; ++i) {
        mc_assert(argv[i], "word %d is missing", i);
        mc_assert(strlen(argv[i]) == (size_t)wlen[i] && !memcmp(argv[i], word[i], wlen[i]), "word %d of \"%s\" is \"%s\"", i, s, argv[i]);
        mc_assert(argv[i] < s || argv[i] > s + n, "word %d is not a copy", i);
        memset(argv[i], 'x', wlen[i]);      /* the words are writable and apart */
    }
    mc_assert(!argv[words], "vector of \"%s\" is not terminated", s);
    bfdev_argv_destroy(&mc_alloc, argv);
    mc_no_leaks("destroyed vector");
}

/* many words and long words */
static void
s_large(void)
{
    static const unsigned counts[] = { 1, 255, 256, 257, 4096, 65535, 65536, 65537, 70001 };
    unsigned words = counts[mc_choose(MC_ARRAY_SIZE(counts))], len = counts[mc_choose(MC_ARRAY_SIZE(counts))], gap = mc_choose(3), lead = mc_choose(2), i, j, argc = 0;
    static const unsigned gaps[] = { 1, 2, 300 };
    char *s, *p, **argv;

    gap = gaps[gap];
    if ((unsigned long)words * (len + gap) > 3000000)
        mc_prune();
    s = p = mc_buffer((len + gap) * words + gap + 1);
    for (j = 0; lead && j < gap; ++j)
        *p++ = ' ';
    for (i = 0; i < words; ++i) {
        for (j = 0; j < len; ++j)
            *p++ = 'a' + (i * 31 + j) % 26;
        for (j = 0; j < gap && (i < words - 1 || !lead); ++j)
            *p++ = "\t \r\n"[(i + j) % 4];
    }
    *p = 0;
    mc_step("%u words of %u letters, %u separators each", words, len, gap);
    mc_case(mc_mix(mc_mix(words, len), gap * 2 + lead));
    mc_assert(bfdev_argv_count(s) == words, "count of %u words is %u", words, bfdev_argv_count(s));
    argv = bfdev_argv_split(&mc_alloc, s, &argc);
    mc_assert(argv && argc == words, "split of %u words gives %u", words, argc);
    for (i = 0; i < words; ++i) {
        mc_assert(argv[i] && strlen(argv[i]) == len, "word %u is not whole", i);
        for (j = 0; j < len; ++j)
            mc_assert(argv[i][j] == (char)('a' + (i * 31 + j) % 26), "word %u, letter %u", i, j);
    }
    mc_assert(!argv[words], "vector of %u words is not terminated", words);
    bfdev_argv_destroy(&mc_alloc, argv);
    mc_no_leaks("destroyed vector");
}

const mc_scenario_t mc_scenarios[] = {
    { "letter-space-tab", s_argv, { 9, 11 }, 3, 3 },
    { "large", s_large, { 0, 0 }, 0, 3 },
    { "all-separators", s_argv, { 5, 7 }, 7, 3 },
    { "faults", s_argv, { 5, 7 }, 3 + 16, 3 },
    { NULL }
};
