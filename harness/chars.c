/*
 * Characters: every ASCII character, every class, in the constant, the table and the macro
 * form, against the C locale. Strings: every short string over a few letters, in a buffer
 * that ends with it, against their definition.
 */
#include "mc.h"
#include <ctype.h>
#include <limits.h>
#include <bfdev/ctype.h>
#include <bfdev/string.h>

#define R4(f, x, n) f(x, n) f(x, n + 1) f(x, n + 2) f(x, n + 3)
#define R16(f, x, n) R4(f, x, n) R4(f, x, n + 4) R4(f, x, n + 8) R4(f, x, n + 12)
#define R64(f, x, n) R16(f, x, n) R16(f, x, n + 16) R16(f, x, n + 32) R16(f, x, n + 48)
#define CONST_FORM(x, c) got[c] = bfdev_is##x(c);

#define CLASS(x)                                                                    \
static void check_##x(void)                                                         \
{                                                                                   \
    static int got[128];                                                            \
    volatile int v;                                                                 \
    int c, want;                                                                    \
                                                                                    \
    R64(CONST_FORM, x, 0)                                                           \
    R64(CONST_FORM, x, 64)                                                          \
    for (c = 0; c < 128; c++) {                                                     \
        want = !!is##x(c);                                                          \
        v = c;                                                                      \
        mc_step(#x " of %#x", c);                                                   \
        mc_case(mc_mix(mc_mix_bytes(0, #x, sizeof(#x)), c));                        \
        mc_assert(!got[c] == !want, "is" #x " of the constant %#x is %d", c, got[c]); \
        mc_assert(!bfdev_is##x(v) == !want, "is" #x " of %#x is %d", c, !want);     \
    }                                                                               \
}

CLASS(alpha) CLASS(digit) CLASS(blank) CLASS(cntrl) CLASS(graph) CLASS(lower) CLASS(print)
CLASS(space) CLASS(upper) CLASS(alnum) CLASS(punct) CLASS(xdigit) CLASS(ascii)

static void check_case(void)
{
    int c;

    for (c = 0; c < 256; c++) {
        mc_step("case of %#x", c);
        mc_case(c);
        mc_assert(bfdev_toascii(c) == (c & 127), "toascii of %#x is %#x", c, bfdev_toascii(c));
        if (c > 127)
            continue;
        mc_assert(bfdev_tolower(c) == tolower(c), "tolower of %#x is %#x", c, bfdev_tolower(c));
        mc_assert(bfdev_toupper(c) == toupper(c), "toupper of %#x is %#x", c, bfdev_toupper(c));
    }
}

static void s_class(void)
{
    static void (*const checks[])(void) = {
        check_alpha, check_digit, check_blank, check_cntrl, check_graph, check_lower, check_print,
        check_space, check_upper, check_alnum, check_punct, check_xdigit, check_ascii, check_case,
    };

    checks[mc_choose(MC_ARRAY_SIZE(checks))]();
}

/* a string of up to mc_bound letters, with or without an end */
static const char letters[] = { 'a', 'b', '\xff' };

static char *choose(int max, bool end, int *np)
{
    int n = mc_choose(max + 1), i;
    char *s = mc_buffer(n + end);

    for (i = 0; i < n; i++)
        s[i] = letters[mc_choose(3)];
    if (end)
        s[n] = 0;
    *np = n;
    return s;
}

static const int chars[] = { 'a', 'b', 0xff, -1, 'a' + 256, 0, 'z' };

static void s_strdiff(void)
{
    int n, i, c;
    char *s = choose(mc_bound, true, &n), *got;

    c = chars[mc_choose(MC_ARRAY_SIZE(chars))];
    for (i = 0; i < n && s[i] == (char)c; i++)
        ;
    got = bfdev_strdiff(s, c);
    mc_step("strdiff \"%s\" %#x -> %ld", s, c, got ? (long)(got - s) : -1L);
    mc_case(mc_mix(mc_mix_bytes(n, s, n), c));
    mc_assert(got == (i < n ? s + i : NULL), "the first other character is %d, not %ld", i < n ? i : -1, got ? (long)(got - s) : -1L);
}

static void s_memdiff(void)
{
    int n, i, c, len;
    char *s = choose(mc_bound, false, &n), *got;

    if (n && mc_choose(2))
        s[mc_choose(n)] = 0;
    c = chars[mc_choose(MC_ARRAY_SIZE(chars))];
    len = mc_choose(n + 1);
    for (i = 0; i < len && s[i] == (char)c; i++)
        ;
    got = bfdev_memdiff(s, c, len);
    mc_step("memdiff of %d, %#x -> %ld", len, c, got ? (long)(got - s) : -1L);
    mc_case(mc_mix(mc_mix_bytes(n, s, n), c * 16 + len));
    mc_assert(got == (i < len ? s + i : NULL), "the first other byte is %d, not %ld", i < len ? i : -1, got ? (long)(got - s) : -1L);
}

static void s_dup(void)
{
    static const size_t far[] = { 1, 2, 40, 1000, SIZE_MAX / 2, SIZE_MAX - 1, SIZE_MAX };
    bool bounded = mc_choose(2), end = !bounded || mc_choose(2);
    int n, want;
    char *s = choose(mc_bound, end, &n), *got;
    size_t len = 0;

    want = n;
    if (bounded) {
        len = mc_choose(n + 1 + (end ? (int)MC_ARRAY_SIZE(far) : 0));
        if (len > (size_t)n)
            len = far[len - n - 1] > SIZE_MAX / 4 ? far[len - n - 1] : n + far[len - n - 1];
        if (len < (size_t)n)
            want = len;
    }
    mc_fault_budget = 1;
    got = bounded ? bfdev_strndup(&mc_alloc, s, len) : bfdev_strdup(&mc_alloc, s);
    mc_fault_budget = 0;
    mc_step("strdup of %d letters, limit %zu -> %s", n, len, got ? "ok" : "none");
    mc_case(mc_mix(mc_mix(mc_mix_bytes(n, s, n), len), bounded * 4 + end * 2 + !got));
    mc_assert(!got == !!mc_faults, got ? "copied without memory" : "not copied");
    if (got) {
        mc_assert(mc_is_block(got) && mc_block_size(got) > (size_t)want, "a copy of %d letters has a block of %zu bytes", want, mc_block_size(got));
        mc_assert(!memcmp(got, s, want) && !got[want], "the copy of the first %d of %d letters is another string", want, n);
        bfdev_free(&mc_alloc, got);
    }
    mc_no_leaks("copy");
}

static void s_null(void)
{
    mc_assert(!bfdev_strdup(&mc_alloc, NULL) && !bfdev_strndup(&mc_alloc, NULL, 3), "a copy of nothing");
    mc_step("no string");
    mc_case(1);
    mc_no_leaks("no string");
}

/* lengths around 2^8, 2^12 and 2^16 */
static void s_large(void)
{
    static const int lens[] = { 31, 32, 33, 63, 64, 65, 127, 128, 129, 255, 256, 257, 4095, 4096, 4097, 65535, 65536, 65537, 70001, 200003 };
    int n = lens[mc_choose(MC_ARRAY_SIZE(lens))], kind = mc_choose(6), c = mc_choose(2) ? 'a' : 0xf0, i, at, align = mc_choose(2);
    char *s = (char *)mc_buffer(n + 1 + align) + align, *got;

    at = kind == 0 ? n : kind == 1 ? n - 1 : kind == 2 ? 0 : kind == 3 ? n / 2 : kind == 4 ? n - n / 7 : (n > 256 ? 256 : n - 2);
    for (i = 0; i < n; i++)
        s[i] = i < at ? c : c + 1 + (i - at) % 3;
    s[n] = 0;
    mc_step("%d characters, another one from %d", n, at);
    mc_case(mc_mix(mc_mix(n, kind), c));
    got = bfdev_strdiff(s, c);
    mc_assert(got == (at < n ? s + at : NULL), "strdiff finds %ld instead of %d", got ? (long)(got - s) : -1L, at);
    got = bfdev_memdiff(s, c, n);
    mc_assert(got == (at < n ? s + at : NULL), "memdiff finds %ld instead of %d", got ? (long)(got - s) : -1L, at);
    got = bfdev_memdiff(s, c, n + 1);
    mc_assert(got == s + at, "memdiff finds %ld instead of %d", got ? (long)(got - s) : -1L, at);
    for (i = 0; i < 6; i++) {
        size_t len = i == 0 ? n : i == 1 ? n - 1 : i == 2 ? n + 1 : i == 3 ? 1000000000 : i == 4 ? n / 2 : SIZE_MAX, want = len < (size_t)n ? len : n;

        got = kind & 1 && len >= (size_t)n ? bfdev_strdup(&mc_alloc, s) : bfdev_strndup(&mc_alloc, s, len);
        mc_assert(got && mc_block_size(got) > want, "not copied");
        mc_assert(!memcmp(got, s, want) && !got[want], "the copy of the first %zu of %d characters is another string", want, n);
        bfdev_free(&mc_alloc, got);
    }
    mc_no_leaks("copy");
}

const mc_scenario_t mc_scenarios[] = {
    { "classes", s_class, { 1, 1 }, 0, 1 },
    { "strdiff", s_strdiff, { 7, 9 }, 0, 2 },
    { "memdiff", s_memdiff, { 6, 8 }, 0, 2 },
    { "copies", s_dup, { 7, 9 }, 0, 3 },
    { "large", s_large, { 0, 0 }, 0, 2 },
    { "no string", s_null, { 1, 1 }, 0, 1 },
    { NULL }
};
