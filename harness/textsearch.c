/*
 * Every pattern, text and division into blocks: each algorithm against plain comparison
 * at every position. bm and sunday look at one block at a time, kmp at the whole text.
 */
#include "mc.h"
#include <limits.h>
#include <bfdev/textsearch.h>

static const char *const algos[] = { "kmp", "bm", "sunday" };
#define MAXLEN 20

typedef struct {
    bfdev_ts_state_t tss;
    unsigned nblk, len[MAXLEN];
    uint8_t *blk[MAXLEN];
    unsigned total, calls;
} src_t;

static unsigned int provide(bfdev_ts_context_t *tsc, bfdev_ts_state_t *tss, unsigned int consumed, const void **dest)
{
    src_t *s = (src_t *)tss;
    unsigned i, pos = 0;

    mc_assert(tss->pdata == s, "the state's private data was changed");
    mc_assert(consumed <= s->total, "asked for data at %u of %u", consumed, s->total);
    mc_assert(++s->calls < 1000, "the search does not end");
    for (i = 0; i < s->nblk; pos += s->len[i++])
        if (consumed < pos + s->len[i]) {
            *dest = s->blk[i] + (consumed - pos);
            return pos + s->len[i] - consumed;
        }
    return 0;
}

static uint8_t fold(uint8_t c, bool icase)
{
    return icase && c >= 'a' && c <= 'z' ? c - 32 : c;
}

static bool match(const uint8_t *t, const uint8_t *p, unsigned m, bool icase)
{
    unsigned i;

    for (i = 0; i < m; i++)
        if (fold(t[i], icase) != fold(p[i], icase))
            return false;
    return true;
}

/* leftmost, non overlapping; not across blocks when a block is looked at by itself */
static unsigned expect(const uint8_t *t, unsigned n, unsigned cuts, const uint8_t *p, unsigned m, bool icase, bool across, unsigned *pos)
{
    unsigned i = 0, k = 0;

    while (i + m <= n) {
        unsigned inner = m > 1 ? cuts >> i & ((1u << (m - 1)) - 1) : 0;

        if ((across || !inner) && match(t + i, p, m, icase)) {
            pos[k++] = i;
            i += m;
        } else
            i++;
    }
    return k;
}

static void build(src_t *s, const uint8_t *t, unsigned n, unsigned cuts)
{
    unsigned i, start = 0;

    memset(s, 0, sizeof(*s));
    s->tss.pdata = s;
    s->tss.offset = 0x5555;
    s->total = n;
    for (i = 0; i < n; i++)
        if (i == n - 1 || cuts >> i & 1) {
            s->len[s->nblk] = i + 1 - start;
            s->blk[s->nblk] = mc_malloc(i + 1 - start);
            memcpy(s->blk[s->nblk++], t + start, i + 1 - start);
            start = i + 1;
        }
}

static void drop(src_t *s)
{
    unsigned i;

    for (i = 0; i < s->nblk; i++)
        mc_free(s->blk[i]);
}

static const char *show(const uint8_t *t, unsigned n)
{
    static char out[4][4 * MAXLEN + 1];
    static int cur;
    char *o = out[cur++ & 3], *p = o;
    unsigned i;

    for (*p = 0, i = 0; i < n; i++)
        p += t[i] > 32 && t[i] < 127 ? sprintf(p, "%c", t[i]) : sprintf(p, "\\x%02x", t[i]);
    return o;
}

static void run(bfdev_ts_context_t *tsc, int a, bool icase, const uint8_t *p, unsigned m, const uint8_t *t, unsigned n, unsigned cuts)
{
    unsigned want[MAXLEN + 1], k, i, got;
    src_t s;

    k = expect(t, n, cuts, p, m, icase, a == 0, want);
    build(&s, t, n, cuts);
    tsc->next_block = provide;
    for (i = 0; i <= k + 1; i++) {
        got = i ? bfdev_textsearch_next(tsc, &s.tss) : bfdev_textsearch_find(tsc, &s.tss);
        mc_assert(got == (i < k ? want[i] : UINT_MAX), "%s%s: match %u of \"%s\" in \"%s\" (cuts %#x) at %d, expected at %d", algos[a], icase ? " ignoring case" : "",
                  i, show(p, m), show(t, n), cuts, (int)got, i < k ? (int)want[i] : -1);
    }
    drop(&s);
}

static bfdev_ts_context_t *create(int a, const uint8_t *p, unsigned m, bool icase)
{
    uint8_t *copy = mc_malloc(m);
    bfdev_ts_context_t *tsc;

    memcpy(copy, p, m);
    tsc = bfdev_textsearch_create(&mc_alloc, algos[a], copy, m, icase ? BFDEV_TS_IGCASE : 0);
    mc_assert(tsc, "%s: create failed", algos[a]);
    mc_free(copy);
    return tsc;
}

static const char *const alphabets[] = { "ab", "aAb", "@`Aa", "\x7f\x80\xff", "zZ[{" };

static void digits(unsigned long v, unsigned n, const char *abc, unsigned base, uint8_t *out)
{
    while (n--) {
        out[n] = abc[v % base];
        v /= base;
    }
}

static unsigned long power(unsigned long b, unsigned n)
{
    unsigned long r = 1;

    while (n--)
        r *= b;
    return r;
}

/* all patterns up to plen, all texts up to tlen over the alphabet, all divisions of them or none */
static void explore(const char *abc, unsigned plen, unsigned tlen, bool split)
{
    unsigned base = strlen(abc), a = mc_choose(3), m = 1 + mc_choose(plen), pv = mc_choose(power(base, m)), icase = mc_choose(2), n, cuts;
    uint8_t p[MAXLEN], t[MAXLEN];
    bfdev_ts_context_t *tsc;
    unsigned long v;

    digits(pv, m, abc, base, p);
    mc_step("%s%s \"%s\"", algos[a], icase ? " ignoring case" : "", show(p, m));
    tsc = create(a, p, m, icase);
    mc_assert(bfdev_textsearch_pattern_len(tsc) == m, "pattern length %u of %u", bfdev_textsearch_pattern_len(tsc), m);
    mc_assert(match(textsearch_pattern_get(tsc), p, m, icase), "pattern is not the one given");
    for (n = 0; n <= tlen; n++)
        for (v = 0; v < power(base, n); v++) {
            digits(v, n, abc, base, t);
            for (cuts = 0; cuts < (split && n ? 1u << (n - 1) : 1); cuts++) {
                run(tsc, a, icase, p, m, t, n, cuts);
                mc_case(mc_mix(mc_mix(mc_mix(a * 2 + icase, m), pv * 31 + base), mc_mix(n * 1000003 + v, cuts)));
            }
        }
    mc_assert(match(textsearch_pattern_get(tsc), p, m, icase), "the search changed its pattern");
    bfdev_textsearch_destroy(tsc);
    mc_no_leaks("destroy");
}

static void s_blocks(void)
{
    explore(alphabets[mc_arg], mc_bound / 10, mc_bound % 10, true);
}

static void s_long(void)
{
    explore(alphabets[0], mc_bound / 100, mc_bound % 100, false);
}

/* every byte value, against itself, its other case and its neighbours */
static void s_bytes(void)
{
    int a = mc_choose(3), icase = mc_choose(2), c = mc_choose(256), d, lead;
    uint8_t p[2], t[4];
    bfdev_ts_context_t *tsc;

    mc_step("%s byte %#x", algos[a], c);
    for (lead = 0; lead < 2; lead++) {
        p[0] = lead ? 'x' : c;
        p[1] = lead ? c : 'x';
        tsc = create(a, p, 2, icase);
        for (d = 0; d < 256; d++) {
            uint8_t q[][4] = { { lead ? 'x' : d, lead ? d : 'x', 'y', 'y' }, { d, lead ? 'x' : d, lead ? d : 'x', d }, { 'x', d, 'x', d }, { d, 'x', 'x', d } };
            int i;

            for (i = 0; i < 4; i++) {
                memcpy(t, q[i], 4);
                run(tsc, a, icase, p, 2, t, 4, 0);
            }
            mc_case(mc_mix(a * 4 + icase * 2 + lead, c * 256 + d));
        }
        bfdev_textsearch_destroy(tsc);
    }
    mc_no_leaks("destroy");
}

/* several searches of one context in progress at once, through the linear helper too */
static void s_parallel(void)
{
    static const uint8_t text[2][9] = { "abaababa", "bbaabaab" };
    int a = mc_choose(3), i, w, left[2] = { 0, 0 };
    unsigned want[2][MAXLEN], k[2], got;
    bfdev_ts_linear_t lin[2] = { };
    uint8_t *data[2];
    bfdev_ts_context_t *tsc = create(a, (const uint8_t *)"ab", 2, false);

    for (w = 0; w < 2; w++) {
        data[w] = mc_malloc(8);
        memcpy(data[w], text[w], 8);
        k[w] = expect(text[w], 8, 0, (const uint8_t *)"ab", 2, false, true, want[w]);
    }
    for (i = 0; i < mc_bound; i++) {
        w = mc_choose(2);
        if (!left[w] || mc_choose(2)) {
            left[w] = 0;
            got = bfdev_textsearch_linear(tsc, &lin[w], data[w], 8);
        } else
            got = bfdev_textsearch_next(tsc, &lin[w].tss);
        mc_step("search %d match %d: %d", w, left[w], (int)got);
        mc_assert(got == ((unsigned)left[w] < k[w] ? want[w][left[w]] : UINT_MAX), "%s: match %d of search %d at %d", algos[a], left[w], w, (int)got);
        left[w]++;
        mc_case(mc_mix(mc_mix(a, left[0]), left[1]));
    }
    bfdev_textsearch_destroy(tsc);
    for (w = 0; w < 2; w++)
        mc_free(data[w]);
    mc_no_leaks("destroy");
}

/* long patterns and texts, in blocks of one size */
struct big { bfdev_ts_state_t tss; const uint8_t *t; unsigned n, size; uint8_t *block; };

static unsigned int provide_big(bfdev_ts_context_t *tsc, bfdev_ts_state_t *tss, unsigned int consumed, const void **dest)
{
    struct big *s = (struct big *)tss;
    unsigned end;

    mc_assert(tss->pdata == s && consumed <= s->n, "asked for data at %u of %u", consumed, s->n);
    if (consumed == s->n)
        return 0;
    end = consumed / s->size * s->size + s->size;
    if (end > s->n)
        end = s->n;
    mc_step_count();
    *dest = s->block + consumed;
    return end - consumed;
}

static uint8_t letter(int kind, unsigned i, unsigned m)
{
    switch (kind) {
    case 0: return i == m - 1 ? 'b' : 'a';
    case 1: return i ? 'a' : 'b';
    case 2: return "ab"[i & 1];
    case 3: return "ab"[__builtin_popcount(i) & 1];
    case 4: return i == m / 2 ? 'b' : 'a';
    case 5: return 'a';
    case 6: return i % 7 == 3 ? i % 5 == 2 ? 'c' : 'b' : 'a';
    default: return i * 2654435761u >> 24;
    }
}

static void s_large(void)
{
    static const unsigned lens[] = { 32, 64, 127, 128, 129, 254, 255, 256, 257, 300, 513 }, sizes[] = { 200, 255, 256, 257, 1000, 4096, 65535, 65536, 65537, 70001 };
    int a = mc_choose(3), kind = mc_choose(8), icase = mc_choose(2);
    unsigned m = lens[mc_choose(MC_ARRAY_SIZE(lens))], n = sizes[mc_choose(MC_ARRAY_SIZE(sizes))], i, j, got, count;
    uint8_t *p = mc_malloc(m), *t = mc_malloc(n);
    struct big s = { .t = t, .n = n };
    bfdev_ts_context_t *tsc;
    int b;

    if (n > 5000 && (m % 16 > 1 || kind == 5))
        mc_prune();
    mc_step("%s%s pattern of %u letters (kind %d) in a text of %u", algos[a], icase ? " ignoring case" : "", m, kind, n);
    for (i = 0; i < m; i++)
        p[i] = letter(kind, i, m);
    /* copies of the pattern, whole, cut short at both ends and with one letter off, in other letters' company */
    for (i = 0, j = 0; i < n; j++) {
        unsigned from = j % 9 == 1 ? 1 + j % m : j % 9 == 3 ? m - 1 : 0, k,
            to = j % 9 == 2 ? m - 1 - j % 7 : j % 9 == 5 ? 1 + j * 5 % m : j % 9 == 7 ? 1 + j * 3 % 8 : m;

        for (k = from; k < to && i < n; k++)
            t[i++] = j % 9 == 4 && k == j * 37 % m ? 'd' : letter(kind, k, m) ^ (icase && j & 1 && letter(kind, k, m) - 'a' < 26u ? 0x20 : 0);
    }
    s.tss.pdata = &s;
    s.block = t;
    tsc = create(a, p, m, icase);
    mc_assert(bfdev_textsearch_pattern_len(tsc) == m, "pattern length %u of %u", bfdev_textsearch_pattern_len(tsc), m);
    tsc->next_block = provide_big;
    for (b = 0; b < 4; b++) {
        s.size = b == 0 ? n : b == 1 ? m : b == 2 ? 256 : 3 * m + 1;
        got = bfdev_textsearch_find(tsc, &s.tss);
        for (i = count = 0; i + m <= n; ) {
            if ((a == 0 || i / s.size == (i + m - 1) / s.size) && match(t + i, p, m, icase)) {
                mc_assert(got == i, "match %u in blocks of %u at %d, expected at %u", count, s.size, (int)got, i);
                got = bfdev_textsearch_next(tsc, &s.tss);
                i += m;
                count++;
            } else
                i++;
        }
        mc_assert(got == UINT_MAX, "match %u in blocks of %u at %u, expected none", count, s.size, got);
        mc_case(mc_mix(mc_mix(mc_mix(a * 2 + icase, m), n), kind * 4 + b));
    }
    mc_assert(match(textsearch_pattern_get(tsc), p, m, icase), "the search changed its pattern");
    bfdev_textsearch_destroy(tsc);
    mc_free(p);
    mc_free(t);
    mc_no_leaks("destroy");
}

static bfdev_ts_context_t *u_prepare(const bfdev_alloc_t *alloc, const void *pattern, size_t len, unsigned long flags)
{
    bfdev_ts_context_t *tsc = mc_zalloc(sizeof(*tsc));

    tsc->flags = flags;
    return tsc;
}
static void u_destroy(bfdev_ts_context_t *tsc) { mc_free(tsc); }
static unsigned u_find(bfdev_ts_context_t *tsc, bfdev_ts_state_t *tss) { return 77; }
static const void *u_get(bfdev_ts_context_t *tsc) { return "u"; }
static unsigned u_len(bfdev_ts_context_t *tsc) { return 1; }

/* histories of registrations */
static void s_registry(void)
{
    static const char *const names[] = { "one", "two", "one", "kmp" };
    static bfdev_ts_algorithm_t user[4];
    bool in[4] = { };
    int i, k, j, rc;

    for (k = 0; k < 4; k++)     /* an execution that was cut short may have left some */
        if (user[k].list.next && user[k].list.next != (void *)BFDEV_POISON_LIST1)
            bfdev_textsearch_unregister(&user[k]);
    for (k = 0; k < 4; k++)
        user[k] = (bfdev_ts_algorithm_t){ .name = names[k], .prepare = u_prepare, .destroy = u_destroy, .find = u_find, .pattern_get = u_get, .pattern_len = u_len };
    for (i = 0; i < mc_bound; i++) {
        k = mc_choose(5);
        if (k == 4) {
            bfdev_ts_algorithm_t part = { .name = "two", .prepare = u_prepare, .destroy = u_destroy, .find = u_find, .pattern_get = u_get, .pattern_len = u_len };

            switch (mc_choose(6)) {
            case 0: part.name = NULL; break;
            case 1: part.prepare = NULL; break;
            case 2: part.destroy = NULL; break;
            case 3: part.find = NULL; break;
            case 4: part.pattern_get = NULL; break;
            default: part.pattern_len = NULL; break;
            }
            rc = bfdev_textsearch_register(&part);
            mc_step("register an incomplete one: %d", rc);
            mc_assert(rc == -BFDEV_EINVAL, "register of an incomplete algorithm returned %d", rc);
        } else if (mc_choose(2)) {
            int taken = k == 3;

            for (j = 0; j < 3; j++)
                taken |= in[j] && !strcmp(names[j], names[k]);
            rc = bfdev_textsearch_register(&user[k]);
            mc_step("register %s: %d", names[k], rc);
            mc_assert(taken ? rc < 0 : rc == 0, "register of %s returned %d", names[k], rc);
            in[k] |= !taken;
        } else {
            rc = bfdev_textsearch_unregister(&user[k]);
            mc_step("unregister %s: %d", names[k], rc);
            mc_assert(in[k] ? rc == 0 : rc == -BFDEV_ENOENT, "unregister of %s returned %d", names[k], rc);
            in[k] = false;
        }
        for (j = 0; j < 4; j++) {
            bfdev_ts_context_t *tsc = bfdev_textsearch_create(&mc_alloc, names[j], "a", 1, 0);

            if (j == 3) {
                mc_assert(tsc && tsc->algo != &user[3], "kmp is no longer the library's");
            } else {
                bfdev_ts_algorithm_t *which = in[j] ? &user[j] : j == 0 && in[2] ? &user[2] : j == 2 && in[0] ? &user[0] : NULL;

                mc_assert(which ? tsc && tsc->algo == which : !tsc, "%s created by the wrong algorithm", names[j]);
                if (tsc) {
                    bfdev_ts_state_t tss;

                    mc_assert(bfdev_textsearch_find(tsc, &tss) == 77, "registered find not used");
                }
            }
            if (tsc)
                bfdev_textsearch_destroy(tsc);
        }
        mc_case(mc_mix(in[0] + 2 * in[1] + 4 * in[2], k));
    }
    for (k = 0; k < 4; k++)
        if (in[k])
            bfdev_textsearch_unregister(&user[k]);
    mc_no_leaks("registry");
}

static void s_faults(void)
{
    int a = mc_choose(4), m = 1 + mc_choose(3);
    static const char *const names[] = { "kmp", "bm", "sunday", "none" };
    bfdev_ts_context_t *tsc;

    mc_fault_budget = 1;
    tsc = bfdev_textsearch_create(&mc_alloc, names[a], "aba", m, mc_choose(2));
    mc_fault_budget = 0;
    mc_case(mc_mix(mc_mix(a, m), !!tsc));
    if (a == 3 || mc_faults)
        mc_assert(!tsc, "%s: created although it cannot be", names[a]);
    else
        mc_assert(tsc, "%s: not created", names[a]);
    if (tsc)
        bfdev_textsearch_destroy(tsc);
    mc_no_leaks("create");
}

const mc_scenario_t mc_scenarios[] = {
    { "allocation failures", s_faults, { 1, 1 }, 0, 2 },
    { "two letters, all blocks", s_blocks, { 46, 58 }, 0, 3 },
    { "letter cases, all blocks", s_blocks, { 35, 46 }, 1, 3 },
    { "letters and non letters, all blocks", s_blocks, { 24, 35 }, 2, 3 },
    { "high bytes, all blocks", s_blocks, { 35, 46 }, 3, 3 },
    { "ends of the alphabet, all blocks", s_blocks, { 24, 35 }, 4, 3 },
    { "long patterns", s_long, { 709, 913 }, 0, 3 },
    { "large", s_large, { 0, 0 }, 0, 4 },
    { "every byte", s_bytes, { 1, 1 }, 0, 3 },
    { "two searches of one context", s_parallel, { 8, 11 }, 0, 3 },
    { "registrations", s_registry, { 4, 5 }, 0, 3 },
    { NULL }
};
