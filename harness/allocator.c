/*
 * The allocator front end: every history of calls, for every way of giving the operations:
 * a subset of them through the allocator, through its default, or none.
 */
#include "mc.h"
#include <limits.h>
#include <bfdev/allocator.h>

/* of the address sanitizer: is p the start of a live block, and of which size */
int __sanitizer_get_ownership(const volatile void *p);
size_t __sanitizer_get_allocated_size(const volatile void *p);

enum { NONE, ALLOC, ZALLOC, REALLOC, FREE };
static struct { int op; size_t size; const void *block; void *result; } last;
static int calls, refuse;
static int marker[2];
static void *expect_pdata;

static void note(int op, size_t size, const void *block, void *result, void *pdata)
{
    mc_assert(pdata == expect_pdata, "an operation got other private data");
    calls++;
    last.op = op;
    last.size = size;
    last.block = block;
    last.result = result;
}

/* blocks of the operations are those of the C library, so that every mixture is legal */
static void *my_alloc(size_t size, void *pdata)
{
    void *p = refuse || size > 4096 ? NULL : malloc(size);

    if (p)
        memset(p, 0xcc, size);
    note(ALLOC, size, NULL, p, pdata);
    return p;
}

static void *my_zalloc(size_t size, void *pdata)
{
    void *p = refuse || size > 4096 ? NULL : calloc(1, size);

    note(ZALLOC, size, NULL, p, pdata);
    return p;
}

static void *my_realloc(void *block, size_t size, void *pdata)
{
    void *p = refuse || size > 4096 ? NULL : realloc(block, size);

    note(REALLOC, size, block, p, pdata);
    return p;
}

static void my_free(void *block, void *pdata)
{
    note(FREE, 0, block, NULL, pdata);
    free(block);
}

static const char *const names[] = { "malloc", "zalloc", "realloc", "free", "malloc_array", "zalloc_array", "realloc_array" };
static const size_t sizes[] = { 0, 1, 24, 7 };
static const struct { size_t nr, size; } arrays[] = {
    { 0, 8 }, { 3, 5 }, { 8, 0 }, { 1, 1 },
    { SIZE_MAX, 2 }, { (size_t)1 << 32, ((size_t)1 << 32) + 1 }, { SIZE_MAX / 8 + 2, 8 }, { 2, SIZE_MAX / 2 + 1 },
    { SIZE_MAX, SIZE_MAX },
};

struct slot { unsigned char *p; size_t size; unsigned char fill; };

static void s_history(void)
{
    static bfdev_alloc_t alloc;
    static bfdev_alloc_ops_t ops;
    const bfdev_alloc_t *use;
    struct slot s[2] = { };
    int way = mc_choose(5), mask, form, i, step, which, nr, op, want, small;
    size_t size;
    void *got;

    /* 0: nothing given, 1: through the allocator, 2: as the default allocator's, 3: as the default operations of it, 4: of an allocator without operations */
    mask = way ? mc_choose(16) : 0;
    form = mc_choose(2);
    if (form)
        bfdev_alloc_ops_init(&ops, mask & 1 ? my_alloc : NULL, mask & 2 ? my_zalloc : NULL, mask & 4 ? my_realloc : NULL, mask & 8 ? my_free : NULL);
    else
        ops = BFDEV_ALLOC_OPS_INIT(mask & 1 ? my_alloc : NULL, mask & 2 ? my_zalloc : NULL, mask & 4 ? my_realloc : NULL, mask & 8 ? my_free : NULL);
    bfdev_alloc_default = BFDEV_ALLOC_INIT(NULL, NULL);
    bfdev_alloc_default_ops = BFDEV_ALLOC_OPS_INIT(NULL, NULL, NULL, NULL);
    use = NULL;
    expect_pdata = &marker[0];
    if (way == 1) {
        bfdev_alloc_init(&alloc, &ops, &marker[0]);
        bfdev_alloc_default = BFDEV_ALLOC_INIT(&ops, &marker[1]);
        use = &alloc;
    } else if (way == 2) {
        bfdev_alloc_default = BFDEV_ALLOC_INIT(&ops, &marker[0]);
    } else if (way == 3) {
        bfdev_alloc_default_ops = ops;
        bfdev_alloc_default.pdata = &marker[0];
    } else if (way == 4) {
        bfdev_alloc_default_ops = ops;
        bfdev_alloc_default.pdata = &marker[1];
        bfdev_alloc_init(&alloc, NULL, &marker[0]);
        use = &alloc;
    }

    for (step = 0; step < mc_bound; step++) {
        which = mc_choose(2);
        op = mc_choose(7);
        small = 1;
        size = nr = 0;
        if (op < 3) {
            size = sizes[mc_choose(MC_ARRAY_SIZE(sizes))];
        } else if (op > 3) {
            nr = mc_choose(MC_ARRAY_SIZE(arrays));
            size = arrays[nr].nr * arrays[nr].size;
            if (nr > 3)
                small = 0;
        }
        if ((op != 2 && op != 6 && op != 3) && s[which].p)
            mc_prune();
        refuse = mask && size && mc_choose(2);
        calls = 0;
        last.op = NONE;
        mc_step("%s block %d, %zu bytes%s (way %d, operations %#x)%s", names[op], which, size, small ? "" : " (overflow)", way, mask, refuse ? ", refused" : "");
        switch (op) {
        case 0: got = bfdev_malloc(use, size); break;
        case 1: got = bfdev_zalloc(use, size); break;
        case 2: got = bfdev_realloc(use, s[which].p, size); break;
        case 3: bfdev_free(use, s[which].p); got = NULL; break;
        case 4: got = bfdev_malloc_array(use, arrays[nr].nr, arrays[nr].size); break;
        case 5: got = bfdev_zalloc_array(use, arrays[nr].nr, arrays[nr].size); break;
        default: got = bfdev_realloc_array(use, s[which].p, arrays[nr].nr, arrays[nr].size); break;
        }

        /* which operation is due */
        want = NONE;
        if (!small) {
            mc_assert(!got, "an array too big for any memory was given %zu bytes", size);
            mc_assert(!calls, "an array too big for any memory was asked for");
            mc_assert(!s[which].p || __sanitizer_get_allocated_size(s[which].p) == s[which].size, "the block of an array that cannot grow is gone");
            goto contents;
        }
        switch (op) {
        case 0: case 4: want = size ? ALLOC : NONE; break;
        case 1: case 5: want = size ? ZALLOC : NONE; break;
        case 3: want = s[which].p ? FREE : NONE; break;
        default: want = !s[which].p ? (size ? ALLOC : NONE) : size ? REALLOC : FREE; break;
        }
        mc_case(mc_mix(mc_mix(way * 16 + mask, want * 16 + op), mc_mix(size, refuse * 2 + !s[which].p)));
        if (want && mask >> (want - 1) & 1) {
            mc_assert(calls == 1 && last.op == want, "%d operations were called, the last is %d, not %d", calls, last.op, want);
            mc_assert(last.size == (want == FREE ? 0 : size), "asked for %zu bytes", last.size);
            mc_assert(last.block == (want >= REALLOC ? s[which].p : NULL), "another block was passed");
            mc_assert(got == last.result, "the result was not passed on");
        } else {
            mc_assert(!calls, "operation %d was called", last.op);
            mc_assert(want == NONE || want == FREE ? !got : !!got, got ? "memory for nothing" : "no memory");
        }
        if (want == FREE) {
            mc_assert(!__sanitizer_get_ownership(s[which].p), "the block was not freed");
            s[which].p = NULL;
        } else if (got) {
            mc_assert(__sanitizer_get_allocated_size(got) == size, "the block has %zu bytes, not %zu", __sanitizer_get_allocated_size(got), size);
            for (i = 0; want == ZALLOC && i < (int)size; i++)
                mc_assert(!((unsigned char *)got)[i], "byte %d of a zeroed block is set", i);
            for (i = 0; want == REALLOC && i < (int)size && i < (int)s[which].size; i++)
                mc_assert(((unsigned char *)got)[i] == s[which].fill, "byte %d was lost", i);
            s[which].p = got;
            s[which].size = size;
            s[which].fill = 0x10 + step;
            memset(got, s[which].fill, size);
        }
contents:
        for (nr = 0; nr < 2; nr++)
            for (i = 0; s[nr].p && i < (int)s[nr].size; i++)
                mc_assert(s[nr].p[i] == s[nr].fill, "byte %d of block %d changed", i, nr);
    }

    refuse = 0;
    for (nr = 0; nr < 2; nr++)
        if (s[nr].p)
            free(s[nr].p);
    bfdev_alloc_default = BFDEV_ALLOC_INIT(NULL, NULL);
    bfdev_alloc_default_ops = BFDEV_ALLOC_OPS_INIT(NULL, NULL, NULL, NULL);
}

const mc_scenario_t mc_scenarios[] = {
    { "histories", s_history, { 2, 3 }, 0, 4 },
    { NULL }
};
