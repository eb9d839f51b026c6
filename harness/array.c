/*
 * Dynamic array: every sequence of push/pop/peek/reserve/resize/reset/release,
 * growth always moves the storage, in lock step with a counting model: the
 * element at position i always holds val(i).
 */
#include "mc.h"
#include <bfdev/array.h>

#define MAXN 100
static size_t cells;

static void
fill(void *data, unsigned long pos, unsigned long n)
{
    unsigned char *p = data;
    unsigned long i, j;

    for (i = 0; i < n; ++i)
        for (j = 0; j < cells; ++j)
            p[i * cells + j] = (pos + i) * 7 + j * 3 + 1;
}

static void
verify(bfdev_array_t *array, unsigned long n)
{
    unsigned char want[16];
    unsigned long i;
    void *p;

    mc_assert(bfdev_array_index(array) == n, "index %lu expected %lu", bfdev_array_index(array), n);
    mc_assert(bfdev_array_size(array) == n * cells, "size %zu", bfdev_array_size(array));
    mc_assert(array->capacity >= n, "capacity %lu below index %lu", array->capacity, n);
    if (array->data)
        mc_assert(mc_block_size(array->data) >= array->capacity * cells, "capacity %lu exceeds the storage", array->capacity);
    else
        mc_assert(!array->capacity, "capacity without storage");
    for (i = 0; i < n; ++i) {
        p = bfdev_array_data(array, i);
        mc_assert(p, "element %lu not addressable", i);
        mc_assert(p == array->data + bfdev_array_offset(array, i), "address of %lu", i);
        fill(want, i, 1);
        mc_assert(!memcmp(p, want, cells), "element %lu changed", i);
    }
    mc_assert(!bfdev_array_data(array, n), "element %lu past the end", n);
    mc_assert(!bfdev_array_data(array, n + 1) && !bfdev_array_data(array, -1UL), "far element");
}

static const unsigned long sizes[] = { 0, 1, 2, 3, 15, 31, 32, 33, 64 };
/* counts that can never be satisfied */
static const unsigned long huge[] = { 1UL << 31, 1UL << 32, (1UL << 33) + 1, -1UL, -1UL - 40, (-1UL >> 1) + 1, (-1UL >> 1), (-1UL >> 2) + 1, (-1UL >> 3) + 1, (-1UL >> 3) };

static void
sequence(int faults)
{
    bfdev_array_t array;
    unsigned long n = 0, num, cap;
    int depth, ret;
    void *p;

    cells = mc_arg;
    if (mc_choose(2))
        bfdev_array_init(&array, &mc_alloc, cells);
    else
        array = BFDEV_ARRAY_INIT(&mc_alloc, cells);

    for (depth = mc_bound;;) {
        verify(&array, n);
        if (!mc_next(mc_mix(mc_mix(mc_faults, n), mc_mix(array.capacity, mc_mix(array.cells, !!array.data))), &depth))
            break;
        mc_fault_budget = faults;
        cap = array.capacity;
        int f = mc_faults;
        switch (mc_choose(8)) {
            case 0:
                num = sizes[mc_choose(MC_ARRAY_SIZE(sizes))];
                if (n + num > MAXN)
                    mc_prune();
                mc_step("push %lu", num);
                p = bfdev_array_push(&array, num);
                if (mc_faults > f) {
                    mc_assert(!p, "push succeeded without memory");
                    mc_assert(array.capacity == cap, "capacity changed by a failed push");
                    break;
                }
                mc_assert(p || !num, "push failed");
                if (p)
                    mc_assert(p == array.data + n * cells, "push returned a wrong address");
                fill(p, n, num);
                n += num;
                break;
            case 1:
                if ((num = mc_choose(4)) == 3)
                    num = n;
                mc_step("pop %lu", num);
                p = bfdev_array_pop(&array, num);
                if (num > n) {
                    mc_assert(!p, "pop %lu of %lu", num, n);
                    break;
                }
                n -= num;
                mc_assert(p == array.data + n * cells, "pop returned a wrong address");
                if (num)
                    memset(p, 0xee, num * cells);
                break;
            case 2:
                num = mc_choose(MAXN);
                if (num > n + 2)
                    mc_prune();
                mc_step("peek %lu", num);
                p = bfdev_array_peek(&array, num);
                if (num > n)
                    mc_assert(!p, "peek %lu of %lu", num, n);
                else
                    mc_assert(p == array.data + (n - num) * cells, "peek address");
                break;
            case 3:
                num = sizes[mc_choose(MC_ARRAY_SIZE(sizes))];
                mc_step("resize %lu", num);
                ret = bfdev_array_resize(&array, num);
                if (mc_faults > f) {
                    mc_assert(ret == -BFDEV_ENOMEM, "resize without memory = %d", ret);
                    mc_assert(array.capacity == cap, "capacity changed by a failed resize");
                    break;
                }
                mc_assert(!ret, "resize failed");
                if (num > n)
                    fill(array.data + n * cells, n, num - n);
                else if (num < n)
                    memset(array.data + num * cells, 0xee, (n - num) * cells);
                n = num;
                break;
            case 4:
                num = sizes[mc_choose(MC_ARRAY_SIZE(sizes))];
                mc_step("reserve %lu", num);
                ret = bfdev_array_reserve(&array, num);
                if (mc_faults > f) {
                    mc_assert(ret == -BFDEV_ENOMEM, "reserve without memory = %d", ret);
                    mc_assert(array.capacity == cap, "capacity changed by a failed reserve");
                    break;
                }
                mc_assert(!ret, "reserve failed");
                mc_assert(array.capacity >= n + num, "reserve %lu gave %lu", num, array.capacity - n);
                mc_assert(array.capacity >= cap, "reserve shrank");
                break;
            case 5:
                mc_step("reset");
                bfdev_array_reset(&array);
                n = 0;
                break;
            case 6:
                mc_step("release");
                bfdev_array_release(&array);
                n = 0;
                mc_no_leaks("released array");
                mc_assert(!array.capacity && !array.data, "released array keeps storage");
                break;
            case 7: {
                unsigned op = mc_choose(4);
                num = huge[mc_choose(MC_ARRAY_SIZE(huge))];
                mc_alloc_limit = 1 << 20;
                mc_step("huge op %u, %lu", op, num);
                if (op == 0)
                    mc_assert(!bfdev_array_push(&array, num), "push of %lu succeeded", num);
                else if (op == 1)
                    mc_assert(bfdev_array_resize(&array, num) < 0, "resize to %lu succeeded", num);
                else if (op == 2)
                    mc_assert(bfdev_array_reserve(&array, num) < 0, "reserve of %lu succeeded", num);
                else
                    mc_assert(!bfdev_array_pop(&array, num) && !bfdev_array_peek(&array, num), "pop of %lu", num);
                mc_assert(array.capacity == cap, "refused request changed the capacity");
                break;
            }
        }
    }
    mc_trace("release");
    bfdev_array_release(&array);
    mc_no_leaks("array");
}

static void s_plain(void) { sequence(0); }
static void s_fault(void) { sequence(2); }

const mc_scenario_t mc_scenarios[] = {
    { "array-cell1", s_plain, { 12, 40 }, 1 },
    { "array-cell3", s_plain, { 12, 40 }, 3 },
    { "array-cell4", s_plain, { 12, 40 }, 4 },
    { "array-cell12", s_plain, { 12, 40 }, 12 },
    { "array-faults-cell1", s_fault, { 8, 30 }, 1 },
    { "array-faults-cell8", s_fault, { 8, 30 }, 8 },
    { NULL }
};
