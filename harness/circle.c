/*
 * Circular buffer macros.  CIRCLE_SCHED: one producer and one consumer as in
 * the documentation, under every interleaving; otherwise every head, tail and
 * size against counting by hand.
 */
#ifdef CIRCLE_SCHED
# include "mcsched.h"
#else
# include "mc.h"
#endif
#include <bfdev/macro.h>
#include <bfdev/atomic.h>
#include <bfdev/circle.h>

#ifndef CIRCLE_SCHED
static void s_macros(void)
{
    unsigned long size = 1UL << (1 + mc_choose(mc_bound)), head, tail, cnt, space, cend, send, i, turn;

    head = mc_choose(size);
    tail = mc_choose(size);
    /* the counters may also run freely */
    turn = mc_choose(3) * size;
    mc_step("size %lu head %lu tail %lu", size, head, tail);
    /* by hand: walk from tail to head */
    for (cnt = 0; (tail + cnt) % size != head; cnt++)
        ;
    space = size - 1 - cnt;
    for (cend = 0; cend < cnt && tail + cend < size; cend++)
        ;
    for (send = 0; send < space && head + send < size; send++)
        ;
    mc_assert(BFDEV_CIRCLE_CNT(head, tail, size) == cnt, "count %lu, expected %lu", (unsigned long)BFDEV_CIRCLE_CNT(head, tail, size), cnt);
    mc_assert(BFDEV_CIRCLE_SPACE(head, tail, size) == space, "space %lu, expected %lu", (unsigned long)BFDEV_CIRCLE_SPACE(head, tail, size), space);
    mc_assert(BFDEV_CIRCLE_CNT(head + turn, tail, size) == cnt, "count of running counters");
    mc_assert(BFDEV_CIRCLE_CNT(head, tail - turn, size) == cnt, "count of running counters");
    mc_assert(BFDEV_CIRCLE_SPACE(head + turn, tail, size) == space, "space of running counters");
    mc_assert(BFDEV_CIRCLE_SPACE(head - 1 + 1, tail - turn, size) == space, "space of running counters");
    mc_assert(BFDEV_CIRCLE_CNT_END(head, tail, size) == cend, "count to the end %lu, expected %lu", (unsigned long)BFDEV_CIRCLE_CNT_END(head, tail, size), cend);
    mc_assert(BFDEV_CIRCLE_SPACE_END(head, tail, size) == send, "space to the end %lu, expected %lu", (unsigned long)BFDEV_CIRCLE_SPACE_END(head, tail, size), send);
    /* the arguments are plain expressions, of the usual types too */
    {
        unsigned int h = head, t = tail;
        int s = size;

        mc_assert(BFDEV_CIRCLE_CNT(h, t, s) == cnt && BFDEV_CIRCLE_SPACE(h, t, s) == space, "with int");
        mc_assert(BFDEV_CIRCLE_CNT_END(h, t, s) == cend && BFDEV_CIRCLE_SPACE_END(h, t, s) == send, "to the end with int");
        mc_assert(BFDEV_CIRCLE_CNT(h | 0, t | 0, s | 0) == cnt && BFDEV_CIRCLE_SPACE_END(h | 0, t | 0, s | 0) == send, "with expressions");
    }
    {
        BFDEV_DEFINE_CIRCLE(c, &head);
        mc_assert(c.buffer == &head && !c.head && !c.tail, "definition");
    }
    mc_case(mc_mix(mc_mix(mc_mix(mc_mix(1, size), head), tail), turn));
}

const mc_scenario_t mc_scenarios[] = {
    { "macros", s_macros, { 6, 8 }, 0, 1 },
    { NULL }
};
#else
#define MAXSIZE 4
static bfdev_circle_t c;
static uint32_t storage[MAXSIZE];
static unsigned long size, total[2], done[2];
#define VALUE(n) ((uint32_t)(n) * 0x01010101u + 0x305070u)

/* one slot at a time as in the example, or as much as is contiguous */
static bool bulk[2];

static void produce(int self, void *arg)
{
    unsigned long n, k;

    while (done[0] < total[0]) {
        sched_pause();
        sched_local(done[0]);
        sched_resume();
        n = bulk[0] ?
            BFDEV_CIRCLE_SPACE_END(BFDEV_READ_ONCE(c.head) % size, BFDEV_READ_ONCE(c.tail) % size, size) :
            !!BFDEV_CIRCLE_SPACE(BFDEV_READ_ONCE(c.head), BFDEV_READ_ONCE(c.tail), size);
        if (n > total[0] - done[0])
            n = total[0] - done[0];
        for (k = 0; k < n; k++)
            ((uint32_t *)c.buffer)[c.head % size + k] = VALUE(done[0] + k);
        if (n)
            BFDEV_WRITE_ONCE(c.head, c.head + n);
        done[0] += n;
        if (!n)
            return;     /* full: this attempt is over (another schedule lets the consumer go first) */
    }
}

static void consume(int self, void *arg)
{
    unsigned long n, k;
    uint32_t v;

    while (done[1] < total[1]) {
        sched_pause();
        sched_local(done[1]);
        sched_resume();
        n = bulk[1] ?
            BFDEV_CIRCLE_CNT_END(BFDEV_READ_ONCE(c.head) % size, BFDEV_READ_ONCE(c.tail) % size, size) :
            !!BFDEV_CIRCLE_CNT(BFDEV_READ_ONCE(c.head), BFDEV_READ_ONCE(c.tail), size);
        if (n > total[1] - done[1])
            n = total[1] - done[1];
        for (k = 0; k < n; k++) {
            v = ((uint32_t *)c.buffer)[c.tail % size + k];
            mc_assert(v == VALUE(done[1] + k), "element %lu arrives as %#x", done[1] + k, v);
        }
        if (n)
            BFDEV_WRITE_ONCE(c.tail, c.tail + n);
        done[1] += n;
        if (!n)
            return;
    }
}

static uint64_t programs;
static uint64_t monitor(void) { return mc_mix(mc_mix(programs, done[0]), done[1]); }

static void s_spsc(void)
{
    unsigned long wrap;

    sched_reset();
    size = mc_choose(2) ? 4 : 2;
    wrap = mc_choose(5);
    total[0] = 1 + mc_choose(mc_bound);
    total[1] = 1 + mc_choose(mc_bound);
    bulk[0] = mc_choose(2);
    bulk[1] = mc_choose(2);
    done[0] = done[1] = 0;
    programs = mc_mix(mc_mix(mc_mix(mc_mix(total[0], total[1]), bulk[0] * 2 + bulk[1]), size), wrap);
    mc_step("size %lu, counters start at %ld, %lu in, %lu out", size, -(long)wrap, total[0], total[1]);
    mc_case(programs);
    c = BFDEV_CIRCLE_INIT(storage);
    c.head = c.tail = 0UL - wrap;
    memset(storage, 0, sizeof(storage));
    sched_shared(&c, sizeof(c), 8);
    sched_shared(storage, sizeof(storage), 4);
    sched_thread(produce, NULL);
    sched_thread(consume, NULL);
    sched_run(monitor);
    mc_assert(c.head - c.tail == done[0] - done[1] && BFDEV_CIRCLE_CNT(c.head, c.tail, size) == done[0] - done[1], "what is left");
    for (; done[1] < done[0]; done[1]++, c.tail++)
        mc_assert(storage[c.tail % size] == VALUE(done[1]), "element %lu is %#x", done[1], storage[c.tail % size]);
}

const mc_scenario_t mc_scenarios[] = {
    { "producer-consumer", s_spsc, { 6, 10 }, 0, 3 },
    { NULL }
};
#endif
