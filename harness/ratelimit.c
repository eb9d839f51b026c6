/*
 * Rate limiter and token bucket against exact arithmetic over every history of clock
 * steps, updates and resets.
 */
#include "mc.h"
#include <limits.h>
#include <bfdev/ratelimit.h>
#include <bfdev/tokenbucket.h>
#include <bfdev/time.h>

typedef __int128 wide;

static const bfdev_time_t intervals[] = { 3, 1, 2, 1000, 1L << 33, INT64_MAX, 0 };
static const unsigned caps[] = { 2, 1, 0, 3, UINT_MAX };
static const bfdev_time_t starts[] = { 1, 0, -7, 1700000000000, -1, INT64_MIN / 4 };
#define BIG (INT64_MAX / 8)

/* advance by a boundary amount; false when the clock would leave its range */
static bool advance(bfdev_time_t *now, bfdev_time_t interval)
{
    wide d, i = interval;

    switch (mc_choose(11)) {
    case 0: d = 0; break;
    case 1: d = i; break;
    case 2: d = i + 1; break;
    case 3: d = i - 1; break;
    case 4: d = 1; break;
    case 5: d = 2 * i + 1; break;
    case 6: d = -1; break;
    case 7: d = -i; break;
    case 8: d = (i << 32) + 1; break;
    case 9: d = (i << 32) - i; break;
    default: d = BIG; break;
    }
    if (*now + d > INT64_MAX / 2 || *now + d < INT64_MIN / 4)
        return false;
    *now += d;
    return true;
}

static void s_rate(void)
{
    bfdev_time_t interval = intervals[mc_choose(7)], now, begin = 0;
    unsigned burst = caps[mc_choose(5)], passed = 0, missed = 0;
    bfdev_ratelimit_t limit;
    bool started = false;
    int i;

    now = starts[mc_choose(6)];
    bfdev_ratelimit_init(&limit, interval, burst);
    mc_step("%u per %ld", burst, interval);
    for (i = 0; i < mc_bound; i++) {
        bool want, got;

        if (i && mc_choose(2)) {
            mc_step("reset");
            bfdev_ratelimit_reset(&limit);
            started = false;
            passed = missed = 0;
        }
        if (i && !advance(&now, interval))
            mc_prune();
        got = bfdev_ratelimit(&limit, now);
        if (!started) {
            begin = now;
            started = true;
        }
        if ((wide)now - begin > interval) {
            begin = now;
            passed = 0;
        }
        want = !interval || passed < burst;
        if (interval) {
            passed += want;
            missed += !want;
        }
        mc_step("at %ld: %d", now, got);
        mc_assert(got == want, "%u per %ld: request %d at %ld in the period from %ld, after %u were passed, is %s", burst, interval, i, now, begin, passed - (interval && want), got ? "passed" : "refused");
        if (interval)
            mc_assert(limit.passed == passed && limit.missed == missed, "counts %u passed and %u missed, expected %u and %u", limit.passed, limit.missed, passed, missed);
    }
    mc_case(mc_mix(mc_mix(interval, burst), mc_mix(passed, missed)));
}

typedef struct { bool started; bfdev_time_t last; wide tokens; unsigned passed, missed; } model_t;

static bool model(model_t *m, bfdev_time_t interval, unsigned cap, bfdev_time_t now)
{
    wide n;

    if (!interval)
        return true;
    if (!m->started) {
        m->started = true;
        m->last = now;
        m->tokens = cap;
    }
    if (now > m->last) {
        n = ((wide)now - m->last) / interval;
        m->last += n * interval;
        m->tokens += n;
        if (m->tokens > cap)
            m->tokens = cap;
    }
    if (!m->tokens) {
        m->missed++;
        return false;
    }
    m->tokens--;
    m->passed++;
    return true;
}

static void request(bfdev_tokenbucket_t *limit, model_t *m, bfdev_time_t now)
{
    bool got = bfdev_tokenbucket(limit, now), want = model(m, limit->interval, limit->capacity, now);

    mc_step("at %ld: %d", now, got);
    mc_assert(got == want, "capacity %u, one per %ld: request at %ld %s", limit->capacity, limit->interval, now, got ? "granted without a token" : "refused in spite of a token");
    mc_assert(limit->passed == m->passed && limit->missed == m->missed, "counts %u passed and %u missed, expected %u and %u", limit->passed, limit->missed, m->passed, m->missed);
}

static void s_bucket(void)
{
    bfdev_time_t interval = intervals[mc_choose(7)], now;
    unsigned cap = caps[mc_choose(5)];
    bfdev_tokenbucket_t limit;
    model_t m = { };
    int i, k;

    now = starts[mc_choose(6)];
    bfdev_tokenbucket_init(&limit, interval, cap);
    mc_step("capacity %u, one per %ld", cap, interval);
    for (i = 0; i < mc_bound; i++) {
        if (i && !advance(&now, interval))
            mc_prune();
        k = mc_choose(3);
        if (k == 2) {
            mc_step("update at %ld", now);
            bfdev_tokenbucket_update(&limit, now);
            m.started = true;
            m.last = now;
        } else if (k) {
            mc_step("reset");
            bfdev_tokenbucket_reset(&limit);
            m = (model_t){ };
        } else {
            request(&limit, &m, now);
        }
    }
    mc_case(mc_mix(mc_mix(interval, cap), mc_mix(m.passed, m.missed)));
}

/* small clocks to a fixpoint */
static void s_closure(void)
{
    bfdev_time_t interval = 1 + mc_arg % 10, now = 100;
    unsigned cap = mc_arg / 10;
    bfdev_tokenbucket_t limit;
    bfdev_ratelimit_t rate;
    int left = mc_bound;
    model_t m = { };
    bfdev_time_t begin = now;
    unsigned passed = 0;

    bfdev_tokenbucket_init(&limit, interval, cap);
    bfdev_ratelimit_init(&rate, interval, cap);
    request(&limit, &m, now);
    mc_assert(bfdev_ratelimit(&rate, now) == (cap > 0), "first request of the rate limiter");
    passed = cap > 0;
    while (mc_next(mc_mix(mc_mix(limit.current, now - limit.last), mc_mix(mc_mix(m.tokens, now - m.last), mc_mix(mc_mix(rate.passed, now - rate.begin), mc_mix(passed, now - begin)))), &left)) {
        bool got, want;

        now += mc_choose(2 * interval + 2);
        request(&limit, &m, now);
        got = bfdev_ratelimit(&rate, now);
        if (now - begin > interval) {
            begin = now;
            passed = 0;
        }
        want = passed < cap;
        passed += want;
        mc_assert(got == want, "rate limiter: %d, expected %d", got, want);
    }
}

/* comparison and arithmetic of times */
static void s_time(void)
{
    static const bfdev_time_t v[] = { INT64_MIN, INT64_MIN + 1, -(1L << 32), -2, -1, 0, 1, 2, 0x7fffffff, 0x80000000, 1L << 32, INT64_MAX - 1, INT64_MAX };
    bfdev_time_t a = v[mc_choose(13)], b = v[mc_choose(13)];
    int c = bfdev_time_compare(a, b);

    mc_step("%ld and %ld", a, b);
    mc_case(mc_mix(a, b));
    mc_assert(a < b ? c < 0 : a > b ? c > 0 : c == 0, "compare of %ld and %ld is %d", a, b, c);
    mc_assert(bfdev_time_after(a, b) == (a > b), "after %ld %ld", a, b);
    mc_assert(bfdev_time_before(a, b) == (a < b), "before %ld %ld", a, b);
    mc_assert(bfdev_time_after_equal(a, b) == (a >= b), "after or equal %ld %ld", a, b);
    mc_assert(bfdev_time_before_equal(a, b) == (a <= b), "before or equal %ld %ld", a, b);
}

const mc_scenario_t mc_scenarios[] = {
    { "times", s_time, { 1, 1 }, 0, 1 },
    { "rate limiter", s_rate, { 5, 6 }, 0, 4 },
    { "token bucket", s_bucket, { 4, 5 }, 0, 4 },
    { "three per two ticks, all histories", s_closure, { 60, 60 }, 31 },
    { "one per tick, all histories", s_closure, { 60, 60 }, 10 },
    { "two per four ticks, all histories", s_closure, { 60, 60 }, 23 },
    { "none, all histories", s_closure, { 60, 60 }, 1 },
    { "five per six ticks, all histories", s_closure, { 60, 60 }, 55 },
    { NULL }
};
