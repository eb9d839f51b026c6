/*
 * One producer and one consumer on a FIFO without a lock: every pair of short
 * programs, from every queue length and counter position, under every
 * interleaving of the accesses to the indices and the storage.
 */
#include "mcsched.h"
#include <bfdev/fifo.h>

#define VALUE(n) ((uint32_t)(n) * 0x01010101u + 0x00305070u)
#define MAXOP 4

enum { NOP, PUT, IN1, IN2, IN3, IN5, NPROD };
enum { GET = 1, OUT1, OUT2, OUT3, OUT5, PEEK, PEEK2, NCONS };
static const char *const pname[] = { "nothing", "put", "in 1", "in 2", "in 3", "in 5" };
static const char *const cname[] = { "nothing", "get", "out 1", "out 2", "out 3", "out 5", "peek", "peek 2" };
static const unsigned plen[] = { 0, 1, 1, 2, 3, 5 };
static const unsigned clen[] = { 0, 1, 1, 2, 3, 5, 1, 2 };

static int prog[2][MAXOP], nops[2], at[2];
static unsigned long accepted, consumed, base;
/* room and content when the current operation began */
static unsigned long room_start, valid_start;

static BFDEV_DECLARE_FIFO(q2, uint32_t, 2);
static BFDEV_DECLARE_FIFO(q4, uint32_t, 4);
static int cap;

static void begin(int self, int i)
{
    sched_pause();
    at[self] = 2 * i + 1;
    sched_resume();
}

static void end(int self, int i)
{
    at[self] = 2 * i + 2;
    sched_local(at[self]);
    sched_resume();
}

#define DEFINE(cap_, q)                                                         \
static unsigned long fill##cap_(void) { return q.fifo.in - q.fifo.out; }        \
static void produce##cap_(int self, void *arg)                                  \
{                                                                               \
    static uint32_t buf[8];                                                     \
    unsigned long ret, len, k;                                                  \
    int i;                                                                      \
                                                                                \
    for (i = 0; i < nops[0]; i++) {                                             \
        if (prog[0][i] == NOP)                                                  \
            continue;                                                           \
        begin(0, i);                                                            \
        sched_pause();                                                          \
        len = plen[prog[0][i]];                                                 \
        for (k = 0; k < len; k++)                                               \
            buf[k] = VALUE(accepted + k);                                       \
        room_start = cap_ - fill##cap_();                                       \
        sched_local(at[0]);                                                     \
        sched_resume();                                                         \
        if (prog[0][i] == PUT)                                                  \
            ret = bfdev_fifo_put(&q, VALUE(accepted));                          \
        else                                                                    \
            ret = bfdev_fifo_in(&q, buf, len);                                  \
        sched_pause();                                                          \
        mc_assert(ret <= len, "accepted %lu of %lu elements", ret, len);        \
        mc_assert(ret == len || ret >= room_start, "accepted only %lu of %lu elements, there was room for %lu when it was called", ret, len, room_start); \
        accepted += ret;                                                        \
        end(0, i);                                                              \
    }                                                                           \
}                                                                               \
static void consume##cap_(int self, void *arg)                                  \
{                                                                               \
    static uint32_t buf[8];                                                     \
    unsigned long ret, len, k;                                                  \
    int i, op;                                                                  \
                                                                                \
    for (i = 0; i < nops[1]; i++) {                                             \
        op = prog[1][i];                                                        \
        if (op == NOP)                                                          \
            continue;                                                           \
        begin(1, i);                                                            \
        sched_pause();                                                          \
        len = clen[op];                                                         \
        memset(buf, 0xee, sizeof(buf));                                         \
        valid_start = fill##cap_();                                             \
        sched_local(at[1]);                                                     \
        sched_resume();                                                         \
        if (op == GET)                                                          \
            ret = bfdev_fifo_get(&q, &buf[0]);                                  \
        else if (op == PEEK)                                                    \
            ret = bfdev_fifo_peek(&q, &buf[0]);                                 \
        else if (op == PEEK2)                                                   \
            ret = bfdev_fifo_out_peek(&q, buf, len);                            \
        else                                                                    \
            ret = bfdev_fifo_out(&q, buf, len);                                 \
        sched_pause();                                                          \
        mc_assert(ret <= len, "read %lu of %lu elements", ret, len);            \
        mc_assert(ret == len || ret >= valid_start, "read only %lu of %lu elements, there were %lu when it was called", ret, len, valid_start); \
        for (k = 0; k < ret; k++)                                               \
            mc_assert(buf[k] == VALUE(consumed + k), "element %lu arrives as %#x instead of %#x", consumed + k, buf[k], VALUE(consumed + k)); \
        if (op != PEEK && op != PEEK2)                                          \
            consumed += ret;                                                    \
        end(1, i);                                                              \
    }                                                                           \
}                                                                               \
static void run##cap_(unsigned prefill)                                         \
{                                                                               \
    uint32_t v;                                                                 \
    q = (typeof(q)) BFDEV_FIFO_INIT(&q);                                        \
    q.fifo.in = q.fifo.out = base;                                              \
    for (; accepted < prefill; accepted++)                                      \
        mc_assert(bfdev_fifo_put(&q, VALUE(accepted)), "put while filling");    \
    sched_shared(&q.fifo.in, 2 * sizeof(q.fifo.in), 8);                         \
    sched_shared(q.buff, sizeof(q.buff), 4);                                    \
    sched_thread(produce##cap_, NULL);                                          \
    sched_thread(consume##cap_, NULL);                                          \
    sched_run(monitor);                                                         \
    mc_assert(bfdev_fifo_len(&q) == accepted - consumed, "%lu elements are left, %lu accepted - %lu read", bfdev_fifo_len(&q), accepted, consumed); \
    while (consumed < accepted) {                                               \
        mc_assert(bfdev_fifo_get(&q, &v), "element %lu is missing", consumed);  \
        mc_assert(v == VALUE(consumed), "element %lu arrives as %#x", consumed, v); \
        consumed++;                                                             \
    }                                                                           \
    mc_assert(!bfdev_fifo_get(&q, &v), "more elements than were accepted");     \
}

static uint64_t programs;
static uint64_t monitor(void)
{
    uint64_t h = mc_mix(mc_mix(programs, accepted), consumed);

    h = mc_mix(mc_mix(h, at[0]), at[1]);
    return mc_mix(mc_mix(h, room_start), valid_start);
}

DEFINE(2, q2)
DEFINE(4, q4)

/* programs without trailing nothing; one number describes both */
static void choose(const int *pops, int np, const int *cops, int nc, int len)
{
    int t, i;

    programs = 1;
    for (t = 0; t < 2; t++) {
        nops[t] = 0;
        at[t] = 0;
        for (i = 0; i < len; i++) {
            int c = mc_choose((t ? nc : np) + (i > 0));

            if (i && c == (t ? nc : np))
                break;
            prog[t][i] = t ? cops[c] : pops[c];
            nops[t]++;
            mc_step("%s: %s", t ? "consumer" : "producer", t ? cname[prog[t][i]] : pname[prog[t][i]]);
            programs = mc_mix(programs, prog[t][i]);
        }
        programs = mc_mix(programs, 99);
    }
}

static void flat(int capacity, const int *pops, int np, const int *cops, int nc)
{
    unsigned prefill, wrap;

    cap = capacity;
    accepted = consumed = room_start = valid_start = 0;
    wrap = mc_choose(capacity == 2 ? 3 : 5);
    base = wrap ? 0UL - wrap : 0;
    prefill = mc_choose(capacity + 1);
    mc_step("capacity %d, counters start at %ld, %u elements inside", cap, (long)base, prefill);
    sched_reset();
    choose(pops, np, cops, nc, mc_bound);
    programs = mc_mix(mc_mix(programs, base), prefill);
    mc_case(programs);
    if (capacity == 2)
        run2(prefill);
    else
        run4(prefill);
}

static const int p2[] = { PUT, IN1, IN2, IN3 }, c2[] = { GET, OUT1, OUT2, OUT3, PEEK, PEEK2 };
static const int p4[] = { PUT, IN2, IN3, IN5 }, c4[] = { GET, OUT2, OUT3, OUT5, PEEK2 };
static const int p2deep[] = { PUT, IN2, IN3 }, c2deep[] = { GET, OUT2, OUT3 };
static const int p4deep[] = { PUT, IN3 }, c4deep[] = { GET, OUT3, PEEK2 };
static void s_cap2_deep(void) { flat(2, p2deep, 3, c2deep, 3); }
static void s_cap4_deep(void) { flat(4, p4deep, 2, c4deep, 3); }
static void s_cap2(void) { flat(2, p2, 4, c2, 6); }
static void s_cap4(void) { flat(4, p4, 4, c4, 5); }

/* records: one byte length header in front of each */
static struct { struct BFDEV_BODY_FIFO(uint8_t, uint8_t, 8, 1); } r8;
static int lens[2][MAXOP];
static unsigned reclen[16], nrec, nread;

static uint8_t byte_of(unsigned rec, unsigned k) { return 0x11 * (rec + 1) + 3 * k; }
static unsigned long rfill(void) { return r8.fifo.in - r8.fifo.out; }

static void rec_produce(int self, void *arg)
{
    static uint8_t buf[8];
    unsigned long ret, k, len;
    int i;

    for (i = 0; i < nops[0]; i++) {
        begin(0, i);
        sched_pause();
        len = lens[0][i];
        for (k = 0; k < len; k++)
            buf[k] = byte_of(nrec, k);
        room_start = 8 - rfill();
        /* the consumer may meet it before we return */
        reclen[nrec] = len;
        sched_local(at[0] * 64 + nrec);
        sched_resume();
        ret = bfdev_fifo_in(&r8, buf, len);
        sched_pause();
        mc_assert(!ret || ret == len, "accepted %lu elements of a record of %lu", ret, len);
        mc_assert(ret || room_start < len + 1, "a record of %lu was refused, there was room for %lu elements", len, room_start);
        nrec += !!ret;
        end(0, i);
    }
}

static void rec_consume(int self, void *arg)
{
    static uint8_t buf[8];
    unsigned long ret, k, len, expect;
    bool peek;
    int i;

    for (i = 0; i < nops[1]; i++) {
        begin(1, i);
        sched_pause();
        len = lens[1][i] % 8;
        peek = lens[1][i] >= 8;
        valid_start = rfill();
        memset(buf, 0xee, sizeof(buf));
        sched_local(at[1] * 64 + nread);
        sched_resume();
        ret = peek ? bfdev_fifo_out_peek(&r8, buf, len) : bfdev_fifo_out(&r8, buf, len);
        sched_pause();
        mc_assert(ret || !valid_start, "nothing read though a record was there");
        if (ret) {
            mc_assert(nread <= nrec && (nread < nrec || at[0] & 1), "a record was read that nobody wrote");
            expect = reclen[nread] < len ? reclen[nread] : len;
            mc_assert(ret == expect, "record %u of %u elements reads as %lu elements (buffer of %lu)", nread, reclen[nread], ret, len);
            for (k = 0; k < ret; k++)
                mc_assert(buf[k] == byte_of(nread, k), "element %lu of record %u is %#x instead of %#x", k, nread, buf[k], byte_of(nread, k));
            nread += !peek;
        }
        end(1, i);
    }
}

static uint64_t rec_monitor(void)
{
    uint64_t h = mc_mix(mc_mix(programs, nrec), nread);
    unsigned i;

    for (i = 0; i <= nrec; i++)
        h = mc_mix(h, reclen[i]);
    h = mc_mix(mc_mix(h, at[0]), at[1]);
    return mc_mix(mc_mix(h, room_start), valid_start);
}

static void s_record(void)
{
    static const int in[] = { 2, 3, 1, 7 }, out[] = { 7, 1, 8 + 7 };
    uint8_t buf[8];
    unsigned pre, wrap;
    int t, i;

    wrap = mc_choose(3) * 3;
    base = wrap ? 0UL - wrap : 0;
    pre = mc_choose(3);     /* records of 2 elements inside */
    memset(reclen, 0, sizeof(reclen));
    nrec = nread = 0;
    room_start = valid_start = 0;
    sched_reset();
    memset(&r8, 0, sizeof(r8));
    r8.fifo.esize = 1;
    r8.fifo.mask = 7;
    r8.fifo.data = r8.buff;
    r8.fifo.in = r8.fifo.out = base;
    mc_step("capacity 8, counters start at %ld, %u records inside", (long)base, pre);
    programs = mc_mix(mc_mix(7, base), pre);
    for (t = 0; t < 2; t++) {
        nops[t] = at[t] = 0;
        for (i = 0; i < mc_bound; i++) {
            int n = (t ? 3 : 4) - mc_arg, c = mc_choose(n + (i > 0));

            if (c == n)
                break;
            lens[t][i] = t ? out[c] : in[c];
            nops[t]++;
            mc_step("%s: %s %d", t ? "consumer" : "producer", t ? lens[t][i] > 7 ? "peek" : "out" : "in", lens[t][i] % 8);
            programs = mc_mix(programs, lens[t][i]);
        }
        programs = mc_mix(programs, 99);
    }
    for (i = 0; i < (int)pre; i++) {
        buf[0] = byte_of(nrec, 0);
        buf[1] = byte_of(nrec, 1);
        reclen[nrec++] = 2;
        mc_assert(bfdev_fifo_in(&r8, buf, 2) == 2, "fill");
    }
    mc_case(programs);
    sched_shared(&r8.fifo.in, 2 * sizeof(r8.fifo.in), 8);
    sched_shared(r8.buff, sizeof(r8.buff), 1);
    sched_thread(rec_produce, NULL);
    sched_thread(rec_consume, NULL);
    sched_run(rec_monitor);
    while (nread < nrec) {
        unsigned k;

        mc_assert(bfdev_fifo_out(&r8, buf, 8) == reclen[nread], "record %u of %u elements is damaged", nread, reclen[nread]);
        for (k = 0; k < reclen[nread]; k++)
            mc_assert(buf[k] == byte_of(nread, k), "element %u of record %u", k, nread);
        nread++;
    }
    mc_assert(!bfdev_fifo_out(&r8, buf, 8), "more records than were accepted");
}

const mc_scenario_t mc_scenarios[] = {
    { "capacity-2", s_cap2, { 2, 2 }, 0, 3 },
    { "capacity-4", s_cap4, { 2, 2 }, 0, 3 },
    { "capacity-2-deep", s_cap2_deep, { -1, 3 }, 0, 4 },
    { "capacity-4-deep", s_cap4_deep, { -1, 3 }, 0, 4 },
    { "records", s_record, { 2, 2 }, 0, 3 },
    { "records-deep", s_record, { -1, 3 }, 1, 3 },
    { NULL }
};
