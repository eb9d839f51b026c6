/*
 * Record FIFO: framing.  Every sequence of record operations up to closure, in
 * lock step with a queue-of-records model.
 */
#include "mc.h"
#include <bfdev/fifo.h>

#define MAXR 64
#define MAXL 40

typedef struct {
    unsigned len[MAXR];
    uint32_t v[MAXR][MAXL];
    unsigned n, used;
} model_t;

static uint32_t nextval;

/* configuration that may not depend on how the fifo came about */
#define HIDDEN(q) mc_mix(mc_mix((q)->fifo.mask, (q)->fifo.esize), (q)->fifo.out - (q)->fifo.in)
#define MAKE(type, seed) ({                                                     \
    type __v;                                                                   \
    unsigned __i;                                                               \
    for (__i = 0; __i < sizeof(__v); ++__i)                                     \
        ((uint8_t *)&__v)[__i] = (uint8_t)((seed) * 37 + __i * 11 + 1);         \
    __v;                                                                        \
})
#define FRESH(type) (++nextval, MAKE(type, nextval))
#define SAME(type, val, seed) ({                                                \
    type __got = (val), __exp = MAKE(type, seed);                               \
    !memcmp(&__got, &__exp, sizeof(__got));                                     \
})

static void
pop(model_t *m, unsigned rec)
{
    m->used -= m->len[0] + rec;
    m->n--;
    memmove(m->len, m->len + 1, m->n * sizeof(*m->len));
    memmove(m->v, m->v + 1, m->n * sizeof(*m->v));
}

#define DEFINE_RECORD_SCENARIO(fname, type, decl_struct, cap, rec, dynamic)     \
static void                                                                     \
fname(void)                                                                     \
{                                                                               \
    decl_struct *q;                                                             \
    model_t *m = mc_zalloc(sizeof(*m));                                         \
    unsigned long base, i, len, ret, want;                                      \
    type val, *buf;                                                             \
    uint64_t h;                                                                 \
    int depth;                                                                  \
                                                                                \
    nextval = 0;                                                                \
    q = mc_malloc(sizeof(*q));                                                  \
    if (dynamic) {                                                              \
        *q = (typeof(*q)) BFDEV_FIFO_DYNAMIC_INIT(q);                           \
        if (mc_choose(2))                                                       \
            memset(&q->fifo, 0x5a, sizeof(q->fifo));                            \
        ret = bfdev_fifo_alloc(q, &mc_alloc, cap);                              \
        mc_assert(!ret, "dynamic alloc");                                       \
    } else                                                                      \
        *q = (typeof(*q)) BFDEV_FIFO_INIT(q);                                   \
    mc_assert(bfdev_fifo_recsize(q) == rec, "recsize");                         \
    base = mc_choose(2) ? 0UL - 3 : 0;                                          \
    q->fifo.in = q->fifo.out = base;                                            \
                                                                                \
    for (depth = mc_bound;;) {                                                  \
        mc_assert(bfdev_fifo_len(q) == m->used, "used %lu expected %u",         \
                  bfdev_fifo_len(q), m->used);                                  \
        mc_assert(!!bfdev_fifo_check_empty(q) == (m->n == 0), "empty");         \
        h = mc_mix(mc_mix(HIDDEN(q), q->fifo.in & (cap - 1)), m->n);            \
        for (i = 0; i < m->n; ++i)                                              \
            h = mc_mix(h, m->len[i]);                                           \
        if (!mc_next(mc_mix(h, q->fifo.in < base || q->fifo.out < base), &depth))\
            break;\
        switch (mc_choose(6)) {                                                 \
            case 0:                                                             \
                len = mc_choose(cap + 2);                                       \
                mc_step("in record of %lu", len);                               \
                buf = mc_malloc(sizeof(type) * len);                            \
                for (i = 0; i < len; ++i)                                       \
                    buf[i] = FRESH(type);                                       \
                ret = bfdev_fifo_in(q, buf, len);                               \
                want = len + rec <= cap - m->used ? len : 0;                    \
                mc_assert(ret == want, "in(%lu) = %lu, expected %lu",           \
                          len, ret, want);                                      \
                if (len + rec <= cap - m->used) {                               \
                    m->len[m->n] = len;                                         \
                    for (i = 0; i < len; ++i)                                   \
                        m->v[m->n][i] = nextval - len + 1 + i;                  \
                    m->used += len + rec;                                       \
                    m->n++;                                                     \
                }                                                               \
                mc_free(buf);                                                   \
                break;                                                          \
            case 1: case 2: {                                                   \
                unsigned op = mc_choose(2);                                     \
                len = mc_choose(cap + 1);                                       \
                mc_step("%s record into a buffer of %lu", op ? "peek" : "out",  \
                        len);                                                   \
                want = m->n ? (len < m->len[0] ? len : m->len[0]) : 0;          \
                buf = mc_malloc(sizeof(type) * want);                           \
                ret = op ? bfdev_fifo_out_peek(q, buf, len)                     \
                         : bfdev_fifo_out(q, buf, len);                         \
                mc_assert(ret == want, "returned %lu, expected %lu", ret, want);\
                for (i = 0; i < ret; ++i)                                       \
                    mc_assert(SAME(type, buf[i], m->v[0][i]), "element %lu", i);    \
                mc_free(buf);                                                   \
                if (!op && m->n)                                                \
                    pop(m, rec);                                                \
                break;                                                          \
            }                                                                   \
            case 3:                                                             \
                val = FRESH(type);                                              \
                mc_step("put");                                                 \
                ret = bfdev_fifo_put(q, val);                                   \
                want = 1 + rec <= cap - m->used;                                \
                mc_assert(ret == want, "put = %lu expected %lu", ret, want);    \
                if (want) {                                                     \
                    m->len[m->n] = 1;                                           \
                    m->v[m->n++][0] = nextval;                                  \
                    m->used += 1 + rec;                                         \
                }                                                               \
                break;                                                          \
            case 4: {                                                           \
                unsigned op = mc_choose(2);                                     \
                mc_step(op ? "peek one" : "get one");                           \
                memset(&val, 0, sizeof(val));                                   \
                ret = op ? bfdev_fifo_peek(q, &val) : bfdev_fifo_get(q, &val);  \
                want = m->n ? (m->len[0] ? 1 : 0) : 0;                          \
                mc_assert(ret == want, "get = %lu expected %lu", ret, want);    \
                if (want)                                                       \
                    mc_assert(SAME(type, val, m->v[0][0]), "value");                \
                if (!op && m->n)                                                \
                    pop(m, rec);                                                \
                break;                                                          \
            }                                                                   \
            case 5:                                                             \
                mc_step("reset");                                               \
                bfdev_fifo_reset(q);                                            \
                m->n = m->used = 0;                                             \
                break;                                                          \
        }                                                                       \
    }                                                                           \
    if (dynamic) {                                                              \
        bfdev_fifo_dynamic_free(&q->fifo);                                      \
        mc_no_leaks("fifo");                                                    \
    }                                                                           \
}

typedef BFDEV_STRUCT_FIFO_RECORD(uint8_t, 8, 1) r1_8;
typedef BFDEV_STRUCT_FIFO_RECORD(uint8_t, 16, 2) r2_16;
typedef BFDEV_STRUCT_FIFO_RECORD(uint32_t, 8, 1) r1_32_8;
typedef BFDEV_STRUCT_FIFO_DYNAMIC_RECORD(uint8_t, 1) rd1;
typedef BFDEV_STRUCT_FIFO_DYNAMIC_RECORD(uint8_t, 3) rd3;
typedef BFDEV_STRUCT_FIFO_DYNAMIC_RECORD(uint16_t, 2) rd2_16;

typedef struct { uint8_t b[3]; } el3_t;
typedef struct { uint32_t w[3]; } el12_t;
typedef BFDEV_STRUCT_FIFO_RECORD(el3_t, 8, 1) rel3_8;
typedef BFDEV_STRUCT_FIFO_DYNAMIC_RECORD(el12_t, 1) reld12;

DEFINE_RECORD_SCENARIO(s_rel3_8, el3_t, rel3_8, 8, 1, 0)
DEFINE_RECORD_SCENARIO(d_rel12_4, el12_t, reld12, 4, 1, 1)
DEFINE_RECORD_SCENARIO(s_r1_8, uint8_t, r1_8, 8, 1, 0)
DEFINE_RECORD_SCENARIO(s_r2_16, uint8_t, r2_16, 16, 2, 0)
DEFINE_RECORD_SCENARIO(s_r1_32, uint32_t, r1_32_8, 8, 1, 0)
DEFINE_RECORD_SCENARIO(d_r1_4, uint8_t, rd1, 4, 1, 1)
DEFINE_RECORD_SCENARIO(d_r1_8, uint8_t, rd1, 8, 1, 1)
DEFINE_RECORD_SCENARIO(d_r3_16, uint8_t, rd3, 16, 3, 1)
DEFINE_RECORD_SCENARIO(d_r2_16, uint16_t, rd2_16, 8, 2, 1)

/*
 * Records around the limit of the length field: a record whose length does not
 * fit must be refused, everything else must round trip, alone and with a
 * neighbour queued before and after it.
 */
static void
s_wide(void)
{
    static const unsigned lens[] = { 1, 127, 128, 254, 255, 256, 257, 300, 511, 513 };
    typedef BFDEV_STRUCT_FIFO_DYNAMIC_RECORD(uint8_t, 1) f1_t;
    typedef BFDEV_STRUCT_FIFO_DYNAMIC_RECORD(uint8_t, 2) f2_t;
    f1_t f1 = BFDEV_FIFO_DYNAMIC_INIT(&f1);
    f2_t f2 = BFDEV_FIFO_DYNAMIC_INIT(&f2);
    unsigned rec = 1 + mc_choose(2), i, j, k, skew;
    unsigned long ret;
    uint8_t *in, *out;
    bool ok[3];

    mc_assert(!bfdev_fifo_alloc(&f1, &mc_alloc, 2048), "alloc");
    mc_assert(!bfdev_fifo_alloc(&f2, &mc_alloc, 2048), "alloc");
    skew = mc_choose(2) ? 2000 : 0;
    f1.fifo.in = f1.fifo.out = f2.fifo.in = f2.fifo.out = skew;
    k = lens[mc_choose(MC_ARRAY_SIZE(lens))];
    unsigned n[3] = { lens[mc_choose(3)], k, lens[2 + mc_choose(3)] };
    mc_step("records of %u %u %u, %u byte length field", n[0], n[1], n[2], rec);
    for (i = 0; i < 3; ++i) {
        in = mc_malloc(n[i]);
        for (j = 0; j < n[i]; ++j)
            in[j] = j * 7 + i;
        ret = rec == 1 ? bfdev_fifo_in(&f1, in, n[i]) : bfdev_fifo_in(&f2, in, n[i]);
        ok[i] = rec != 1 || n[i] < 256;
        mc_assert(ret == (ok[i] ? n[i] : 0), "in(%u) = %lu", n[i], ret);
        mc_free(in);
    }
    for (i = 0; i < 3; ++i) {
        if (!ok[i])
            continue;
        out = mc_malloc(n[i]);
        ret = rec == 1 ? bfdev_fifo_out(&f1, out, 2048) : bfdev_fifo_out(&f2, out, 2048);
        mc_assert(ret == n[i], "record of %u came out as %lu", n[i], ret);
        for (j = 0; j < n[i]; ++j)
            mc_assert(out[j] == (uint8_t)(j * 7 + i), "byte %u", j);
        mc_free(out);
    }
    mc_assert(bfdev_fifo_check_empty(&f1) && bfdev_fifo_check_empty(&f2), "leftover");
    mc_seen(mc_mix(mc_mix(n[0], n[1]), mc_mix(n[2], rec * 2 + !!skew)));
    bfdev_fifo_dynamic_free(&f1.fifo);
    bfdev_fifo_dynamic_free(&f2.fifo);
}

const mc_scenario_t mc_scenarios[] = {
    { "el3-cap8-rec1", s_rel3_8, { 40, 60 } },
    { "dynamic-el12-cap4-rec1", d_rel12_4, { 40, 60 } },
    { "u8-cap8-rec1", s_r1_8, { 40, 60 } },
    { "u8-cap16-rec2", s_r2_16, { 20, 40 } },
    { "u32-cap8-rec1", s_r1_32, { 40, 60 } },
    { "dynamic-u8-cap4-rec1", d_r1_4, { 40, 60 } },
    { "dynamic-u8-cap8-rec1", d_r1_8, { 40, 60 } },
    { "dynamic-u8-cap16-rec3", d_r3_16, { 10, 16 } },
    { "dynamic-u16-cap8-rec2", d_r2_16, { 40, 60 } },
    { "length-field-limits", s_wide, { 1, 1 }, 0, 1 },
    { NULL }
};
