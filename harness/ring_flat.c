/*
 * Ring buffer (overwrites the oldest), no records: every operation sequence up to closure of the
 * (offset, length) state space, in lock step with an array model.
 */
#include "mc.h"
#include <bfdev/ringbuf.h>

#define MAXQ 64

typedef struct {
    uint32_t v[MAXQ];
    unsigned n;
} model_t;

/* the oldest element makes room */
static void
append(model_t *m, unsigned cap, uint32_t v)
{
    if (m->n == cap)
        memmove(m->v, m->v + 1, --m->n * sizeof(*m->v));
    m->v[m->n++] = v;
}

static uint32_t nextval;

/* configuration that may not depend on how the ring buffer came about */
#define HIDDEN(q) mc_mix(mc_mix((q)->ringbuf.mask, (q)->ringbuf.esize), (q)->ringbuf.out - (q)->ringbuf.in)

/* distinct values: all bytes of an element are significant */
#define MAKE(type, seed) ({                                                     \
    type __v;                                                                   \
    unsigned __i;                                                               \
    for (__i = 0; __i < sizeof(__v); ++__i)                                     \
        ((uint8_t *)&__v)[__i] = (uint8_t)((seed) * 37 + __i * 11 + 1);         \
    __v;                                                                        \
})
#define FRESH(type) (++nextval, MAKE(type, nextval))
#define SAME(type, val, seed) ({                                                \
    type __got = (val), __exp = MAKE(type, seed);                               \
    !memcmp(&__got, &__exp, sizeof(__got));                                     \
})

#define DEFINE_FIFO_SCENARIO(fname, type, decl_struct, cap, dynamic)            \
static void                                                                     \
fname(void)                                                                     \
{                                                                               \
    decl_struct *q;                                                             \
    model_t m = { .n = 0 };                                                     \
    unsigned long base, i, len, ret;                                            \
    type val, *buf;                                                             \
    int depth;                                                                  \
                                                                                \
    nextval = 0;                                                                \
    q = mc_malloc(sizeof(*q));                                                  \
    if (dynamic) {                                                              \
        *q = (typeof(*q)) BFDEV_RINGBUF_DYNAMIC_INIT(q);                           \
        mc_assert(!bfdev_ringbuf_initialized(q), "dynamic fifo initialized early");\
        if (mc_choose(2)) {                                                     \
            /* a former life leaves nothing behind */                           \
            ret = bfdev_ringbuf_alloc(q, &mc_alloc, 32);                        \
            mc_assert(!ret, "dynamic alloc");                                   \
            memset(&val, 0, sizeof(val));                                       \
            for (i = 0; i < 5; ++i)                                             \
                bfdev_ringbuf_put(q, val);                                      \
            bfdev_ringbuf_get(q, &val);                                         \
            bfdev_ringbuf_dynamic_free(&q->ringbuf);                            \
            mc_assert(!bfdev_ringbuf_initialized(q), "freed buffer initialized");\
            mc_assert(bfdev_ringbuf_check_empty(q), "freed buffer not empty");  \
            mc_no_leaks("freed buffer");                                        \
        }                                                                       \
        if (mc_choose(2))                                                       \
            memset(&q->ringbuf, 0x5a, sizeof(q->ringbuf));                      \
        ret = bfdev_ringbuf_alloc(q, &mc_alloc, cap);                              \
        mc_assert(!ret, "dynamic alloc");                                       \
    } else                                                                      \
        *q = (typeof(*q)) BFDEV_RINGBUF_INIT(q);                                   \
    mc_assert(bfdev_ringbuf_size(q) == cap, "size %lu", bfdev_ringbuf_size(q));       \
    mc_assert(bfdev_ringbuf_esize(q) == sizeof(type), "esize");                    \
    mc_assert(!!bfdev_ringbuf_check_dynamic(q) == dynamic, "dynamic");             \
    /* one that has been running for a while, including counter wrap */      \
    base = mc_choose(2) ? 0UL - 3 : 0;                                          \
    q->ringbuf.in = q->ringbuf.out = base;                                            \
                                                                                \
    for (depth = mc_bound;;) {                                                  \
        /* observers */                                                         \
        mc_assert(bfdev_ringbuf_len(q) == m.n, "length %lu, expected %u",          \
                  bfdev_ringbuf_len(q), m.n);                                      \
        mc_assert(!!bfdev_ringbuf_check_empty(q) == (m.n == 0), "empty");          \
        mc_assert(!!bfdev_ringbuf_check_full(q) == (m.n == cap), "full");          \
        buf = mc_malloc(sizeof(type) * (cap + 2));                              \
        ret = bfdev_ringbuf_out_peek(q, buf, cap + 2);                             \
        mc_assert(ret == m.n, "peek all: %lu of %u", ret, m.n);                 \
        for (i = 0; i < ret; ++i)                                               \
            mc_assert(SAME(type, buf[i], m.v[i]), "peek: element %lu differs", i);  \
        mc_free(buf);                                                           \
        if (!mc_next(mc_mix(mc_mix(mc_mix(HIDDEN(q), q->ringbuf.in & (cap - 1)), m.n),         \
                        q->ringbuf.in < base || q->ringbuf.out < base), &depth))\
            break;\
        switch (mc_choose(8)) {                                                 \
            case 0:                                                             \
                val = FRESH(type);                                              \
                mc_step("put");                        \
                ret = bfdev_ringbuf_put(q, val);                                   \
                mc_assert(!!ret == (m.n == cap), "put returned %lu", ret);      \
                append(&m, cap, nextval);                                 \
                break;                                                          \
            case 1:                                                             \
                mc_step("get");                                                 \
                memset(&val, 0, sizeof(val));                                                        \
                ret = bfdev_ringbuf_get(q, &val);                                  \
                mc_assert(ret == (m.n > 0), "get returned %lu", ret);           \
                if (m.n) {                                                      \
                    mc_assert(SAME(type, val, m.v[0]), "get: wrong element");                      \
                    memmove(m.v, m.v + 1, --m.n * sizeof(*m.v));                \
                }                                                               \
                break;                                                          \
            case 2:                                                             \
                mc_step("peek");                                                \
                memset(&val, 0, sizeof(val));                                                        \
                ret = bfdev_ringbuf_peek(q, &val);                                 \
                mc_assert(ret == (m.n > 0), "peek returned %lu", ret);          \
                if (m.n)                                                        \
                    mc_assert(SAME(type, val, m.v[0]), "peek value");               \
                break;                                                          \
            case 3:                                                             \
                len = mc_choose(cap + 3);                                       \
                mc_step("in %lu", len);                                         \
                buf = mc_malloc(sizeof(type) * len);                            \
                for (i = 0; i < len; ++i)                                       \
                    buf[i] = FRESH(type);                                       \
                ret = bfdev_ringbuf_in(q, buf, len);                               \
                mc_assert(ret == (len < cap ? len : cap),                       \
                          "in(%lu) returned %lu with %u queued", len, ret, m.n);\
                for (i = 0; i < ret; ++i)                                       \
                    append(&m, cap, nextval - len + 1 + i);                                    \
                mc_free(buf);                                                   \
                break;                                                          \
            case 4: case 5: {                                                   \
                unsigned long want;                                             \
                len = mc_choose(cap + 3);                                       \
                want = len < m.n ? len : m.n;                                   \
                /* exactly the accepted room: overruns hit poisoned memory */   \
                buf = mc_malloc(sizeof(type) * want);                           \
                mc_step("out %lu", len);                                        \
                ret = bfdev_ringbuf_out(q, buf, len);                              \
                mc_assert(ret == want, "out(%lu) returned %lu with %u queued",  \
                          len, ret, m.n);                                       \
                for (i = 0; i < ret; ++i)                                       \
                    mc_assert(SAME(type, buf[i], m.v[i]), "out: element %lu", i);   \
                m.n -= ret;                                                     \
                memmove(m.v, m.v + ret, m.n * sizeof(*m.v));                    \
                mc_free(buf);                                                   \
                break;                                                          \
            }                                                                   \
            case 6:                                                             \
                mc_step("homing");                                              \
                bfdev_ringbuf_homing(q);                                           \
                m.n = 0;                                                        \
                break;                                                          \
            case 7:                                                             \
                mc_step("reset");                                               \
                bfdev_ringbuf_reset(q);                                            \
                m.n = 0;                                                        \
                break;                                                          \
        }                                                                       \
    }                                                                           \
    if (dynamic) {                                                              \
        bfdev_ringbuf_dynamic_free(&q->ringbuf);                                      \
        mc_assert(!bfdev_ringbuf_initialized(q), "freed fifo looks initialized");  \
        mc_no_leaks("fifo");                                                    \
    }                                                                           \
}

typedef BFDEV_STRUCT_RINGBUF(uint8_t, 2) fifo8_2;
typedef BFDEV_STRUCT_RINGBUF(uint8_t, 4) fifo8_4;
typedef BFDEV_STRUCT_RINGBUF(uint8_t, 8) fifo8_8;
typedef BFDEV_STRUCT_RINGBUF(uint32_t, 4) fifo32_4;
typedef BFDEV_DECLARE_STRUCT_RINGBUF_DYNAMIC(uint8_t) fifo8_dyn;
typedef BFDEV_DECLARE_STRUCT_RINGBUF_DYNAMIC(uint16_t) fifo16_dyn;
typedef BFDEV_DECLARE_STRUCT_RINGBUF_DYNAMIC(uint32_t) fifo32_dyn;

typedef struct { uint8_t b[3]; } el3_t;
typedef struct { uint32_t w[3]; } el12_t;
typedef BFDEV_STRUCT_RINGBUF(el3_t, 4) fifoel3_4;
typedef BFDEV_DECLARE_STRUCT_RINGBUF_DYNAMIC(el3_t) fifoel3_dyn;
typedef BFDEV_DECLARE_STRUCT_RINGBUF_DYNAMIC(el12_t) fifoel12_dyn;

DEFINE_FIFO_SCENARIO(s_el3_4, el3_t, fifoel3_4, 4, 0)
DEFINE_FIFO_SCENARIO(d_el3_8, el3_t, fifoel3_dyn, 8, 1)
DEFINE_FIFO_SCENARIO(d_el12_4, el12_t, fifoel12_dyn, 4, 1)
DEFINE_FIFO_SCENARIO(s_u8_2, uint8_t, fifo8_2, 2, 0)
DEFINE_FIFO_SCENARIO(s_u8_4, uint8_t, fifo8_4, 4, 0)
DEFINE_FIFO_SCENARIO(s_u8_8, uint8_t, fifo8_8, 8, 0)
DEFINE_FIFO_SCENARIO(s_u32_4, uint32_t, fifo32_4, 4, 0)
DEFINE_FIFO_SCENARIO(d_u8_2, uint8_t, fifo8_dyn, 2, 1)
DEFINE_FIFO_SCENARIO(d_u8_8, uint8_t, fifo8_dyn, 8, 1)
DEFINE_FIFO_SCENARIO(d_u16_4, uint16_t, fifo16_dyn, 4, 1)
DEFINE_FIFO_SCENARIO(d_u32_4, uint32_t, fifo32_dyn, 4, 1)
DEFINE_FIFO_SCENARIO(d_u32_16, uint32_t, fifo32_dyn, 16, 1)

/* capacity rounding, refusal of tiny sizes and allocation failure */
static void
s_alloc(void)
{
    BFDEV_DECLARE_RINGBUF_DYNAMIC(q, uint16_t) = BFDEV_RINGBUF_DYNAMIC_INIT(&q);
    unsigned long size = mc_choose(40), cap;
    int ret;

    mc_fault_budget = 1;
    mc_step("alloc %lu", size);
    ret = bfdev_ringbuf_alloc(&q, &mc_alloc, size);
    for (cap = 1; cap < size; cap <<= 1)
        ;
    mc_case(mc_mix(mc_mix(size, ret), mc_faults));
    if (size < 2) {
        mc_assert(ret == -BFDEV_EINVAL, "size %lu accepted (%d)", size, ret);
        return;
    }
    if (mc_faults) {
        mc_assert(ret == -BFDEV_ENOMEM, "allocation failure not reported");
        mc_no_leaks("failed alloc");
        return;
    }
    mc_assert(!ret, "alloc(%lu) = %d", size, ret);
    mc_assert(bfdev_ringbuf_size(&q) == cap, "capacity %lu for %lu", bfdev_ringbuf_size(&q), size);
    mc_assert(mc_live_bytes >= cap * sizeof(uint16_t), "buffer too small");
    mc_assert(bfdev_ringbuf_check_empty(&q), "not empty");
    bfdev_ringbuf_dynamic_free(&q.ringbuf);
    mc_no_leaks("fifo");
}

const mc_scenario_t mc_scenarios[] = {
    { "static-el3-cap4", s_el3_4, { 40, 60 } },
    { "dynamic-el3-cap8", d_el3_8, { 40, 60 } },
    { "dynamic-el12-cap4", d_el12_4, { 40, 60 } },
    { "static-u8-cap2", s_u8_2, { 40, 60 } },
    { "static-u8-cap4", s_u8_4, { 40, 60 } },
    { "static-u8-cap8", s_u8_8, { 40, 60 } },
    { "static-u32-cap4", s_u32_4, { 40, 60 } },
    { "dynamic-u8-cap2", d_u8_2, { 40, 60 } },
    { "dynamic-u8-cap8", d_u8_8, { 40, 60 } },
    { "dynamic-u16-cap4", d_u16_4, { 40, 60 } },
    { "dynamic-u32-cap4", d_u32_4, { 40, 60 } },
    { "dynamic-u32-cap16", d_u32_16, { 40, 60 } },
    { "dynamic-alloc", s_alloc, { 1, 1 }, 0, 1 },
    { NULL }
};
