/*
 * Linearizability by brute force: is there an order of the operations, keeping
 * real time order, in which a sequential model gives every recorded result?
 */
#ifndef LIN_H
#define LIN_H
#include "mc.h"

#define LIN_MAX 10

static struct lin_op {
    int thread;
    unsigned before;        /* set of operations that had returned when this one was called */
    bool returned;
} lin_ops[LIN_MAX];
static int lin_n;

static inline void lin_reset(void) { lin_n = 0; memset(lin_ops, 0, sizeof(lin_ops)); }
static inline int lin_call(int thread)
{
    struct lin_op *o = &lin_ops[lin_n];
    int i;

    o->thread = thread;
    o->before = 0;
    for (i = 0; i < lin_n; i++)
        if (lin_ops[i].returned)
            o->before |= 1u << i;
    return lin_n++;
}
static inline void lin_return(int op) { lin_ops[op].returned = true; }
static inline uint64_t lin_hash(uint64_t h)
{
    int i;

    for (i = 0; i < lin_n; i++)
        h = mc_mix(mc_mix(h, lin_ops[i].thread), lin_ops[i].before * 2 + lin_ops[i].returned);
    return h;
}

/* apply(op, model) applies op to the model; false if the recorded result does not fit */
static bool lin_search(unsigned done, const void *model, size_t size, bool (*apply)(int, void *))
{
    char copy[512];
    int i;

    if (done == (1u << lin_n) - 1)
        return true;
    for (i = 0; i < lin_n; i++) {
        if (done >> i & 1 || lin_ops[i].before & ~done)
            continue;
        memcpy(copy, model, size);
        if (apply(i, copy) && lin_search(done | 1u << i, copy, size, apply))
            return true;
    }
    return false;
}
#endif
