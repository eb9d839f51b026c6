/*
 * Every way of creating an object gives the same empty object: each component is
 * created in each of its forms (static initializer, initializer expression,
 * defining macro, init function on memory that was in use before) next to one of
 * the reference form, and every sequence of operations must answer alike on both.
 */
#include "mc.h"
#include <stdarg.h>
#include <bfdev/action.h>
#include <bfdev/allocator.h>
#include <bfdev/allocpool.h>
#include <bfdev/array.h>
#include <bfdev/btree.h>
#include <bfdev/circle.h>
#include <bfdev/fifo.h>
#include <bfdev/fsm.h>
#include <bfdev/hashmap.h>
#include <bfdev/hashtbl.h>
#include <bfdev/heap.h>
#include <bfdev/hlist.h>
#include <bfdev/ilist.h>
#include <bfdev/list.h>
#include <bfdev/log.h>
#include <bfdev/matrix.h>
#include <bfdev/mpi.h>
#include <bfdev/notifier.h>
#include <bfdev/prandom.h>
#include <bfdev/radix.h>
#include <bfdev/ratelimit.h>
#include <bfdev/rbtree.h>
#include <bfdev/refcount.h>
#include <bfdev/respool.h>
#include <bfdev/ringbuf.h>
#include <bfdev/slist.h>
#include <bfdev/tokenbucket.h>

#define N 4
static bfdev_time_t now[2];
static int form, used[2][N];        /* side 0: the form under test, 1: the reference */
static const char *const forms[] = { "static", "expression", "define", "file scope" };

/* what the memory held before; only short histories follow the less ordinary contents */
static int contents;
static const char *const befores[] = { "noise", "zeros", "ones", "pointers to the object", "pointers to themselves", "all bits",
    "pointers to the object in even words", "pointers to the object in odd words" };
static void
dirty(void *ptr, size_t size, bool first)
{
    size_t i;

    if (first) {
        contents = mc_choose(MC_ARRAY_SIZE(befores));
        mc_step("memory held %s", befores[contents]);
    }
    memset(ptr, contents == 0 ? first ? 0x5a : 0xa5 : contents == 2 ? 1 : contents == 5 ? 0xff : contents >= 6 ? 0x33 : 0, size);
    for (i = 0; (i + 1) * sizeof(void *) <= size; ++i) {
        if (contents == 4)
            ((void **)ptr)[i] = (void **)ptr + i;
        else if (contents == 3 || (contents >= 6 && (i & 1) == contents - 6u))
            ((void **)ptr)[i] = ptr;
    }
}

/* every sequence of operations on both sides */
static void
run2(void *a, void *b, uint64_t (*op)(void *, int, int), int nops, int release)
{
    int i, o, bound = contents && mc_bound > 4 ? 4 : mc_bound;
    uint64_t h = form, ra = 0, rb;

    memset(used, 0, sizeof(used));
    mc_step("created by %s", forms[form]);
    /* a former life on one side only */
    if (release >= 0 && mc_choose(2)) {
        for (i = 0; i < 2; ++i) {
            o = mc_choose(nops);
            mc_step("former life: operation %d", o);
            op(a, 0, o);
        }
        mc_step("release (operation %d)", release);
        op(a, 0, release);
        op(b, 1, release);
        memset(used, 0, sizeof(used));
        now[0] = now[1] = 1000;
        h = mc_mix(h, 99);
    }
    for (i = 0; i < bound; ++i) {
        o = mc_choose(nops);
        mc_step("operation %d", o);
        ra = op(a, 0, o);
        rb = op(b, 1, o);
        mc_assert(ra == rb, "operation %d answers %#lx, on the reference %#lx", o, (long)ra, (long)rb);
    }
    mc_case(mc_mix(h, ra));     /* outcome classes */
}

static void
run(void *a, void *b, uint64_t (*op)(void *, int, int), int nops)
{
    run2(a, b, op, nops, -1);
}

/*
 * S, I: initializers; D: definition; F: call.  The object f is the reference; the
 * one at file scope keeps its bytes from before the first run.
 */
#define FORMS(type, S, I, D, F, G)                              \
    D;                                                          \
    type s = S, i, f, *obj;                                     \
    static char gsave[sizeof(type)];                            \
    static bool gsaved;                                         \
    if (!gsaved)                                                \
        memcpy(gsave, &G, sizeof(type));                        \
    gsaved = true;                                              \
    memcpy(&G, gsave, sizeof(type));                            \
    dirty(&i, sizeof(i), true);                                \
    dirty(&f, sizeof(f), false);                                \
    i = I;                                                      \
    F;                                                          \
    form = mc_choose(4);                                        \
    obj = form == 0 ? &s : form == 1 ? &i : form == 2 ? &d : &G

#define FIRST_FREE(side) ({ int __n; for (__n = 0; __n < N && used[side][__n]; ++__n); __n; })

/* action */
static int acted(void *data) { return *(int *)data; }
static const int act_data[2] = { 11, 22 };
static BFDEV_DEFINE_ACTION(g_action, acted, &act_data[0]);
static uint64_t op_action(void *o, int side, int op)
{
    bfdev_action_t *a = o;
    if (op == 1)
        bfdev_action_update(a, &act_data[1]);
    if (op == 2)
        bfdev_action_clear(a);
    return bfdev_action_call(a);
}
static void s_action(void)
{
    FORMS(bfdev_action_t, BFDEV_ACTION_STATIC(acted, &act_data[0]), BFDEV_ACTION_INIT(acted, &act_data[0]),
          BFDEV_DEFINE_ACTION(d, acted, &act_data[0]), bfdev_action_init(&f, acted, &act_data[0]), g_action);
    run(obj, &f, op_action, 3);
}

/* allocator */
static uint64_t alog;
static long apriv;
static char ablock[64];
static void *a_alloc(size_t size, void *p) { alog = mc_mix(mc_mix(1, size), p == &apriv); return ablock; }
static void *a_zalloc(size_t size, void *p) { alog = mc_mix(mc_mix(2, size), p == &apriv); return ablock; }
static void *a_realloc(void *b, size_t size, void *p) { alog = mc_mix(mc_mix(3, size), p == &apriv && b == ablock); return ablock; }
static void a_free(void *b, void *p) { alog = mc_mix(4, p == &apriv && b == ablock); }
static BFDEV_DEFINE_ALLOC_OPS(g_ops, a_alloc, a_zalloc, a_realloc, a_free);
static BFDEV_DEFINE_ALLOC(g_alloc, &g_ops, &apriv);
static uint64_t op_alloc(void *o, int side, int op)
{
    void *p = ablock;
    alog = 0;
    if (op == 0) p = bfdev_malloc(o, 5);
    if (op == 1) p = bfdev_zalloc(o, 6);
    if (op == 2) p = bfdev_realloc(o, ablock, 7);
    if (op == 3) bfdev_free(o, ablock);
    return mc_mix(alog, p == ablock);
}
static void s_alloc(void)
{
    FORMS(bfdev_alloc_t, BFDEV_ALLOC_STATIC(&g_ops, &apriv), BFDEV_ALLOC_INIT(&g_ops, &apriv),
          BFDEV_DEFINE_ALLOC(d, &g_ops, &apriv), bfdev_alloc_init(&f, &g_ops, &apriv), g_alloc);
    run(obj, &f, op_alloc, 4);
}
static uint64_t op_allocops(void *o, int side, int op)
{
    bfdev_alloc_t alloc = BFDEV_ALLOC_INIT(o, &apriv);
    return op_alloc(&alloc, side, op);
}
static void s_allocops(void)
{
    FORMS(bfdev_alloc_ops_t, BFDEV_ALLOC_OPS_STATIC(a_alloc, a_zalloc, a_realloc, a_free),
          BFDEV_ALLOC_OPS_INIT(a_alloc, a_zalloc, a_realloc, a_free),
          BFDEV_DEFINE_ALLOC_OPS(d, a_alloc, a_zalloc, a_realloc, a_free),
          bfdev_alloc_ops_init(&f, a_alloc, a_zalloc, a_realloc, a_free), g_ops);
    run(obj, &f, op_allocops, 4);
}

/* pool of allocations */
static char pool_block[2][32] __attribute__((aligned(16)));
static void *pool_got[2][8];
static int pool_n[2];
static BFDEV_DEFINE_ALLOCPOOL(g_allocpool, pool_block[0], sizeof(pool_block[0]));
static uint64_t op_allocpool(void *o, int side, int op)
{
    void *p = NULL;
    if (op < 2) {
        p = bfdev_allocpool_alloc(o, op ? 5 : 12, 4);
        if (p && pool_n[side] < 8)
            pool_got[side][pool_n[side]++] = p;
        return p ? (char *)p - pool_block[side] : -1;
    }
    if (op == 2 && pool_n[side])
        bfdev_allocpool_free(o, pool_got[side][--pool_n[side]]);
    if (op == 3) {
        bfdev_allocpool_reset(o);
        pool_n[side] = 0;
    }
    return 0;
}
static void s_allocpool(void)
{
    size_t z = sizeof(pool_block[0]);
    FORMS(bfdev_allocpool_t, BFDEV_ALLOCPOOL_STATIC(pool_block[0], z), BFDEV_ALLOCPOOL_INIT(pool_block[0], z),
          BFDEV_DEFINE_ALLOCPOOL(d, pool_block[0], z), bfdev_allocpool_init(&f, pool_block[1], z), g_allocpool);
    pool_n[0] = pool_n[1] = 0;
    run2(obj, &f, op_allocpool, 4, 3);
}

/* array */
static BFDEV_DEFINE_ARRAY(g_array, &mc_alloc, 6);
static uint64_t op_array(void *o, int side, int op)
{
    bfdev_array_t *a = o;
    char *p, v = 1;
    uint64_t h;
    unsigned long i;

    if (op == 0 && (p = bfdev_array_push(a, 3)))
        memset(p, 7, 3 * 6);
    if (op == 1)
        bfdev_array_pop(a, 1);
    if (op == 2)
        bfdev_array_reset(a);
    if (op == 3)
        bfdev_array_release(a);
    h = mc_mix(mc_mix(bfdev_array_index(a), bfdev_array_size(a)), a->capacity);
    for (i = 0; i < bfdev_array_size(a); ++i)
        v += ((char *)a->data)[i];
    return mc_mix(h, v);
}
static void s_array(void)
{
    FORMS(bfdev_array_t, BFDEV_ARRAY_STATIC(&mc_alloc, 6), BFDEV_ARRAY_INIT(&mc_alloc, 6),
          BFDEV_DEFINE_ARRAY(d, &mc_alloc, 6), bfdev_array_init(&f, &mc_alloc, 6), g_array);
    run2(obj, &f, op_array, 4, 3);
    bfdev_array_release(obj);
    bfdev_array_release(&f);
    mc_no_leaks("array");
}

/* B+tree */
static bfdev_btree_ops_t btree_ops = {
    .alloc = bfdev_btree_alloc, .free = bfdev_btree_free, .find = bfdev_btree_key_find,
};
static BFDEV_BTREE_ROOT(g_btree, &bfdev_btree_layoutptr, &btree_ops, NULL);
static uint64_t op_btree(void *o, int side, int op)
{
    bfdev_btree_root_t *t = o;
    uintptr_t k = op % 3 + 1;
    void *v;
    uint64_t h = 0;

    t->alloc = &mc_alloc;
    if (op < 3)
        h = bfdev_btree_insert(t, &k, &btree_ops + k);
    else if (op < 6)
        h = (uintptr_t)bfdev_btree_remove(t, &k);
    else
        bfdev_btree_release(t, NULL, NULL);
    bfdev_btree_for_each(t, &k, v)
        h = mc_mix(mc_mix(h, k), (uintptr_t)v);
    return h;
}
static void s_btree(void)
{
    FORMS(bfdev_btree_root_t, BFDEV_BTREE_STATIC(&bfdev_btree_layoutptr, &btree_ops, NULL),
          BFDEV_BTREE_INIT(&bfdev_btree_layoutptr, &btree_ops, NULL),
          BFDEV_BTREE_ROOT(d, &bfdev_btree_layoutptr, &btree_ops, NULL),
          bfdev_btree_init(&f, &bfdev_btree_layoutptr, &btree_ops, NULL), g_btree);
    run2(obj, &f, op_btree, 7, 6);
    bfdev_btree_release(obj, NULL, NULL);
    bfdev_btree_release(&f, NULL, NULL);
    mc_no_leaks("B+tree");
}

/* circle */
static uint8_t circ_buf[2][4];
static BFDEV_DEFINE_CIRCLE(g_circle, circ_buf[0]);
static uint64_t op_circle(void *o, int side, int op)
{
    bfdev_circle_t *c = o;
    uint64_t h = 0;
    uint8_t *b = c->buffer;

    mc_assert(b == circ_buf[side], "a foreign buffer");
    if (op == 0 && BFDEV_CIRCLE_SPACE(c->head, c->tail, 4)) {
        b[c->head & 3] = 7;
        c->head = (c->head + 1) & 3;
    }
    if (op == 1 && BFDEV_CIRCLE_CNT(c->head, c->tail, 4)) {
        h = b[c->tail & 3];
        c->tail = (c->tail + 1) & 3;
    }
    return mc_mix(mc_mix(h, BFDEV_CIRCLE_CNT(c->head, c->tail, 4)), BFDEV_CIRCLE_SPACE(c->head, c->tail, 4));
}
static void s_circle(void)
{
    FORMS(bfdev_circle_t, BFDEV_CIRCLE_STATIC(circ_buf[0]), BFDEV_CIRCLE_INIT(circ_buf[0]),
          BFDEV_DEFINE_CIRCLE(d, circ_buf[0]), f = BFDEV_CIRCLE_INIT(circ_buf[1]), g_circle);
    run(obj, &f, op_circle, 2);
}

/* fifo, ring buffer */
#define DEFINE_QUEUE(name, NAME, member)                                        \
static BFDEV_DECLARE_##NAME(g_##name, uint16_t, 4) = BFDEV_##NAME##_INIT(&g_##name); \
static typeof(g_##name) c_##name;                                               \
static uint64_t op_##name(void *o, int side, int op)                            \
{                                                                               \
    typeof(&g_##name) q = o;                                                    \
    uint16_t v = op + 40, got[6] = { 0 };                                       \
    uint64_t h = 0;                                                             \
    if (op < 2)                                                                 \
        h = bfdev_##name##_put(q, v);                                           \
    if (op == 2)                                                                \
        h = bfdev_##name##_get(q, &got[0]);                                     \
    if (op == 3)                                                                \
        bfdev_##name##_reset(q);                                                \
    h = mc_mix(h, got[0]);                                                      \
    h = mc_mix(h, bfdev_##name##_out_peek(q, got, 6));                          \
    h = mc_mix_bytes(h, got, sizeof(got));                                      \
    return mc_mix(mc_mix(h, bfdev_##name##_len(q)), bfdev_##name##_check_full(q)); \
}                                                                               \
static void s_##name(void)                                                      \
{                                                                               \
    BFDEV_DECLARE_##NAME(s, uint16_t, 4) = BFDEV_##NAME##_INIT(&s);             \
    BFDEV_DEFINE_##NAME(d, uint16_t, 4);                                        \
    BFDEV_DECLARE_##NAME(i, uint16_t, 4);                                       \
    BFDEV_DECLARE_##NAME(f, uint16_t, 4);                                       \
    static BFDEV_DEFINE_##NAME(g, uint16_t, 4);                                 \
    static bool once;                                                           \
    static char save[sizeof(g)];                                                \
    void *obj;                                                                  \
    if (!once)                                                                  \
        memcpy(save, &g, sizeof(g));                                            \
    once = true;                                                                \
    memcpy(&g, save, sizeof(g));                                                \
    dirty(&i, sizeof(i), true);                                                \
    dirty(&f, sizeof(f), false);                                                \
    i = (typeof(i)) BFDEV_##NAME##_INIT(&i);                                    \
    f = (typeof(f)) BFDEV_##NAME##_INIT(&f);                                    \
    form = mc_choose(4);                                                        \
    obj = form == 0 ? (void *)&s : form == 1 ? (void *)&i : form == 2 ? (void *)&d : (void *)&g; \
    run2(obj, &f, op_##name, 4, 3);                                                 \
}                                                                               \
static uint64_t op_dyn_##name(void *o, int side, int op)                        \
{                                                                               \
    BFDEV_DECLARE_##NAME##_DYNAMIC(*q, uint16_t) = o;                           \
    uint16_t v = op + 40, got[6] = { 0 };                                       \
    uint64_t h = 0;                                                             \
    if (op == 0 && !bfdev_##name##_initialized(q))                              \
        h = bfdev_##name##_alloc(q, &mc_alloc, 3);                              \
    if (op == 1 && bfdev_##name##_initialized(q))                               \
        h = bfdev_##name##_put(q, v);                                           \
    if (op == 2 && bfdev_##name##_initialized(q))                               \
        h = bfdev_##name##_get(q, &got[0]);                                     \
    if (op == 3 && bfdev_##name##_initialized(q))                               \
        bfdev_##name##_dynamic_free(&q->name);                                  \
    return mc_mix(mc_mix(mc_mix(mc_mix(h, got[0]), bfdev_##name##_len(q)),      \
        bfdev_##name##_initialized(q)), bfdev_##name##_check_dynamic(q));       \
}                                                                               \
static void s_dyn_##name(void)                                                  \
{                                                                               \
    BFDEV_DECLARE_##NAME##_DYNAMIC(s, uint16_t) = BFDEV_##NAME##_DYNAMIC_INIT(&s); \
    BFDEV_DEFINE_##NAME##_DYNAMIC(d, uint16_t);                                 \
    BFDEV_DECLARE_##NAME##_DYNAMIC(i, uint16_t);                                \
    BFDEV_DECLARE_##NAME##_DYNAMIC(f, uint16_t);                                \
    static BFDEV_DEFINE_##NAME##_DYNAMIC(g, uint16_t);                          \
    static bool once;                                                           \
    static char save[sizeof(g)];                                                \
    void *obj;                                                                  \
    if (!once)                                                                  \
        memcpy(save, &g, sizeof(g));                                            \
    once = true;                                                                \
    memcpy(&g, save, sizeof(g));                                                \
    dirty(&i, sizeof(i), true);                                                \
    dirty(&f, sizeof(f), false);                                                \
    i = (typeof(i)) BFDEV_##NAME##_DYNAMIC_INIT(&i);                            \
    f = (typeof(f)) BFDEV_##NAME##_DYNAMIC_INIT(&f);                            \
    form = mc_choose(4);                                                        \
    obj = form == 0 ? (void *)&s : form == 1 ? (void *)&i : form == 2 ? (void *)&d : (void *)&g; \
    run2(obj, &f, op_dyn_##name, 4, 3);                                             \
    if (bfdev_##name##_initialized((typeof(&f))obj)) {                          \
        bfdev_##name##_dynamic_free(&((typeof(&f))obj)->name);                  \
        bfdev_##name##_dynamic_free(&f.name);                                   \
    }                                                                           \
    mc_no_leaks(#name);                                                         \
}
DEFINE_QUEUE(fifo, FIFO, fifo)
DEFINE_QUEUE(ringbuf, RINGBUF, ringbuf)

/* state machine */
static const bfdev_fsm_state_t fsm_b, fsm_e;
static const bfdev_fsm_transition_t fsm_ta[] = {
    { .type = 1, .next = &fsm_b, .stack = 1 },
    { .type = 2, .next = &fsm_e },
};
static const bfdev_fsm_transition_t fsm_tb[] = { { .type = 1, .stack = -1 }, { .type = 2, .next = &fsm_b } };
static const bfdev_fsm_state_t fsm_a = { .trans = fsm_ta, .tnum = 2 };
static const bfdev_fsm_state_t fsm_b = { .trans = fsm_tb, .tnum = 2 };
static const bfdev_fsm_state_t fsm_e = { .trans = NULL };
static BFDEV_DEFINE_FSM(g_fsm, &mc_alloc, &fsm_a, &fsm_e);
static uint64_t op_fsm(void *o, int side, int op)
{
    bfdev_fsm_t *m = o;
    bfdev_fsm_event_t ev = { .type = op + 1 };
    uint64_t h = 0;

    if (op < 3)
        h = bfdev_fsm_handle(m, &ev);
    else
        bfdev_fsm_reset(m, &fsm_b);
    h = mc_mix(mc_mix(h, (uintptr_t)bfdev_fsm_curr(m)), (uintptr_t)bfdev_fsm_prev(m));
    return mc_mix(mc_mix(h, m->error == &fsm_e), bfdev_fsm_finished(m));
}
static void s_fsm(void)
{
    FORMS(bfdev_fsm_t, BFDEV_FSM_STATIC(&mc_alloc, &fsm_a, &fsm_e), BFDEV_FSM_INIT(&mc_alloc, &fsm_a, &fsm_e),
          BFDEV_DEFINE_FSM(d, &mc_alloc, &fsm_a, &fsm_e), bfdev_fsm_init(&f, &mc_alloc, &fsm_a, &fsm_e), g_fsm);
    run2(obj, &f, op_fsm, 4, 3);
    bfdev_array_release(&obj->stack);
    bfdev_array_release(&f.stack);
    mc_no_leaks("state machine");
}

/* hash map */
static struct hent { bfdev_hlist_node_t node; unsigned long key; } hents[2][N];
static unsigned long h_key(const void *key, void *pdata) { return (unsigned long)key + (pdata != &apriv); }
static unsigned long h_node(const bfdev_hlist_node_t *n, void *pdata) { return bfdev_hlist_entry(n, struct hent, node)->key + (pdata != &apriv); }
static long h_equal(const bfdev_hlist_node_t *a, const bfdev_hlist_node_t *b, void *p)
{ return bfdev_hlist_entry(a, struct hent, node)->key - bfdev_hlist_entry(b, struct hent, node)->key; }
static long h_find(const bfdev_hlist_node_t *n, const void *key, void *p)
{ return bfdev_hlist_entry(n, struct hent, node)->key - (unsigned long)key; }
static const bfdev_hashmap_ops_t hops = { h_key, h_node, h_equal, h_find };
static BFDEV_DEFINE_HASHMAP(g_hashmap, &mc_alloc, &hops, &apriv);
static uint64_t op_hashmap(void *o, int side, int op)
{
    bfdev_hashmap_t *m = o;
    bfdev_hlist_node_t *n;
    uint64_t h = 0;
    int k;

    if (op < 2 && !used[side][op]) {
        hents[side][op].key = op;
        h = bfdev_hashmap_add(m, &hents[side][op].node);
        used[side][op] = !h;
    } else if (op >= 2 && op < 4) {
        n = NULL;
        h = bfdev_hashmap_del(m, (void *)(long)(op - 2), &n);
        h += n ? n == &hents[side][op - 2].node : 2;
        used[side][op - 2] = 0;
    } else if (op == 4) {
        bfdev_hashmap_release(m);
        used[side][0] = used[side][1] = 0;
    }
    for (k = 0; k < 2; ++k) {
        n = bfdev_hashmap_find(m, (void *)(long)k);
        h = mc_mix(h, n ? n == &hents[side][k].node : 2);
    }
    return mc_mix(h, m->capacity);
}
static void s_hashmap(void)
{
    FORMS(bfdev_hashmap_t, BFDEV_HASHMAP_STATIC(&mc_alloc, &hops, &apriv), BFDEV_HASHMAP_INIT(&mc_alloc, &hops, &apriv),
          BFDEV_DEFINE_HASHMAP(d, &mc_alloc, &hops, &apriv), bfdev_hashmap_init(&f, &mc_alloc, &hops, &apriv), g_hashmap);
    run2(obj, &f, op_hashmap, 5, 4);
    bfdev_hashmap_release(obj);
    bfdev_hashmap_release(&f);
    mc_no_leaks("hash map");
}

/* hash table */
static BFDEV_DEFINE_HASHTBL(g_hashtbl, 8);
static uint64_t op_hashtbl(void *o, int side, int op)
{
    bfdev_hlist_head_t *t = o;
    bfdev_hlist_node_t *n;
    uint64_t h = 0;
    unsigned long k, j;

    k = op % 3;
    if (op < 3 && !used[side][k]) {
        hents[side][k].key = k;
        bfdev_hashtbl_add(o, 8, &hents[side][k].node, k * 5);
        used[side][k] = 1;
    } else if (op >= 3 && used[side][k]) {
        bfdev_hashtbl_del(&hents[side][k].node);
        used[side][k] = 0;
    }
    for (k = 0; k < 3; ++k)
        bfdev_hashtbl_for_each_idx(n, t, 8, bfdev_hashtbl_index(8, k * 5)) {
            j = bfdev_hlist_entry(n, struct hent, node)->key;
            h = mc_mix(h, j * 8 + k);
        }
    return mc_mix(h, bfdev_hashtbl_empty(o, 8));
}
static void s_hashtbl(void)
{
    BFDEV_DEFINE_HASHTBL(d, 8);
    bfdev_hlist_head_t f[8];
    static bool once;
    static char save[sizeof(g_hashtbl)];

    if (!once)
        memcpy(save, g_hashtbl, sizeof(g_hashtbl));
    once = true;
    memcpy(g_hashtbl, save, sizeof(g_hashtbl));
    dirty(f, sizeof(f), true);
    bfdev_hashtbl_init(f, 8);
    form = 2 + mc_choose(2);
    run(form == 2 ? d : g_hashtbl, f, op_hashtbl, 6);
}

/* heap */
static struct { bfdev_heap_node_t node; int key; } heaps[2][N];
static long heap_cmp(const bfdev_heap_node_t *a, const bfdev_heap_node_t *b, void *p)
{ return bfdev_cmp(bfdev_container_of(a, typeof(heaps[0][0]), node)->key > bfdev_container_of(b, typeof(heaps[0][0]), node)->key); }
static BFDEV_HEAP_ROOT(g_heap);
static uint64_t op_heap(void *o, int side, int op)
{
    bfdev_heap_root_t *r = o;
    int k = op % 2;

    if (op < 2 && !used[side][k]) {
        heaps[side][k].key = k;
        bfdev_heap_insert(r, &heaps[side][k].node, heap_cmp, NULL);
        used[side][k] = 1;
    } else if (op >= 2 && used[side][k]) {
        bfdev_heap_delete(r, &heaps[side][k].node, heap_cmp, NULL);
        used[side][k] = 0;
    }
    return BFDEV_HEAP_ROOT_COUNT(r) * 8 + bfdev_heap_empty_root(r) * 4 +
           (r->node ? bfdev_container_of(r->node, typeof(heaps[0][0]), node)->key : 3);
}
static void s_heap(void)
{
    FORMS(bfdev_heap_root_t, BFDEV_HEAP_STATIC(), BFDEV_HEAP_INIT(), BFDEV_HEAP_ROOT(d), bfdev_heap_init(&f), g_heap);
    run(obj, &f, op_heap, 4);
}

/* lists */
static bfdev_hlist_node_t hn[2][N];
static BFDEV_HLIST_HEAD(g_hlist);
static uint64_t op_hlist(void *o, int side, int op)
{
    bfdev_hlist_node_t *p;
    uint64_t h = bfdev_hlist_check_empty(o);
    int k = op % 2;

    if (op < 2 && !used[side][k]) {
        bfdev_hlist_head_add(o, &hn[side][k]);
        used[side][k] = 1;
    } else if (op >= 2 && used[side][k]) {
        bfdev_hlist_del(&hn[side][k]);
        used[side][k] = 0;
    }
    bfdev_hlist_for_each(p, (bfdev_hlist_head_t *)o)
        h = mc_mix(h, p - hn[side]);
    return h;
}
static void s_hlist(void)
{
    FORMS(bfdev_hlist_head_t, BFDEV_HLIST_HEAD_STATIC(), BFDEV_HLIST_HEAD_INIT(), BFDEV_HLIST_HEAD(d),
          bfdev_hlist_head_init(&f), g_hlist);
    run(obj, &f, op_hlist, 4);
}

static bfdev_list_head_t ln[2][N];
static BFDEV_LIST_HEAD(g_list);
static uint64_t op_list(void *o, int side, int op)
{
    bfdev_list_head_t *p;
    uint64_t h = bfdev_list_check_empty(o);
    int k = op % 2;

    if (op < 2 && !used[side][k]) {
        (k ? bfdev_list_add_prev : bfdev_list_add)(o, &ln[side][k]);
        used[side][k] = 1;
    } else if (op >= 2 && used[side][k]) {
        bfdev_list_del(&ln[side][k]);
        used[side][k] = 0;
    }
    bfdev_list_for_each(p, (bfdev_list_head_t *)o)
        h = mc_mix(h, p - ln[side]);
    bfdev_list_for_each_reverse(p, (bfdev_list_head_t *)o)
        h = mc_mix(h, p - ln[side]);
    return h;
}
static void s_list(void)
{
    FORMS(bfdev_list_head_t, BFDEV_LIST_HEAD_STATIC(&s), BFDEV_LIST_HEAD_INIT(&i), BFDEV_LIST_HEAD(d),
          bfdev_list_head_init(&f), g_list);
    run(obj, &f, op_list, 4);
}

static bfdev_slist_head_t sn[2][N];
static BFDEV_SLIST_HEAD(g_slist);
static uint64_t op_slist(void *o, int side, int op)
{
    bfdev_slist_head_t *p;
    uint64_t h = bfdev_slist_check_empty(o);
    int k = op % 2;

    if (op < 2 && !used[side][k]) {
        bfdev_slist_add(o, &sn[side][k]);
        used[side][k] = 1;
    } else if (op >= 2 && used[side][k]) {
        bfdev_slist_del(o, &sn[side][k]);
        used[side][k] = 0;
    }
    bfdev_slist_for_each(p, (bfdev_slist_head_t *)o)
        h = mc_mix(h, p - sn[side]);
    return h;
}
static void s_slist(void)
{
    FORMS(bfdev_slist_head_t, BFDEV_SLIST_HEAD_STATIC(), BFDEV_SLIST_HEAD_INIT(), BFDEV_SLIST_HEAD(d),
          bfdev_slist_head_init(&f), g_slist);
    run(obj, &f, op_slist, 4);
}

static struct { bfdev_ilist_node_t node; int key; } in[2][N];
static long ilist_cmp(const bfdev_ilist_node_t *a, const bfdev_ilist_node_t *b, void *p)
{ return bfdev_container_of(a, typeof(in[0][0]), node)->key - bfdev_container_of(b, typeof(in[0][0]), node)->key; }
static BFDEV_ILIST_HEAD(g_ilist);
static uint64_t op_ilist(void *o, int side, int op)
{
    bfdev_ilist_head_t *l = o;
    bfdev_list_head_t *p;
    uint64_t h = bfdev_ilist_head_empty(l);
    int k = op % 2;

    if (op < 2 && !used[side][k]) {
        in[side][k].key = -k;
        if (op)
            in[side][k].node = BFDEV_ILIST_NODE_INIT(&in[side][k].node);
        else
            bfdev_ilist_node_init(&in[side][k].node);
        mc_assert(bfdev_ilist_node_empty(&in[side][k].node), "a new node is not empty");
        bfdev_ilist_add(l, &in[side][k].node, ilist_cmp, NULL);
        used[side][k] = 1;
    } else if (op >= 2 && used[side][k]) {
        bfdev_ilist_del(l, &in[side][k].node);
        used[side][k] = 0;
    }
    bfdev_ilist_for_each(p, l)
        h = mc_mix(h, bfdev_container_of(p, typeof(in[0][0]), node.node_list)->key);
    return h;
}
static void s_ilist(void)
{
    FORMS(bfdev_ilist_head_t, BFDEV_ILIST_HEAD_STATIC(&s), BFDEV_ILIST_HEAD_INIT(&i), BFDEV_ILIST_HEAD(d),
          bfdev_ilist_head_init(&f), g_ilist);
    run(obj, &f, op_ilist, 4);
}

/* log */
static uint64_t logged;
static int log_write(bfdev_log_message_t *msg, void *pdata)
{
    logged = mc_mix(logged, msg->level);
    logged = mc_mix_bytes(logged, msg->buff, msg->length);
    return pdata == &apriv ? 0 : -1;
}
static BFDEV_DEFINE_LOG(g_log, 4, 6, 1UL << __BFDEV_LOG_LEVEL, log_write, &apriv);
static int vlog(bfdev_log_t *log, const char *fmt, ...)
{
    va_list args;
    int ret;

    va_start(args, fmt);
    ret = bfdev_vlog_core(log, fmt, args);
    va_end(args);
    return ret;
}
static uint64_t op_log(void *o, int side, int op)
{
    bfdev_log_t *log = o;
    long ret = 0;

    logged = 0;
    if (op == 0) ret = bfdev_log_core(log, "plain %d\n", 3);
    if (op == 1) ret = bfdev_log_core(log, BFDEV_SOH "3" "level three\n");
    if (op == 2) ret = vlog(log, BFDEV_SOH "7" "level %s\n", "seven");
    if (op == 3) { if (bfdev_log_level_test(log)) bfdev_log_level_clr(log); else bfdev_log_level_set(log); }
    return mc_mix(mc_mix(logged, ret), bfdev_log_level_test(log) * 2 + bfdev_log_color_test(log));
}
static void s_log(void)
{
    unsigned long fl = 1UL << __BFDEV_LOG_LEVEL;
    FORMS(bfdev_log_t, BFDEV_LOG_STATIC(&s, 4, 6, fl, log_write, &apriv), BFDEV_LOG_INIT(&i, 4, 6, fl, log_write, &apriv),
          BFDEV_DEFINE_LOG(d, 4, 6, fl, log_write, &apriv), bfdev_log_init(&f, 4, 6, fl, log_write, &apriv), g_log);
    run(obj, &f, op_log, 4);
}

/* matrix, big number */
static BFDEV_DEFINE_MATRIX(g_matrix, &mc_alloc);
static uint64_t op_matrix(void *o, int side, int op)
{
    static const BFDEV_MATRIX_TYPE v[] = { 1, 2, 3, 4, 5, 6 };
    bfdev_matrix_t *m = o;
    uint64_t h = 0;
    unsigned r, c;

    if (op == 0) h = bfdev_matrix_import(m, v, 2, 3);
    if (op == 1) h = bfdev_matrix_import(m, v, 1, 2);
    if (op == 2) h = bfdev_matrix_add(m, m, m);
    if (op == 3) bfdev_matrix_release(m);
    for (r = 0; r < m->row; ++r)
        for (c = 0; c < m->col; ++c)
            h = mc_mix(h, *bfdev_matrix_data(m, r, c));
    return mc_mix(mc_mix(h, m->row), m->col);
}
static void s_matrix(void)
{
    FORMS(bfdev_matrix_t, BFDEV_MATRIX_STATIC(&mc_alloc), BFDEV_MATRIX_INIT(&mc_alloc), BFDEV_DEFINE_MATRIX(d, &mc_alloc),
          bfdev_matrix_init(&f, &mc_alloc), g_matrix);
    run2(obj, &f, op_matrix, 4, 3);
    bfdev_matrix_release(obj);
    bfdev_matrix_release(&f);
    mc_no_leaks("matrix");
}

static BFDEV_DEFINE_MPI(g_mpi, (bfdev_alloc_t *)&mc_alloc);
static uint64_t op_mpi(void *o, int side, int op)
{
    static const BFDEV_MPI_TYPE v[] = { 5, 1 };
    bfdev_mpi_t *m = o;
    const BFDEV_MPI_TYPE *w;
    unsigned long n, i;
    bool plus;
    uint64_t h = 0;

    if (op == 0) h = bfdev_mpi_seti(m, 7);
    if (op == 1) h = bfdev_mpi_import(m, v, 2, false);
    if (op == 2) h = bfdev_mpi_addi(m, m, 9);
    if (op == 3) bfdev_mpi_release(m);
    if (op == 4) h = bfdev_mpi_add(m, m, m);
    n = bfdev_mpi_length(m);
    if (n) {
        w = bfdev_mpi_data(m, &plus);
        for (i = 0; i < n; ++i)
            h = mc_mix(h, w[i]);
        h = mc_mix(h, plus);
    }
    return mc_mix(h, n);
}
static void s_mpi(void)
{
    bfdev_alloc_t *al = (bfdev_alloc_t *)&mc_alloc;
    FORMS(bfdev_mpi_t, BFDEV_MPI_STATIC(al), BFDEV_MPI_INIT(al), BFDEV_DEFINE_MPI(d, al), bfdev_mpi_init(&f, al), g_mpi);
    run2(obj, &f, op_mpi, 5, 3);
    bfdev_mpi_release(obj);
    bfdev_mpi_release(&f);
    mc_no_leaks("number");
}

/* notifier */
static bfdev_notifier_node_t notes[2][N];
static uint64_t noted;
static bfdev_notifier_ret_t note(void *arg, void *pdata) { noted = mc_mix(noted, (long)pdata); return BFDEV_NOTIFI_RET_DONE; }
static BFDEV_DEFINE_NOTIFIER(g_notifier);
static uint64_t op_notifier(void *o, int side, int op)
{
    unsigned num = 0;
    uint64_t h = 0;
    int k = op % 2;

    noted = 0;
    if (op < 2 && !used[side][k]) {
        notes[side][k].priority = -k;
        notes[side][k].entry = note;
        notes[side][k].pdata = (void *)(long)k;
        h = bfdev_notifier_register(o, &notes[side][k]);
        used[side][k] = 1;
    } else if (op >= 2 && used[side][k]) {
        bfdev_notifier_unregister(o, &notes[side][k]);
        used[side][k] = 0;
    }
    h = mc_mix(h, bfdev_notifier_call(o, NULL, 9, &num));
    return mc_mix(mc_mix(h, num), noted);
}
static void s_notifier(void)
{
    FORMS(bfdev_notifier_t, BFDEV_NOTIFIER_STATIC(&s), BFDEV_NOTIFIER_INIT(&i), BFDEV_DEFINE_NOTIFIER(d),
          bfdev_notifier_init(&f), g_notifier);
    run(obj, &f, op_notifier, 4);
}

/* pseudo random numbers */
static BFDEV_DEFINE_PRANDOM(g_prandom);
static uint64_t op_prandom(void *o, int side, int op)
{
    if (op == 0) return bfdev_prandom_value(o);
    if (op == 1) return bfdev_prandom_u64(o);
    bfdev_prandom_seed(o, 77);
    return 0;
}
static void s_prandom(void)
{
    FORMS(bfdev_prandom_t, BFDEV_PRANDOM_STATIC(), BFDEV_PRANDOM_INIT(), BFDEV_DEFINE_PRANDOM(d), bfdev_prandom_init(&f), g_prandom);
    run(obj, &f, op_prandom, 3);
}

/* radix tree */
typedef BFDEV_GENERIC_RADIX(uint32_t) radix_t;
static radix_t g_radix = BFDEV_RADIX_STATIC(&mc_alloc);
static uint64_t op_radix(void *o, int side, int op)
{
    static const unsigned long idx[] = { 0, 3, 5000 };
    radix_t *r = o;
    uint32_t *p;
    uint64_t h = 0;
    int k = op % 3;

    if (op < 3 && (p = bfdev_radix_alloc(r, idx[k])))
        *p = op + 5;
    if (op >= 3 && op < 6)
        bfdev_radix_free(r, idx[k]);
    if (op == 6)
        bfdev_radix_release(r);
    for (k = 0; k < 3; ++k)
        h = mc_mix(h, (p = bfdev_radix_find(r, idx[k])) ? *p : 1);
    return h;
}
static void s_radix(void)
{
    BFDEV_DEFINE_RADIX(d, uint32_t, &mc_alloc);
    radix_t s = BFDEV_RADIX_STATIC(&mc_alloc), i, f;
    static char save[sizeof(radix_t)];
    static bool once;
    void *obj;

    if (!once)
        memcpy(save, &g_radix, sizeof(save));
    once = true;
    memcpy(&g_radix, save, sizeof(save));
    dirty(&i, sizeof(i), true);
    dirty(&f, sizeof(f), false);
    i = BFDEV_RADIX_INIT(&i, &mc_alloc);
    f = BFDEV_RADIX_INIT(&f, &mc_alloc);
    form = mc_choose(4);
    obj = form == 0 ? (void *)&s : form == 1 ? (void *)&i : form == 2 ? (void *)&d : (void *)&g_radix;
    run2(obj, &f, op_radix, 7, 6);
    bfdev_radix_release((radix_t *)obj);
    bfdev_radix_release(&f);
    mc_no_leaks("radix tree");
}

/* limiters */
static BFDEV_DEFINE_RATELIMIT(g_ratelimit, 10, 2);
static uint64_t op_ratelimit(void *o, int side, int op)
{
    bfdev_ratelimit_t *l = o;
    uint64_t h = 0;

    now[side] += op == 1 ? 4 : op == 2 ? 11 : 0;
    if (op == 3)
        bfdev_ratelimit_reset(l);
    else
        h = bfdev_ratelimit(l, now[side]);
    return mc_mix(mc_mix(h, l->passed), l->missed);
}
static void s_ratelimit(void)
{
    FORMS(bfdev_ratelimit_t, BFDEV_RATELIMIT_STATIC(10, 2), BFDEV_RATELIMIT_INIT(10, 2), BFDEV_DEFINE_RATELIMIT(d, 10, 2),
          bfdev_ratelimit_init(&f, 10, 2), g_ratelimit);
    now[0] = now[1] = 1000;
    run2(obj, &f, op_ratelimit, 4, 3);
}
static BFDEV_DEFINE_TOKENBUCKET(g_tokenbucket, 10, 2);
static uint64_t op_tokenbucket(void *o, int side, int op)
{
    bfdev_tokenbucket_t *l = o;
    uint64_t h = 0;

    now[side] += op == 1 ? 4 : op == 2 ? 11 : 0;
    if (op == 3)
        bfdev_tokenbucket_reset(l);
    else if (op == 4)
        bfdev_tokenbucket_update(l, now[side]);
    else
        h = bfdev_tokenbucket(l, now[side]);
    return mc_mix(mc_mix(h, l->passed), l->missed);
}
static void s_tokenbucket(void)
{
    FORMS(bfdev_tokenbucket_t, BFDEV_TOKENBUCKET_STATIC(10, 2), BFDEV_TOKENBUCKET_INIT(10, 2),
          BFDEV_DEFINE_TOKENBUCKET(d, 10, 2), bfdev_tokenbucket_init(&f, 10, 2), g_tokenbucket);
    now[0] = now[1] = 1000;
    run2(obj, &f, op_tokenbucket, 5, 3);
}

/* red black trees */
static struct { bfdev_rb_node_t node; int key; } rbs[2][N];
static long rb_cmp(const bfdev_rb_node_t *a, const bfdev_rb_node_t *b, void *p)
{ return bfdev_cmp(bfdev_container_of(a, typeof(rbs[0][0]), node)->key > bfdev_container_of(b, typeof(rbs[0][0]), node)->key); }
static long rb_find(const bfdev_rb_node_t *n, const void *key)
{ return (long)key - bfdev_container_of(n, typeof(rbs[0][0]), node)->key; }
static BFDEV_RB_ROOT(g_rb);
static BFDEV_RB_ROOT_CACHED(g_rbc);
static uint64_t op_rb(void *o, int side, int op)
{
    bfdev_rb_root_t *r = o;
    bfdev_rb_node_t *p;
    uint64_t h;
    int k = op % 2;

    h = BFDEV_RB_EMPTY_ROOT(r);
    if (op < 2 && !used[side][k]) {
        rbs[side][k].key = k;
        h = mc_mix(h, bfdev_rb_insert(r, &rbs[side][k].node, rb_cmp, NULL));
        used[side][k] = 1;
    } else if (op >= 2 && used[side][k]) {
        bfdev_rb_delete(r, &rbs[side][k].node);
        used[side][k] = 0;
    }
    bfdev_rb_for_each(p, r)
        h = mc_mix(h, bfdev_container_of(p, typeof(rbs[0][0]), node)->key);
    return mc_mix(h, BFDEV_RB_EMPTY_ROOT(r));
}
static void s_rb(void)
{
    FORMS(bfdev_rb_root_t, BFDEV_RB_STATIC(), BFDEV_RB_INIT(), BFDEV_RB_ROOT(d), bfdev_rb_init(&f), g_rb);
    run(obj, &f, op_rb, 4);
}
static uint64_t op_rbc(void *o, int side, int op)
{
    bfdev_rb_root_cached_t *r = o;
    bfdev_rb_node_t *p;
    uint64_t h;
    int k = op % 2;

    h = BFDEV_RB_EMPTY_ROOT_CACHED(r);
    if (op < 2 && !used[side][k]) {
        rbs[side][k].key = k;
        h = mc_mix(h, bfdev_rb_cached_insert(r, &rbs[side][k].node, rb_cmp, NULL));
        used[side][k] = 1;
    } else if (op >= 2 && used[side][k]) {
        bfdev_rb_cached_delete(r, &rbs[side][k].node);
        used[side][k] = 0;
    }
    p = bfdev_rb_cached_first(r);
    h = mc_mix(h, p ? bfdev_container_of(p, typeof(rbs[0][0]), node)->key : 7);
    return mc_mix(h, BFDEV_RB_EMPTY_ROOT_CACHED(r));
}
static void s_rbc(void)
{
    FORMS(bfdev_rb_root_cached_t, BFDEV_RB_CACHED_STATIC(), BFDEV_RB_CACHED_INIT(), BFDEV_RB_ROOT_CACHED(d),
          bfdev_rb_cache_init(&f), g_rbc);
    run(obj, &f, op_rbc, 4);
}

/* reference count */
static BFDEV_DEFINE_REFCNT(g_refcnt);
static uint64_t op_refcnt(void *o, int side, int op)
{
    bfdev_refcnt_t *r = o;
    uint64_t h = 0;

    if (op == 0 && bfdev_refcnt_get(r) > 0)
        bfdev_refcnt_inc(r);
    if (op == 1 && bfdev_refcnt_get(r) > 0)
        h = bfdev_refcnt_dec_test(r);
    if (op == 2)
        h = bfdev_refcnt_incnz_test(r);
    return mc_mix(h, bfdev_refcnt_get(r));
}
static void s_refcnt(void)
{
    FORMS(bfdev_refcnt_t, BFDEV_REFCNT_STATIC(), BFDEV_REFCNT_INIT, BFDEV_DEFINE_REFCNT(d), bfdev_refcnt_set(&f, 1), g_refcnt);
    run(obj, &f, op_refcnt, 3);
}

/* resource pool */
static bfdev_respool_node_t res[2][N];
static BFDEV_DEFINE_RESPOOL(g_respool);
static uint64_t released;
static int res_side;
static void res_release(bfdev_respool_node_t *node, void *pdata)
{
    released = mc_mix(released, node - res[res_side]);
    used[res_side][node - res[res_side]] = 0;
}
static uint64_t op_respool(void *o, int side, int op)
{
    int k = op % 2;

    released = 0;
    res_side = side;
    if (op < 2 && !used[side][k]) {
        res[side][k].release = res_release;
        bfdev_respool_insert(o, &res[side][k]);
        used[side][k] = 1;
    } else if (op >= 2 && op < 4 && used[side][k]) {
        bfdev_respool_remove(o, &res[side][k]);
        used[side][k] = 0;
    } else if (op == 4)
        bfdev_respool_release_all(o, NULL);
    return mc_mix(released, bfdev_respool_check_empty(o));
}
static void s_respool(void)
{
    FORMS(bfdev_respool_t, BFDEV_RESPOOL_STATIC(&s), BFDEV_RESPOOL_INIT(&i), BFDEV_DEFINE_RESPOOL(d),
          bfdev_respool_init(&f), g_respool);
    run2(obj, &f, op_respool, 5, 4);
}

#define ROW(name, fn, q, t) { name, fn, { q, t }, 0, 2 }
const mc_scenario_t mc_scenarios[] = {
    ROW("action", s_action, 5, 8),
    ROW("allocator", s_alloc, 4, 6),
    ROW("allocator-ops", s_allocops, 4, 6),
    ROW("allocation-pool", s_allocpool, 6, 8),
    ROW("array", s_array, 6, 7),
    ROW("btree", s_btree, 5, 6),
    ROW("circle", s_circle, 10, 14),
    ROW("fifo", s_fifo, 7, 9),
    ROW("fifo-dynamic", s_dyn_fifo, 7, 9),
    ROW("ringbuf", s_ringbuf, 7, 9),
    ROW("ringbuf-dynamic", s_dyn_ringbuf, 7, 9),
    ROW("state-machine", s_fsm, 6, 8),
    ROW("hash-map", s_hashmap, 6, 7),
    ROW("hash-table", s_hashtbl, 5, 7),
    ROW("heap", s_heap, 6, 8),
    ROW("hlist", s_hlist, 6, 8),
    ROW("list", s_list, 6, 8),
    ROW("slist", s_slist, 6, 8),
    ROW("ilist", s_ilist, 6, 8),
    ROW("log", s_log, 5, 7),
    ROW("matrix", s_matrix, 6, 8),
    ROW("number", s_mpi, 5, 7),
    ROW("notifier", s_notifier, 6, 8),
    ROW("prandom", s_prandom, 6, 9),
    ROW("radix", s_radix, 4, 6),
    ROW("ratelimit", s_ratelimit, 6, 8),
    ROW("tokenbucket", s_tokenbucket, 6, 7),
    ROW("rbtree", s_rb, 6, 8),
    ROW("rbtree-cached", s_rbc, 6, 8),
    ROW("refcount", s_refcnt, 7, 10),
    ROW("respool", s_respool, 6, 7),
    { NULL }
};
