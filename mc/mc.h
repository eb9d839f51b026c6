/*
 * mc - a small explicit-choice model checker for the real bfdev code.
 *
 * A scenario is a deterministic C function that asks mc_choose(n) for every
 * nondeterministic decision (operation, argument, environment answer, fault,
 * thread to run).  The engine enumerates *all* choice sequences depth first by
 * re-executing the scenario from scratch, optionally pruning an execution when
 * it reaches an already explored state with at most the same remaining depth.
 */
#ifndef MC_H
#define MC_H

#include <stdbool.h>
#include <stdint.h>
#include <stddef.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <bfdev/config.h>
#include <bfdev/types.h>
#include <bfdev/errno.h>
#include <bfdev/allocator.h>

typedef struct mc_scenario {
    const char *name;
    void (*fn)(void);
    int bound[2];       /* [quick, thorough] depth (or other) bound, see mc_bound */
    int arg;            /* free parameter for the scenario */
    int split;          /* 0: breadth first over mc_next() states;
                         * > 0: stateless depth first, work split at that choice depth */
    int graph;          /* states differ whenever any byte of reachable memory does, see mc_graph() */
} mc_scenario_t;

/* provided by the harness */
extern const mc_scenario_t mc_scenarios[];
extern void mc_harness_init(void);      /* optional (weak) */

/* current configuration */
extern int mc_bound;        /* bound of the running scenario for this tier */
extern int mc_arg;
extern int mc_thorough;
extern int mc_tracing;      /* non-zero while a counterexample/sample is written */

/* nondeterminism */
unsigned mc_choose(unsigned n);
/* like mc_choose, but any choice != 0 is a deviation; budget mc_dev_budget */
extern int mc_dev_budget;
unsigned mc_choose_dev(unsigned n);
/* permanently abandon the current execution (it counts as pruned) */
void mc_prune(void) __attribute__((noreturn));
/*
 * Operation boundary.  Registers the state; an already visited state (with at
 * least the same remaining depth) is not explored again.  Returns false when
 * the scenario has to finish (clean up and run its final checks): that is
 * tried in every state, and forced when the depth is used up.
 */
bool mc_next(uint64_t hash, int *depth);
/*
 * True while the state about to be registered with mc_next() is one on the way
 * to the state being expanded: it was verified when it was first reached, so
 * side effect free checks (and its hash) can be left out.
 */
bool mc_verified(void);
/*
 * Hash of all memory reachable from an object, independent of addresses, in
 * scenarios that ask for it (0 in the others, and in verified states).
 */
uint64_t mc_graph(const void *root, size_t size);
void mc_state(uint64_t hash, int remaining);
/* count a distinct state without pruning */
void mc_seen(uint64_t hash);
/* count a distinct non trivial case/outcome (separate table) */
void mc_case(uint64_t hash);
/* record one transition of the real code, with a trace line */
void mc_step_count(void);
void mc_trace_line(const char *fmt, ...) __attribute__((format(printf, 1, 2)));
#define mc_step(fmt...) do {                    \
    mc_step_count();                            \
    if (__builtin_expect(mc_tracing, 0))        \
        mc_trace_line(fmt);                     \
} while (0)
#define mc_trace(fmt...) do {                   \
    if (__builtin_expect(mc_tracing, 0))        \
        mc_trace_line(fmt);                     \
} while (0)

/* verdicts */
void mc_fail(const char *fmt, ...) __attribute__((noreturn, format(printf, 1, 2)));
#define mc_assert(cond, fmt...) do {            \
    if (__builtin_expect(!(cond), 0))           \
        mc_fail(fmt);                           \
} while (0)
/* a listed, genuine, unrepaired defect was reproduced */
void mc_known(const char *key);

/* hashing */
static inline uint64_t
mc_mix(uint64_t h, uint64_t x)
{
    h = (h + 0x9e3779b97f4a7c15ULL) * 0xd6e8feb86659fd93ULL;
    h = (h ^ h >> 32) + x * 0x9e3779b97f4a7c15ULL;
    h ^= h >> 32;
    h *= 0xd6e8feb86659fd93ULL;
    h ^= h >> 29;
    h *= 0xbf58476d1ce4e5b9ULL;
    h ^= h >> 32;
    return h;
}
uint64_t mc_mix_bytes(uint64_t h, const void *data, size_t len);

/* tracked allocator with enumerable failures */
extern const bfdev_alloc_t mc_alloc;
extern int mc_fault_budget;     /* > 0: every allocation may fail (choice point) */
extern int mc_faults;           /* failures injected in this execution */
extern long mc_live;            /* live blocks */
extern size_t mc_live_bytes;
extern long mc_alloc_limit;     /* live bytes beyond which allocation just fails (0 = none) */
void *mc_malloc(size_t size);   /* harness memory: released when the execution ends */
void *mc_zalloc(size_t size);
void mc_free(void *block);
size_t mc_block_size(const void *block);
bool mc_is_block(const void *block);
#define mc_no_leaks(what) \
    mc_assert(mc_live == 0, "%s: %ld allocated block(s) (%zu bytes) leaked", what, mc_live, mc_live_bytes)

/* exact sized buffer whose end is followed by poisoned memory (ASan) */
void *mc_buffer(size_t size);

#define MC_ARRAY_SIZE(a) (sizeof(a) / sizeof((a)[0]))

#endif
