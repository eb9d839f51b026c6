#define _GNU_SOURCE
#include "mc.h"
#include <setjmp.h>
#include <stdarg.h>
#include <unistd.h>
#include <errno.h>
#include <signal.h>
#include <time.h>
#include <fcntl.h>
#include <sys/mman.h>
#include <sys/wait.h>
#include <sys/time.h>
#include <sys/resource.h>
#include <pthread.h>

#if defined(__SANITIZE_ADDRESS__)
# define MC_ASAN 1
#elif defined(__has_feature)
# if __has_feature(address_sanitizer)
#  define MC_ASAN 1
# endif
#endif

#ifdef MC_ASAN
# include <sanitizer/asan_interface.h>
const char *__asan_default_options(void);
const char *__asan_default_options(void)
{
    return "detect_leaks=0:exitcode=99:allocator_may_return_null=1:"
           "quarantine_size_mb=2:thread_local_quarantine_size_kb=64:"
           "detect_stack_use_after_return=0:"
           "handle_abort=0:malloc_context_size=3:max_free_fill_size=4096:"
           "max_malloc_fill_size=0:color=never";
}
const char *__ubsan_default_options(void);
const char *__ubsan_default_options(void)
{
    return "print_stacktrace=0:color=never";
}
#else
# define ASAN_POISON_MEMORY_REGION(p, n) ((void)(p), (void)(n))
# define ASAN_UNPOISON_MEMORY_REGION(p, n) ((void)(p), (void)(n))
#endif

#define MAX_CHOICES 65536
#define MAX_WORKERS 64
#define MAX_SCENARIOS 128
#define MAX_SAMPLES 3
#define CLAIM_BITS (1u << 24)

int mc_bound, mc_arg, mc_thorough, mc_tracing;
int mc_dev_budget;
int mc_fault_budget, mc_faults;
long mc_live;
size_t mc_live_bytes;
static bool accept_carried;
#ifndef MC_PATIENCE
# define MC_PATIENCE 30     /* seconds without a step that count as a hang */
#endif
#define MC_STR_(x) #x
#define MC_STR(x) MC_STR_(x)

long mc_alloc_limit;

typedef struct {
    uint64_t states, transitions, executions, pruned, cases;
    uint64_t maxdepth;
} stats_t;

typedef struct {
    volatile uint64_t progress;
    volatile int busy;
    volatile int failed;
    volatile int done;
    char msg[1024];
    uint32_t nchoices;
    uint16_t choices[MAX_CHOICES];
    stats_t stats;
    char known[8][128];
    int nknown;
} slot_t;

typedef struct {
    slot_t slots[MAX_WORKERS];
    volatile int stop;
    volatile int capped;
    volatile int tablefull;
    volatile uint64_t totals;
    volatile unsigned char claimed[CLAIM_BITS / 8];
    /* breadth first search */
    pthread_barrier_t barrier;
    volatile uint64_t taken, level_end, nentries, arena_used;
    volatile int level, cut, closed, arenafull;
} shared_t;

typedef struct {
    uint64_t off;
    uint32_t n;
} entry_t;
static entry_t *entries;
static uint16_t *arena;
#define MAX_ENTRIES ((size_t)1 << 26)
#define ARENA_SIZE ((size_t)1 << 32)     /* choices, lazily committed */

static shared_t *sh;
static slot_t *slot;
static uint64_t *table;     /* hash */
static uint8_t *tdepth;
static size_t tsize;
static uint64_t tmask;

/* execution state */
static uint16_t *choices;       /* == slot->choices */
static uint16_t *limits;
static unsigned pos, replen, nlimits;
static unsigned split_depth;
static unsigned split_count;
static bool owned;              /* past the split point, subtree is ours */
static bool replaying;
static bool bfs, use_graph;
static unsigned skip_states, state_calls;
static uint64_t scen_seed;
static jmp_buf abandon;
static FILE *tracef;
static unsigned trace_lines;
static int nworkers = 8;
static uint64_t new_transitions;

__attribute__((weak)) void mc_harness_init(void) { }

/* ---------------------------------------------------------------- memory */

typedef struct block {
    struct block *next, *prev;
    size_t size;
    uint64_t magic;
    int user;               /* 1: allocated by the library through mc_alloc */
    struct block *chain;    /* the next one of the same bucket */
    char pad[16];
} block_t;
_Static_assert(sizeof(block_t) == 64, "header size");
#define MAGIC 0x6d63626c6f636b21ULL
static block_t blocks = { &blocks, &blocks, 0, 0, 0, NULL, {0} };
static block_t *buckets[1 << 16];

static block_t **
bucket(const void *ptr)
{
    return &buckets[((uintptr_t)ptr * 0x9e3779b97f4a7c15ULL) >> 48];
}

static void *
block_new(size_t size, int user, int fill)
{
    block_t *b = malloc(sizeof(*b) + size);

    if (!b) {
        fprintf(stderr, "mc: out of memory (%zu)\n", size);
        _exit(4);
    }
    b->next = blocks.next;
    b->prev = &blocks;
    if (b->next != &blocks)
        ASAN_UNPOISON_MEMORY_REGION(b->next, sizeof(*b));
    blocks.next->prev = b;
    if (b->next != &blocks)
        ASAN_POISON_MEMORY_REGION(b->next, sizeof(*b));
    blocks.next = b;
    b->size = size;
    b->magic = MAGIC;
    b->user = user;
    memset(b + 1, fill, size);
    b->chain = *bucket(b + 1);
    *bucket(b + 1) = b;
    if (user) {
        mc_live++;
        mc_live_bytes += size;
    }
    ASAN_POISON_MEMORY_REGION(b, sizeof(*b));
    return b + 1;
}

static __attribute__((no_sanitize("address"))) block_t *
block_find(const void *ptr)
{
    block_t *b;

    for (b = *bucket(ptr); b && (void *)(b + 1) != ptr; b = b->chain);
    return b;
}

static __attribute__((no_sanitize("address"))) void
block_unchain(block_t *b)
{
    block_t **link;

    for (link = bucket(b + 1); *link != b; link = &(*link)->chain);
    *link = b->chain;
}

static void
block_del(block_t *b)
{
    block_t *n, *p;

    block_unchain(b);
    ASAN_UNPOISON_MEMORY_REGION(b, sizeof(*b));
    n = b->next;
    p = b->prev;
    if (n != &blocks)
        ASAN_UNPOISON_MEMORY_REGION(n, sizeof(*n));
    n->prev = p;
    if (n != &blocks)
        ASAN_POISON_MEMORY_REGION(n, sizeof(*n));
    if (p != &blocks)
        ASAN_UNPOISON_MEMORY_REGION(p, sizeof(*p));
    p->next = n;
    if (p != &blocks)
        ASAN_POISON_MEMORY_REGION(p, sizeof(*p));
    if (b->user) {
        mc_live--;
        mc_live_bytes -= b->size;
    }
    b->magic = 0;
    memset(b + 1, 0xdd, b->size);
    free(b);
}

static void
blocks_reset(void)
{
    while (blocks.next != &blocks)
        block_del(blocks.next);
    mc_live = 0;
    mc_live_bytes = 0;
}

void *mc_malloc(size_t size) { return block_new(size, 0, 0xa5); }
void *mc_zalloc(size_t size) { return block_new(size, 0, 0); }
void *mc_buffer(size_t size) { return block_new(size, 0, 0xa5); }

void
mc_free(void *ptr)
{
    block_t *b;

    if (!ptr)
        return;
    b = block_find(ptr);
    mc_assert(b, "free of a pointer that is not an allocated block");
    block_del(b);
}

size_t
mc_block_size(const void *ptr)
{
    block_t *b = block_find(ptr);
    size_t size;

    mc_assert(b, "not an allocated block");
    ASAN_UNPOISON_MEMORY_REGION(b, sizeof(*b));
    size = b->size;
    ASAN_POISON_MEMORY_REGION(b, sizeof(*b));
    return size;
}

/*
 * Hash of everything reachable from an object: pointers into tracked blocks
 * (or the object itself) count by the order in which the traversal meets the
 * block, so that the result does not depend on addresses.
 */
typedef struct { uintptr_t start; size_t size; int num; } region_t;

static int
region_cmp(const void *a, const void *b)
{
    const region_t *x = a, *y = b;
    return x->start < y->start ? -1 : x->start > y->start;
}

__attribute__((no_sanitize("address"))) uint64_t
mc_graph(const void *root, size_t size)
{
    static region_t *regs;
    static int *queue, cap;
    static uintptr_t brk0;
    int n = 0, i, head = 0, tail = 0;
    uint64_t h = 0x6a9;
    block_t *b;

    if (!use_graph || mc_verified())
        return 0;
    if (!brk0)
        brk0 = (uintptr_t)sbrk(0) - (64 << 20);
    for (b = blocks.next; b != &blocks; b = b->next)
        n++;
    if (n + 1 > cap) {
        cap = (n + 1) * 2;
        free(regs);
        free(queue);
        regs = malloc(sizeof(*regs) * cap);
        queue = malloc(sizeof(*queue) * cap);
    }
    n = 0;
    for (b = blocks.next; b != &blocks; b = b->next)
        regs[n++] = (region_t) { (uintptr_t)(b + 1), b->size, -1 };
    qsort(regs, n, sizeof(*regs), region_cmp);
    /* the root first; it may lie in a block or on the stack */
    for (head = 0;;) {
        const uintptr_t *word;
        size_t words, k;
        uintptr_t start;

        if (!head) {
            start = (uintptr_t)root;
            words = size / sizeof(*word);
        } else {
            if (head > tail)
                break;
            start = regs[queue[head - 1]].start;
            words = regs[queue[head - 1]].size / sizeof(*word);
            if (regs[queue[head - 1]].size % sizeof(*word))
                h = mc_mix_bytes(h, (void *)(start + words * sizeof(*word)), regs[queue[head - 1]].size % sizeof(*word));
        }
        head++;
        word = (const uintptr_t *)start;
        h = mc_mix(h, words);
        for (k = 0; k < words; ++k) {
            uintptr_t v = word[k];
            int lo = 0, hi = n - 1, hit = -1;

            if (v < 65536 || v >> 47) {
                h = mc_mix(h, v);
                continue;
            }
            if (v - (uintptr_t)root <= size) {
                h = mc_mix(h, 0x100000000 + v - (uintptr_t)root);
                continue;
            }
            while (lo <= hi) {
                int mid = (lo + hi) / 2;
                if (v < regs[mid].start)
                    hi = mid - 1;
                else if (v > regs[mid].start + regs[mid].size)
                    lo = mid + 1;
                else {
                    hit = mid;
                    break;
                }
            }
            if (hit < 0) {
                /* a stale heap address says nothing */
                if ((v >= 0x600000000000 && v < 0x640000000000) ||
                    (v >= brk0 && v < (uintptr_t)sbrk(0)))
                    v = 1;
                h = mc_mix(h, v);
                continue;
            }
            if (regs[hit].num < 0) {
                regs[hit].num = tail;
                queue[tail++] = hit;
            }
            h = mc_mix(h, ((uint64_t)regs[hit].num + 2) * 0x100000000 + (v - regs[hit].start));
        }
    }
    return h;
}

bool mc_is_block(const void *ptr) { return !!block_find(ptr); }

static bool
fault(size_t size)
{
    if (mc_alloc_limit && (size > (size_t)mc_alloc_limit ||
        mc_live_bytes + size > (size_t)mc_alloc_limit)) {
        mc_faults++;
        return true;
    }
    if (size > (1UL << 30))
        mc_fail("the library asks for a block of %zu bytes", size);
    if (mc_fault_budget > 0 && mc_choose(2)) {
        mc_fault_budget--;
        mc_faults++;
        mc_trace("    ! allocation of %zu bytes fails", size);
        return true;
    }
    return false;
}

static void *
op_alloc(size_t size, void *pdata)
{
    return fault(size) ? NULL : block_new(size, 1, 0xa5);
}

static void *
op_zalloc(size_t size, void *pdata)
{
    return fault(size) ? NULL : block_new(size, 1, 0);
}

static void
op_free(void *ptr, void *pdata)
{
    block_t *b;
    int user;

    if (!ptr)
        return;
    b = block_find(ptr);
    mc_assert(b, "the library frees a pointer that is not a live block of its allocator");
    ASAN_UNPOISON_MEMORY_REGION(b, sizeof(*b));
    user = b->user;
    mc_assert(user, "the library frees memory it does not own");
    block_del(b);
}

static void *
op_realloc(void *ptr, size_t size, void *pdata)
{
    block_t *b;
    size_t old;
    void *n;

    b = block_find(ptr);
    mc_assert(b, "the library reallocates a pointer that is not a live block of its allocator");
    ASAN_UNPOISON_MEMORY_REGION(b, sizeof(*b));
    old = b->size;
    mc_assert(b->user, "the library reallocates memory it does not own");
    ASAN_POISON_MEMORY_REGION(b, sizeof(*b));
    if (fault(size))
        return NULL;
    /* always move: any stale pointer into the old block is caught */
    n = block_new(size, 1, 0xa5);
    memcpy(n, ptr, old < size ? old : size);
    block_del(b);
    return n;
}

static const bfdev_alloc_ops_t mc_alloc_ops = {
    .alloc = op_alloc,
    .zalloc = op_zalloc,
    .realloc = op_realloc,
    .free = op_free,
};

const bfdev_alloc_t mc_alloc = {
    .ops = &mc_alloc_ops,
    .pdata = NULL,
};

/* --------------------------------------------------------------- choices */

static bool
claim(unsigned id)
{
    unsigned char bit;

    if (id >= CLAIM_BITS) {
        /* deterministic fallback */
        return id % nworkers == (unsigned)(slot - sh->slots);
    }
    bit = 1u << (id & 7);
    return !(__atomic_fetch_or(&sh->claimed[id >> 3], bit, __ATOMIC_RELAXED) & bit);
}

static void
own(void)
{
    if (owned || replaying)
        return;
    if (!claim(split_count++))
        longjmp(abandon, 2);
    owned = true;
}

/* the scenario is deterministic, so the code under test is not */
static void
diverged(const char *fmt, ...)
{
    char buf[128];
    va_list ap;

    va_start(ap, fmt);
    vsnprintf(buf, sizeof(buf), fmt, ap);
    va_end(ap);
    if (mc_tracing) {
        fprintf(stderr, "mc: replay divergence: %s\n", buf);
        _exit(4);
    }
    mc_fail("the same history took another course when it was repeated: %s", buf);
}

unsigned
mc_choose(unsigned n)
{
    unsigned c;

    if (!n) {
        fprintf(stderr, "mc: empty choice\n");
        _exit(4);
    }
    if (n == 1)
        return 0;
    if (pos >= MAX_CHOICES - 1)
        mc_fail("the history does not come to an end (%u decisions)", pos);
    if (n > 65535) {
        fprintf(stderr, "mc: choice too wide\n");
        _exit(4);
    }

    slot->progress++;
    if (pos < replen) {
        c = choices[pos];
        if (c >= n || (pos < nlimits && limits[pos] && limits[pos] != n)) {
            diverged("decision %u has %u options, had %u", pos, n, pos < nlimits ? limits[pos] : c);
        }
    } else {
        if (!bfs && pos == split_depth)
            own();
        c = 0;
        choices[pos] = 0;
    }
    limits[pos] = n;
    pos++;
    if (pos > nlimits)
        nlimits = pos;
    slot->nchoices = pos;
    return c;
}

unsigned
mc_choose_dev(unsigned n)
{
    unsigned c;

    if (mc_dev_budget <= 0)
        return 0;
    c = mc_choose(n);
    if (c)
        mc_dev_budget--;
    return c;
}

void
mc_prune(void)
{
    longjmp(abandon, 1);
}

/* returns true when the state must be explored */
static bool
table_visit(uint64_t key, int remaining, bool *isnew)
{
    uint64_t cur, idx;
    unsigned probe;
    uint8_t old;

    *isnew = false;
    if (!key)
        key = 1;
    if (remaining < 0)
        remaining = 0;
    if (remaining > 254)
        remaining = 254;

    idx = key & tmask;
    for (probe = 0; probe < 512; ++probe, idx = (idx + 1) & tmask) {
        cur = __atomic_load_n(&table[idx], __ATOMIC_ACQUIRE);
        if (!cur) {
            if (__atomic_compare_exchange_n(&table[idx], &cur, key, false,
                                            __ATOMIC_ACQ_REL, __ATOMIC_ACQUIRE)) {
                __atomic_store_n(&tdepth[idx], remaining + 1, __ATOMIC_RELEASE);
                *isnew = true;
                return true;
            }
        }
        if (cur == key) {
            old = __atomic_load_n(&tdepth[idx], __ATOMIC_ACQUIRE);
            while (old < remaining + 1) {
                if (__atomic_compare_exchange_n(&tdepth[idx], &old, remaining + 1, false,
                                                __ATOMIC_ACQ_REL, __ATOMIC_ACQUIRE))
                    return true;
            }
            return false;
        }
    }
    sh->tablefull = 1;
    return true;
}

void
mc_state(uint64_t hash, int remaining)
{
    bool isnew;

    if (replaying)
        return;
    if (bfs) {
        if (state_calls++ < skip_states)
            return;
        hash = mc_mix(hash, scen_seed);
        if (table_visit(mc_mix(hash, 0x5151), 0, &isnew) && isnew) {
            uint64_t off, e;

            slot->stats.states++;
            off = __atomic_fetch_add(&sh->arena_used, pos, __ATOMIC_RELAXED);
            e = __atomic_fetch_add(&sh->nentries, 1, __ATOMIC_RELAXED);
            if (e >= MAX_ENTRIES || off + pos > ARENA_SIZE / 2) {
                sh->arenafull = 1;
                longjmp(abandon, 1);
            }
            memcpy(arena + off, choices, pos * sizeof(*choices));
            entries[e].off = off;
            entries[e].n = pos;
            if (remaining <= 0)
                sh->cut = 1;
        }
        longjmp(abandon, 1);
    }
    if (pos < replen)
        return;
    hash = mc_mix(hash, scen_seed);
    if (pos < split_depth) {
        table_visit(hash, 0, &isnew);   /* count only */
        if (isnew)
            slot->stats.states++;
        return;
    }
    own();
    if (!table_visit(mc_mix(hash, 0x5151), remaining, &isnew))
        longjmp(abandon, 1);
    if (isnew)
        slot->stats.states++;
}

bool
mc_verified(void)
{
    return bfs && !replaying && state_calls < skip_states;
}

bool
mc_next(uint64_t hash, int *depth)
{
    mc_state(hash, *depth);
    if (*depth <= 0)
        return false;
    (*depth)--;
    return !mc_choose(2);
}

void
mc_seen(uint64_t hash)
{
    bool isnew;

    if (replaying || pos < replen)
        return;
    table_visit(mc_mix(mc_mix(hash, scen_seed), 0x77), 0, &isnew);
    if (isnew)
        slot->stats.states++;
}

void
mc_case(uint64_t hash)
{
    bool isnew;

    if (replaying)
        return;
    table_visit(mc_mix(mc_mix(hash, scen_seed), 0xca5e), 0, &isnew);
    if (isnew)
        slot->stats.cases++;
}

void
mc_step_count(void)
{
    slot->progress++;
    if (pos >= replen)
        new_transitions++;
}

void
mc_trace_line(const char *fmt, ...)
{
    va_list ap;

    if (!tracef || ++trace_lines > 4000)
        return;
    va_start(ap, fmt);
    vfprintf(tracef, fmt, ap);
    va_end(ap);
    fputc('\n', tracef);
    fflush(tracef);
}

uint64_t
mc_mix_bytes(uint64_t h, const void *data, size_t len)
{
    const unsigned char *p = data;
    uint64_t v;

    h = mc_mix(h, len);
    while (len >= 8) {
        memcpy(&v, p, 8);
        h = mc_mix(h, v);
        p += 8;
        len -= 8;
    }
    if (len) {
        v = 0;
        memcpy(&v, p, len);
        h = mc_mix(h, v);
    }
    return h;
}

void
mc_fail(const char *fmt, ...)
{
    va_list ap;

    va_start(ap, fmt);
    vsnprintf(slot->msg, sizeof(slot->msg), fmt, ap);
    va_end(ap);
    slot->failed = 1;
    if (mc_tracing) {
        mc_trace_line("FAILED: %s", slot->msg);
    }
    _exit(3);
}

void
mc_known(const char *key)
{
    int i;

    for (i = 0; i < slot->nknown; ++i)
        if (!strcmp(slot->known[i], key))
            return;
    if (slot->nknown < 8) {
        strncpy(slot->known[slot->nknown], key, 127);
        slot->nknown++;
    }
}

/* ------------------------------------------------------------ exploration */

static void
exec_reset(void)
{
    pos = 0;
    mc_dev_budget = 0;
    mc_fault_budget = 0;
    mc_faults = 0;
    mc_alloc_limit = 0;
    new_transitions = 0;
    /*
     * A prefix of split_depth choices is claimed when the worker first goes
     * past it; while backtracking deeper than that the prefix is unchanged and
     * remains ours.
     */
    owned = replen > split_depth;
    state_calls = 0;
}

static const mc_scenario_t *
scen_setup(unsigned idx)
{
    const mc_scenario_t *sc = &mc_scenarios[idx];

    mc_bound = sc->bound[mc_thorough];
    mc_arg = sc->arg;
    split_depth = sc->split;
    scen_seed = mc_mix(0x1234, idx + 1);
    bfs = !sc->split;
    use_graph = sc->graph;
    return sc;
}

static double
now(void)
{
    struct timespec ts;

    clock_gettime(CLOCK_MONOTONIC, &ts);
    return ts.tv_sec + ts.tv_nsec / 1e9;
}

typedef struct {
    uint32_t n;
    uint16_t c[256];
} sample_t;
static sample_t *samples;   /* [MAX_SCENARIOS][MAX_SAMPLES], shared */

static void
sample_take(unsigned idx)
{
    sample_t *s = &samples[idx * MAX_SAMPLES];

    /* keep the first and the longest complete execution seen by worker 0 */
    if (slot != sh->slots || pos >= 256)
        return;
    if (s->n && s->n < pos + 1)
        s++;
    if (s->n < pos + 1) {
        memcpy(s->c, choices, pos * sizeof(*choices));
        s->n = pos + 1;
    }
}

static void
explore(unsigned idx)
{
    const mc_scenario_t *sc = scen_setup(idx);
    unsigned i;
    int how;

    choices = slot->choices;
    replen = 0;
    nlimits = 0;
    split_count = 0;
    replaying = false;

    for (;;) {
        exec_reset();
        slot->busy = 1;
        how = setjmp(abandon);
        if (!how) {
            sc->fn();
            if (pos < replen) {
                diverged("it ended at decision %u of %u", pos, replen);
            }
            if (!owned) {
                /* shorter than the split depth, or ours */
                if (pos <= split_depth && !claim(split_count++))
                    how = 2;
                owned = true;
            }
        }
        slot->busy = 0;
        blocks_reset();

        if (how != 2) {
            slot->stats.transitions += new_transitions;
            if (how == 1)
                slot->stats.pruned++;
            else {
                slot->stats.executions++;
                if (pos > slot->stats.maxdepth)
                    slot->stats.maxdepth = pos;
                sample_take(idx);
            }
        }

        if (sh->stop)
            return;

        /* backtrack */
        for (i = pos; i > 0; --i)
            if (choices[i - 1] + 1u < limits[i - 1])
                break;
        if (!i)
            return;
        choices[i - 1]++;
        replen = i;
        nlimits = i;
        slot->progress++;
    }
}

static void
explore_bfs(unsigned idx)
{
    const mc_scenario_t *sc = scen_setup(idx);
    unsigned i, base;
    uint64_t e;
    int how;

    choices = slot->choices;
    replaying = false;

    for (;;) {
        while ((e = __atomic_fetch_add(&sh->taken, 1, __ATOMIC_RELAXED)) < sh->level_end) {
            if (sh->stop)
                break;
            base = entries[e].n;
            memcpy(choices, arena + entries[e].off, base * sizeof(*choices));
            skip_states = sh->level;
            replen = base;
            nlimits = 0;
            slot->busy = 1;
            for (;;) {
                exec_reset();
                slot->progress++;
                how = setjmp(abandon);
                if (!how) {
                    sc->fn();
                    if (pos < replen) {
                        diverged("it ended at decision %u of %u", pos, replen);
                    }
                }
                blocks_reset();
                slot->stats.transitions += new_transitions;
                if (how)
                    slot->stats.pruned++;
                else {
                    slot->stats.executions++;
                    sample_take(idx);
                }
                if (pos > slot->stats.maxdepth)
                    slot->stats.maxdepth = pos;
                if (sh->stop)
                    break;
                for (i = pos; i > base; --i)
                    if (choices[i - 1] + 1u < limits[i - 1])
                        break;
                if (i <= base)
                    break;
                choices[i - 1]++;
                replen = i;
                nlimits = i;
            }
            slot->busy = 0;
        }
        slot->busy = 0;
        pthread_barrier_wait(&sh->barrier);
        if (slot == sh->slots) {
            uint64_t old = sh->level_end;

            sh->level_end = sh->nentries > MAX_ENTRIES ? MAX_ENTRIES : sh->nentries;
            sh->taken = old;
            sh->level++;
            if (sh->stop || sh->arenafull || old == sh->level_end)
                sh->closed = 1;
        }
        pthread_barrier_wait(&sh->barrier);
        if (sh->closed)
            return;
    }
}

static int
worker(int w, unsigned idx)
{
    slot = &sh->slots[w];
    if (mc_scenarios[idx].split)
        explore(idx);
    else
        explore_bfs(idx);
    slot->done = 1;
    return 0;
}

/* run one recorded execution with a trace; never returns */
static void
run_one(unsigned idx, const uint16_t *c, unsigned n, FILE *out, int limit_s)
{
    static slot_t *local;
    const mc_scenario_t *sc;

    if (!local) {
        local = mmap(NULL, sizeof(*local), PROT_READ | PROT_WRITE,
                     MAP_PRIVATE | MAP_ANONYMOUS, -1, 0);
    }
    slot = local;
    memset(local, 0, sizeof(*local));
    sc = scen_setup(idx);
    choices = slot->choices;
    memcpy(choices, c, n * sizeof(*c));
    replaying = true;
    mc_tracing = 1;
    tracef = out;
    exec_reset();
    replen = n;
    nlimits = 0;
    if (limit_s) {
        struct itimerval it = { { 0, 0 }, { limit_s, 0 } };
        signal(SIGVTALRM, SIG_DFL);
        setitimer(ITIMER_VIRTUAL, &it, NULL);
    }
    if (!setjmp(abandon))
        sc->fn();
    blocks_reset();
    fflush(out);
    _exit(0);
}

static int
find_scenario(const char *name)
{
    int i;

    for (i = 0; mc_scenarios[i].name; ++i)
        if (!strcmp(mc_scenarios[i].name, name))
            return i;
    return -1;
}

static void
json_str(FILE *f, const char *s)
{
    fputc('"', f);
    for (; *s; ++s) {
        unsigned char ch = *s;
        if (ch == '"' || ch == '\\')
            fprintf(f, "\\%c", ch);
        else if (ch == '\n')
            fputs("\\n", f);
        else if (ch < 32 || ch > 126)
            fprintf(f, "\\u%04x", ch);
        else
            fputc(ch, f);
    }
    fputc('"', f);
}

static int
replay_file(const char *path)
{
    FILE *f = fopen(path, "r");
    static uint16_t c[MAX_CHOICES];
    static char line[1 << 20];
    char name[256] = "";
    unsigned n = 0;
    int idx, tier = 0;

    if (!f) {
        perror(path);
        return 4;
    }
    while (fgets(line, sizeof(line), f)) {
        if (!strncmp(line, "scenario: ", 10))
            sscanf(line + 10, "%255[^\n]", name);
        else if (!strncmp(line, "thorough: ", 10))
            tier = atoi(line + 10);
        else if (!strncmp(line, "choices:", 8)) {
            char *p = line + 8, *e;
            for (;;) {
                unsigned long v = strtoul(p, &e, 10);
                if (e == p)
                    break;
                c[n++] = v;
                p = e;
            }
        }
    }
    fclose(f);
    mc_thorough = tier;
    idx = find_scenario(name);
    if (idx < 0) {
        fprintf(stderr, "unknown scenario %s\n", name);
        return 4;
    }
    run_one(idx, c, n, stdout, 40);
    return 0;
}

static void
quiet(void)
{
    int fd = open("/dev/null", O_WRONLY);

    dup2(fd, 1);
    dup2(fd, 2);
    close(fd);
}

int
main(int argc, char **argv)
{
    const char *outpath = NULL, *replaypath = NULL, *vpath = "violation.txt";
    const char *only = NULL;
    double budget = 0, start = now(), t0;
    FILE *out;
    unsigned nscen, idx;
    int i, w, violations = 0;
    bool exhaustive = true;
    char *self = argv[0];

    tsize = (size_t)1 << 25;
    for (i = 1; i < argc; ++i) {
        if (!strcmp(argv[i], "--thorough"))
            mc_thorough = 1;
        else if (!strcmp(argv[i], "--json") && i + 1 < argc)
            outpath = argv[++i];
        else if (!strcmp(argv[i], "--replay") && i + 1 < argc)
            replaypath = argv[++i];
        else if (!strcmp(argv[i], "--violation") && i + 1 < argc)
            vpath = argv[++i];
        else if (!strcmp(argv[i], "--only") && i + 1 < argc)
            only = argv[++i];
        else if (!strcmp(argv[i], "--accept-carried"))
            accept_carried = true;
        else if (!strcmp(argv[i], "--budget") && i + 1 < argc)
            budget = atof(argv[++i]);
        else if (!strcmp(argv[i], "--jobs") && i + 1 < argc)
            nworkers = atoi(argv[++i]);
        else if (!strcmp(argv[i], "--table") && i + 1 < argc)
            tsize = (size_t)1 << atoi(argv[++i]);
        else {
            fprintf(stderr, "usage\n");
            return 4;
        }
    }
    setvbuf(stdout, NULL, _IOLBF, 0);
    limits = mmap(NULL, MAX_CHOICES * sizeof(*limits), PROT_READ | PROT_WRITE,
                  MAP_PRIVATE | MAP_ANONYMOUS, -1, 0);
    mc_harness_init();
    if (replaypath) {
        if (!sh)
            sh = mmap(NULL, sizeof(*sh), PROT_READ | PROT_WRITE,
                      MAP_SHARED | MAP_ANONYMOUS, -1, 0);
        return replay_file(replaypath);
    }

    if (nworkers > MAX_WORKERS)
        nworkers = MAX_WORKERS;
    tmask = tsize - 1;
    sh = mmap(NULL, sizeof(*sh), PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0);
    table = mmap(NULL, tsize * sizeof(*table), PROT_READ | PROT_WRITE,
                 MAP_SHARED | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
    tdepth = mmap(NULL, tsize, PROT_READ | PROT_WRITE,
                  MAP_SHARED | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
    samples = mmap(NULL, sizeof(sample_t) * MAX_SCENARIOS * MAX_SAMPLES,
                   PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0);
    entries = mmap(NULL, sizeof(entry_t) * MAX_ENTRIES, PROT_READ | PROT_WRITE,
                   MAP_SHARED | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
    arena = mmap(NULL, ARENA_SIZE, PROT_READ | PROT_WRITE,
                 MAP_SHARED | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
    if (entries == MAP_FAILED || arena == MAP_FAILED || sh == MAP_FAILED || table == MAP_FAILED || tdepth == MAP_FAILED) {
        perror("mmap");
        return 4;
    }

    for (nscen = 0; mc_scenarios[nscen].name; ++nscen)
        ;

    out = outpath ? fopen(outpath, "w") : stdout;
    fprintf(out, "{\"scenarios\":[");

    bool first = true;
    char knowns[16][128];
    int nknowns = 0;

    for (idx = 0; idx < nscen && !violations; ++idx) {
        pid_t pids[MAX_WORKERS];
        uint64_t lastp[MAX_WORKERS];
        double lastt[MAX_WORKERS];
        int alive = 0, bad = -1, badstatus = 0;
        bool hang = false;
        stats_t sum;
        double used;

        if (only && strcmp(only, mc_scenarios[idx].name))
            continue;
        if (mc_scenarios[idx].bound[mc_thorough] < 0)
            continue;       /* not part of this tier */
        t0 = now();
        memset(sh, 0, sizeof(*sh));
        {
            pthread_barrierattr_t attr;
            pthread_barrierattr_init(&attr);
            pthread_barrierattr_setpshared(&attr, PTHREAD_PROCESS_SHARED);
            pthread_barrier_init(&sh->barrier, &attr, nworkers);
            entries[0].off = 0;
            entries[0].n = 0;
            sh->nentries = sh->level_end = 1;
        }
        fflush(NULL);
        for (w = 0; w < nworkers; ++w) {
            pids[w] = fork();
            if (!pids[w]) {
                quiet();
                _exit(worker(w, idx));
            }
            if (pids[w] < 0) {
                perror("fork");
                return 4;
            }
            alive++;
            lastp[w] = 0;
            lastt[w] = now();
        }

        while (alive) {
            int status;
            pid_t p = waitpid(-1, &status, WNOHANG);

            if (p > 0) {
                for (w = 0; w < nworkers; ++w)
                    if (pids[w] == p)
                        break;
                if (w == nworkers)
                    continue;
                pids[w] = 0;
                alive--;
                if (!(WIFEXITED(status) && !WEXITSTATUS(status))) {
                    if (bad < 0) {
                        bad = w;
                        badstatus = status;
                    } else if (sh->slots[w].nchoices < sh->slots[bad].nchoices) {
                        bad = w;
                        badstatus = status;
                    }
                    sh->stop = 1;
                }
                continue;
            }
            usleep(2000);
            if (!sh->stop && budget > 0 && now() - start > budget) {
                sh->stop = 1;
                sh->capped = 1;
            }
            for (w = 0; w < nworkers; ++w) {
                if (!pids[w])
                    continue;
                if (sh->slots[w].progress != lastp[w]) {
                    lastp[w] = sh->slots[w].progress;
                    lastt[w] = now();
                } else if (!sh->slots[w].busy) {
                    lastt[w] = now();
                } else if (now() - lastt[w] > MC_PATIENCE && bad < 0) {
                    hang = true;
                    bad = w;
                    sh->stop = 1;
                }
            }
            if (bad >= 0 || hang) {
                /* stop everybody */
                usleep(20000);
                for (w = 0; w < nworkers; ++w)
                    if (pids[w])
                        kill(pids[w], SIGKILL);
                for (w = 0; w < nworkers; ++w)
                    if (pids[w]) {
                        int st;
                        waitpid(pids[w], &st, 0);
                        if (!hang && !WIFSIGNALED(st) && WEXITSTATUS(st) == 3 &&
                            sh->slots[w].nchoices < sh->slots[bad].nchoices) {
                            bad = w;
                            badstatus = st;
                        }
                        pids[w] = 0;
                        alive--;
                    }
            }
        }

        memset(&sum, 0, sizeof(sum));
        for (w = 0; w < nworkers; ++w) {
            stats_t *s = &sh->slots[w].stats;
            sum.states += s->states;
            sum.transitions += s->transitions;
            sum.executions += s->executions;
            sum.pruned += s->pruned;
            sum.cases += s->cases;
            if (s->maxdepth > sum.maxdepth)
                sum.maxdepth = s->maxdepth;
            for (i = 0; i < sh->slots[w].nknown; ++i) {
                int k;
                for (k = 0; k < nknowns; ++k)
                    if (!strcmp(knowns[k], sh->slots[w].known[i]))
                        break;
                if (k == nknowns && nknowns < 16)
                    strcpy(knowns[nknowns++], sh->slots[w].known[i]);
            }
        }
        used = now() - t0;

        if (bad >= 0) {
            slot_t *s = &sh->slots[bad];
            FILE *v = fopen(vpath, "w");
            pid_t p;
            int status;
            char tracepath[4096];

            if (!hang && WIFEXITED(badstatus) && WEXITSTATUS(badstatus) == 4) {
                fprintf(stderr, "mc: internal error in scenario %s (worker %d, %u choices)\n",
                        mc_scenarios[idx].name, bad, s->nchoices);
            }
            if (!v) {
                perror(vpath);
                return 4;
            }
            fprintf(v, "scenario: %s\nthorough: %d\nbinary: %s\nverdict: %s\nmessage: %s\nchoices:",
                    mc_scenarios[idx].name, mc_thorough, self,
                    hang ? "no progress for " MC_STR(MC_PATIENCE) " s" :
                    WIFSIGNALED(badstatus) ? "killed by a signal" :
                    WEXITSTATUS(badstatus) == 3 ? "oracle" : "sanitizer/abort",
                    s->failed ? s->msg : "-");
            for (i = 0; i < (int)s->nchoices; ++i)
                fprintf(v, " %u", s->choices[i]);
            fprintf(v, "\n");
            fclose(v);

            /* confirm in a fresh process */
            snprintf(tracepath, sizeof(tracepath), "%s.trace", vpath);
            fflush(NULL);
            p = fork();
            if (!p) {
                int fd = open(tracepath, O_WRONLY | O_CREAT | O_TRUNC, 0644);
                dup2(fd, 1);
                dup2(fd, 2);
                execl("/proc/self/exe", self, "--replay", vpath, NULL);
                _exit(5);
            }
            waitpid(p, &status, 0);
            if (WIFEXITED(status) && (WEXITSTATUS(status) == 0 || WEXITSTATUS(status) >= 4) &&
                WEXITSTATUS(status) != 99) {
                fprintf(stderr, "mc: scenario %s: failure did not reproduce (status %x, replay %x): %s\n",
                        mc_scenarios[idx].name, badstatus, status, s->failed ? s->msg : "");
                if (!accept_carried || hang || (WIFEXITED(badstatus) && WEXITSTATUS(badstatus) == 4)) {
                    fprintf(out, "],\"error\":\"unreproducible\"}\n");
                    return hang || (WIFEXITED(badstatus) && WEXITSTATUS(badstatus) == 4) ? 4 : 6;
                }
                v = fopen(vpath, "a");
                if (v) {
                    fprintf(v, "note: fails only after other histories in the same process (something is carried over from one "
                            "object's life to the next), in two explorations out of two; repeat the whole scenario (--only) to see it\n");
                    fclose(v);
                }
            }
            violations++;
            {
                /* append the trace */
                FILE *t = fopen(tracepath, "r");
                v = fopen(vpath, "a");
                if (t && v) {
                    static char buf[4096];
                    size_t n, total = 0;
                    fprintf(v, "trace:\n");
                    while ((n = fread(buf, 1, sizeof(buf), t)) > 0 && total < (1 << 20)) {
                        fwrite(buf, 1, n, v);
                        total += n;
                    }
                }
                if (t)
                    fclose(t);
                if (v)
                    fclose(v);
                unlink(tracepath);
            }
            printf("FAIL scenario=%s %s\n", mc_scenarios[idx].name,
                   s->failed ? s->msg : "crash, sanitizer report or hang (see replay)");
        }

        if (!first)
            fputc(',', out);
        first = false;
        fprintf(out, "\n{\"name\":");
        json_str(out, mc_scenarios[idx].name);
        fprintf(out, ",\"bound\":%d,\"states\":%llu,\"transitions\":%llu,\"executions\":%llu,"
                "\"pruned\":%llu,\"cases\":%llu,\"max_choices\":%llu,\"levels\":%d,\"fixpoint\":%s,\"exhaustive\":%s,\"wall_s\":%.2f,\"samples\":[",
                mc_scenarios[idx].bound[mc_thorough],
                (unsigned long long)sum.states, (unsigned long long)sum.transitions,
                (unsigned long long)sum.executions, (unsigned long long)sum.pruned,
                (unsigned long long)sum.cases,
                (unsigned long long)sum.maxdepth, sh->level,
                !mc_scenarios[idx].split && !sh->cut && !sh->capped && !sh->arenafull && bad < 0 ? "true" : "false",
                (sh->capped || sh->tablefull || sh->arenafull || bad >= 0) ? "false" : "true", used);
        if (sh->capped || sh->tablefull || sh->arenafull)
            exhaustive = false;
        if (outpath)
            fprintf(stdout, "  %-28s bound=%-3d states=%llu transitions=%llu executions=%llu pruned=%llu cases=%llu %s%s%.1fs\n",
                    mc_scenarios[idx].name, mc_scenarios[idx].bound[mc_thorough],
                    (unsigned long long)sum.states, (unsigned long long)sum.transitions,
                    (unsigned long long)sum.executions, (unsigned long long)sum.pruned,
                    (unsigned long long)sum.cases,
                    sh->capped ? "CAPPED " : sh->tablefull || sh->arenafull ? "TABLEFULL " : "",
                    !mc_scenarios[idx].split && !sh->cut && bad < 0 ? "fixpoint " : "", used);

        /* sample traces */
        if (bad < 0) {
            int k;
            bool sfirst = true;
            for (k = 0; k < MAX_SAMPLES; ++k) {
                sample_t *s = &samples[idx * MAX_SAMPLES + k];
                FILE *t;
                pid_t p;
                char buf[1600];
                size_t n;

                if (!s->n || (k == 0 && samples[idx * MAX_SAMPLES + 1].n > s->n))
                    continue;
                t = tmpfile();
                if (!t)
                    continue;
                fflush(NULL);
                p = fork();
                if (!p) {
                    quiet();
                    run_one(idx, s->c, s->n - 1, t, 20);
                }
                waitpid(p, &i, 0);
                rewind(t);
                n = fread(buf, 1, sizeof(buf) - 1, t);
                buf[n] = '\0';
                fclose(t);
                if (n) {
                    fprintf(out, "%s", sfirst ? "" : ",");
                    json_str(out, buf);
                    sfirst = false;
                }
            }
        }
        fprintf(out, "]}");
        fflush(out);
    }

    fprintf(out, "],\n\"known\":[");
    for (i = 0; i < nknowns; ++i) {
        if (i)
            fputc(',', out);
        json_str(out, knowns[i]);
    }
    fprintf(out, "],\"violations\":%d,\"exhaustive\":%s,\"wall_s\":%.2f}\n",
            violations, exhaustive && !violations ? "true" : "false", now() - start);
    if (out != stdout)
        fclose(out);
    return violations ? 1 : 0;
}
