/*
 * The run time behind gcc -fsanitize=thread: instead of detecting races every
 * access to a registered region hands control to the scheduler, which lets the
 * model checker choose who moves next.  Executions are sequentially consistent.
 *
 * State caching: two points of two executions are the same state when the
 * shared regions, the monitor and every thread's local state agree; a thread's
 * local state is the hash of all accesses it made and the values it got since
 * its last sched_local().
 */
#include "mcsched.h"
#include <ucontext.h>

#define STACK (64 * 1024)
#define MAXREGION 16
#define MAXACCESS 20000

static struct region { uint8_t *ptr; size_t len, grain; } regions[MAXREGION];
static int nregions;

static struct thread {
    ucontext_t ctx;
    void (*fn)(int, void *);
    void *arg;
    bool done;
    uint64_t hist;
    /* the access it is about to make */
    const char *kind;
    void *addr;
} threads[SCHED_THREADS];
static uint8_t stacks[SCHED_THREADS][STACK] __attribute__((aligned(64)));
static int nthreads, self = -1, paused;
static unsigned long naccess;
static ucontext_t main_ctx;
void (*sched_observer)(void);

void sched_reset(void) { nregions = nthreads = paused = 0; self = -1; naccess = 0; sched_observer = NULL; }

void sched_shared(void *ptr, size_t len, size_t grain)
{
    regions[nregions++] = (struct region){ ptr, len, grain };
}

int sched_thread(void (*fn)(int, void *), void *arg)
{
    struct thread *t = &threads[nthreads];

    memset(t, 0, sizeof(*t));
    t->fn = fn;
    t->arg = arg;
    return nthreads++;
}

int sched_self(void) { return self; }
void sched_pause(void) { paused++; }
void sched_resume(void) { paused--; }

static void entry(int n)
{
    threads[n].fn(n, threads[n].arg);
    threads[n].done = true;
    threads[n].hist = 0;
    swapcontext(&threads[n].ctx, &main_ctx);
}

static struct region *shared(void *addr, size_t len)
{
    int i;

    for (i = 0; i < nregions; i++)
        if ((uint8_t *)addr < regions[i].ptr + regions[i].len && regions[i].ptr < (uint8_t *)addr + len)
            return &regions[i];
    return NULL;
}

static inline bool active(void *addr, size_t len)
{
    return self >= 0 && !paused && shared(addr, len);
}

/* about to access shared memory: let the scheduler decide who goes first */
static void point(const char *kind, void *addr)
{
    threads[self].kind = kind;
    threads[self].addr = addr;
    if (++naccess > MAXACCESS)
        mc_fail("no thread finishes: %d shared accesses in one execution", MAXACCESS);
    swapcontext(&threads[self].ctx, &main_ctx);
}

static void observed(uint64_t what, uint64_t value)
{
    threads[self].hist = mc_mix(mc_mix(threads[self].hist, what), value);
}

void sched_local(uint64_t hash) { threads[self].hist = mc_mix(0x10ca1, hash); }

static uint64_t value(void *addr, size_t len)
{
    uint64_t v = 0;

    memcpy(&v, addr, len > 8 ? 8 : len);
    return v;
}

static const char *where(void *addr)
{
    static char buff[32];
    int i;

    for (i = 0; i < nregions; i++)
        if ((uint8_t *)addr >= regions[i].ptr && (uint8_t *)addr < regions[i].ptr + regions[i].len) {
            snprintf(buff, sizeof(buff), "region%d+%ld", i, (long)((uint8_t *)addr - regions[i].ptr));
            return buff;
        }
    return "?";
}

void sched_run(uint64_t (*monitor)(void))
{
    uint64_t h;
    int i, n, last = -1, cand[SCHED_THREADS];

    for (i = 0; i < nthreads; i++) {
        getcontext(&threads[i].ctx);
        threads[i].ctx.uc_stack.ss_sp = stacks[i];
        threads[i].ctx.uc_stack.ss_size = STACK;
        threads[i].ctx.uc_link = NULL;
        makecontext(&threads[i].ctx, (void (*)(void))entry, 1, i);
        threads[i].kind = "start";
        /* run to the first shared access */
        self = i;
        swapcontext(&main_ctx, &threads[i].ctx);
        self = -1;
    }

    for (;;) {
        for (i = n = 0; i < nthreads; i++)
            if (!threads[i].done)
                cand[n++] = i;
        if (!n)
            break;
        h = monitor ? monitor() : 0;
        for (i = 0; i < nregions; i++)
            h = mc_mix_bytes(h, regions[i].ptr, regions[i].len);
        for (i = 0; i < nthreads; i++)
            h = mc_mix(mc_mix(h, threads[i].hist), threads[i].done);
        mc_state(h, 0);
        i = cand[mc_choose(n)];
        mc_step("%sthread %d: %s %s", i != last && last >= 0 ? "  " : "", i, threads[i].kind, where(threads[i].addr));
        last = self = i;
        swapcontext(&main_ctx, &threads[i].ctx);
        self = -1;
        if (sched_observer)
            sched_observer();
    }
}

/* plain and volatile accesses: the hook comes just before the access */
static inline void on_read(void *addr, size_t len)
{
    if (active(addr, len)) {
        point("reads", addr);
        observed((uintptr_t)addr * 2, value(addr, len));
    }
}
static inline void on_write(void *addr, size_t len)
{
    if (active(addr, len)) {
        point("writes", addr);
        /* the value is a function of what the thread has read so far */
        observed((uintptr_t)addr * 2 + 1, 0);
    }
}

#define RW(n) \
void __tsan_read##n(void *a) { on_read(a, n); } \
void __tsan_write##n(void *a) { on_write(a, n); } \
void __tsan_read##n##_pc(void *a, void *p) { on_read(a, n); } \
void __tsan_write##n##_pc(void *a, void *p) { on_write(a, n); } \
void __tsan_unaligned_read##n(void *a) { on_read(a, n); } \
void __tsan_unaligned_write##n(void *a) { on_write(a, n); } \
void __tsan_volatile_read##n(void *a) { on_read(a, n); } \
void __tsan_volatile_write##n(void *a) { on_write(a, n); } \
void __tsan_unaligned_volatile_read##n(void *a) { on_read(a, n); } \
void __tsan_unaligned_volatile_write##n(void *a) { on_write(a, n); } \
void __tsan_read_write##n(void *a) { on_read(a, n); on_write(a, n); }
RW(1) RW(2) RW(4) RW(8) RW(16)

void __tsan_init(void) {}
void __tsan_func_entry(void *p) {}
void __tsan_func_exit(void) {}
void __tsan_vptr_update(void **a, void *b) {}
void __tsan_vptr_read(void **a) {}
void __tsan_read_range(void *a, size_t n)
{
    size_t i;

    for (i = 0; i < n; i += 8)
        on_read((uint8_t *)a + i, n - i < 8 ? n - i : 8);
}
void __tsan_write_range(void *a, size_t n)
{
    size_t i;

    for (i = 0; i < n; i += 8)
        on_write((uint8_t *)a + i, n - i < 8 ? n - i : 8);
}

#define ATOMIC(bits, type) \
type __tsan_atomic##bits##_load(const volatile type *a, int mo) \
{ \
    if (active((void *)a, sizeof(type))) { point("atomically reads", (void *)a); type v = *a; observed((uintptr_t)a * 2, v); return v; } \
    return *a; \
} \
void __tsan_atomic##bits##_store(volatile type *a, type v, int mo) \
{ \
    if (active((void *)a, sizeof(type))) { point("atomically writes", (void *)a); *a = v; observed((uintptr_t)a * 2 + 1, 0); return; } \
    *a = v; \
} \
RMW(bits, type, exchange, v) RMW(bits, type, fetch_add, old + v) RMW(bits, type, fetch_sub, old - v) RMW(bits, type, fetch_and, old & v) \
RMW(bits, type, fetch_or, old | v) RMW(bits, type, fetch_xor, old ^ v) RMW(bits, type, fetch_nand, ~(old & v)) \
static int cas##bits(volatile type *a, type *exp, type v) \
{ \
    bool on = active((void *)a, sizeof(type)); \
    type old; \
    int ok; \
    if (on) point("compares and swaps", (void *)a); \
    old = *a; \
    ok = old == *exp; \
    if (ok) *a = v; else *exp = old; \
    if (on) observed((uintptr_t)a * 2 + ok, old); \
    return ok; \
} \
int __tsan_atomic##bits##_compare_exchange_strong(volatile type *a, type *exp, type v, int mo, int fmo) { return cas##bits(a, exp, v); } \
int __tsan_atomic##bits##_compare_exchange_weak(volatile type *a, type *exp, type v, int mo, int fmo) { return cas##bits(a, exp, v); } \
type __tsan_atomic##bits##_compare_exchange_val(volatile type *a, type exp, type v, int mo, int fmo) { cas##bits(a, &exp, v); return exp; }
#define RMW(bits, type, name, expr) \
type __tsan_atomic##bits##_##name(volatile type *a, type v, int mo) \
{ \
    bool on = active((void *)a, sizeof(type)); \
    type old; \
    if (on) point("atomically updates (" #name ")", (void *)a); \
    old = *a; \
    *a = expr; \
    if (on) observed((uintptr_t)a * 2 + 1, old); \
    return old; \
}
ATOMIC(8, uint8_t) ATOMIC(16, uint16_t) ATOMIC(32, uint32_t) ATOMIC(64, uint64_t)
void __tsan_atomic_thread_fence(int mo) {}
void __tsan_atomic_signal_fence(int mo) {}

/* block operations from instrumented code (linked with --wrap) */
void *__real_memcpy(void *, const void *, size_t);
void *__real_memset(void *, int, size_t);
void *__real_memmove(void *, const void *, size_t);

static void *copy(void *dst, const void *src, size_t n)
{
    struct region *d = shared(dst, n), *s = shared((void *)src, n);
    size_t grain = d ? d->grain : s->grain, i, l;

    for (i = 0; i < n; i += l) {
        l = grain - ((uintptr_t)(d ? (uint8_t *)dst + i : (uint8_t *)src + i) - (uintptr_t)(d ? d->ptr : s->ptr)) % grain;
        if (l > n - i)
            l = n - i;
        if (s) {
            uint8_t tmp[64];

            mc_assert(l <= sizeof(tmp), "grain");
            on_read((uint8_t *)src + i, l);
            __real_memcpy(tmp, (uint8_t *)src + i, l);
            if (d)
                on_write((uint8_t *)dst + i, l);
            __real_memcpy((uint8_t *)dst + i, tmp, l);
        } else {
            on_write((uint8_t *)dst + i, l);
            __real_memcpy((uint8_t *)dst + i, (uint8_t *)src + i, l);
        }
    }
    return dst;
}

void *__wrap_memcpy(void *dst, const void *src, size_t n)
{
    if (n && self >= 0 && !paused && (shared(dst, n) || shared((void *)src, n)))
        return copy(dst, src, n);
    return __real_memcpy(dst, src, n);
}
void *__wrap_memmove(void *dst, const void *src, size_t n)
{
    if (n && self >= 0 && !paused && (shared(dst, n) || shared((void *)src, n)) &&
        ((uint8_t *)dst + n <= (uint8_t *)src || (uint8_t *)src + n <= (uint8_t *)dst))
        return copy(dst, src, n);
    return __real_memmove(dst, src, n);
}
void *__wrap_memset(void *dst, int c, size_t n)
{
    if (n && active(dst, n)) {
        struct region *d = shared(dst, n);
        size_t i, l;

        for (i = 0; i < n; i += l) {
            l = n - i < d->grain ? n - i : d->grain;
            on_write((uint8_t *)dst + i, l);
            __real_memset((uint8_t *)dst + i, c, l);
        }
        return dst;
    }
    return __real_memset(dst, c, n);
}
