/*
 * Beyond 2^32: the same structures over more elements and bytes than 32 bits
 * can count.  The memory is reserved but hardly touched: an input of four
 * gigabytes is a map of the zero page, an output is one window mapped again
 * and again.  Every combination of the sizes given is run, against arithmetic
 * in 64 bits.
 */
#define _GNU_SOURCE
#include "mc.h"
#include <sys/mman.h>
#include <unistd.h>

#define GIB (1UL << 30)

static void * __attribute__((unused))
vast(size_t size)
{
    void *p = mmap(NULL, size, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
    mc_assert(p != MAP_FAILED, "no address space for %zu bytes", size);
    return p;
}

#define WINDOW (8UL << 20)
/* size bytes (rounded up), all of them the same eight megabytes again and again */
static void * __attribute__((unused))
window(size_t size, int fill)
{
    int fd = memfd_create("window", 0);
    uint8_t *base;
    size_t i;

    size = (size + WINDOW - 1) / WINDOW * WINDOW;
    mc_assert(fd >= 0 && !ftruncate(fd, WINDOW), "no window");
    base = mmap(NULL, size, PROT_NONE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
    mc_assert(base != MAP_FAILED, "no address space");
    for (i = 0; i < size; i += WINDOW)
        mc_assert(mmap(base + i, WINDOW, PROT_READ | PROT_WRITE, MAP_SHARED | MAP_FIXED, fd, 0) == base + i, "map");
    close(fd);
    memset(base, fill, WINDOW);
    return base;
}

static void __attribute__((unused))
unwindow(void *p, size_t size)
{
    munmap(p, (size + WINDOW - 1) / WINDOW * WINDOW);
}

/* an allocator of reserved memory */
static struct { void *p; size_t size; } vblk[8];
static void *
vast_alloc(size_t size, void *pdata)
{
    unsigned i;
    for (i = 0; vblk[i].p; ++i)
        mc_assert(i < MC_ARRAY_SIZE(vblk) - 1, "too many blocks");
    if (size > 512 * GIB)
        return NULL;
    vblk[i].size = size;
    return vblk[i].p = vast(size);
}
static void
vast_free(void *p, void *pdata)
{
    unsigned i;
    if (!p)
        return;
    for (i = 0; i < MC_ARRAY_SIZE(vblk) && vblk[i].p != p; ++i);
    mc_assert(i < MC_ARRAY_SIZE(vblk), "free of an unknown block");
    munmap(p, vblk[i].size);
    vblk[i].p = NULL;
}
static void *
vast_realloc(void *p, size_t size, void *pdata)
{
    unsigned i;
    void *q;
    if (!p)
        return vast_alloc(size, pdata);
    for (i = 0; i < MC_ARRAY_SIZE(vblk) && vblk[i].p != p; ++i);
    mc_assert(i < MC_ARRAY_SIZE(vblk), "realloc of an unknown block");
    if (size > 512 * GIB)
        return NULL;
    q = mremap(p, vblk[i].size, size, MREMAP_MAYMOVE);
    mc_assert(q != MAP_FAILED, "mremap");
    vblk[i].p = q;
    vblk[i].size = size;
    return q;
}
static const bfdev_alloc_ops_t vast_ops = { vast_alloc, vast_alloc, vast_realloc, vast_free };
static const bfdev_alloc_t vast_allocator = { &vast_ops, NULL };
static void __attribute__((unused))
vast_clean(void)
{
    unsigned i;
    for (i = 0; i < MC_ARRAY_SIZE(vblk); ++i) {
        if (vblk[i].p)
            munmap(vblk[i].p, vblk[i].size);
        vblk[i].p = NULL;
    }
    (void)&vast_allocator;
}
static bool __attribute__((unused))
vast_none(void)
{
    unsigned i;
    for (i = 0; i < MC_ARRAY_SIZE(vblk); ++i)
        if (vblk[i].p)
            return false;
    return true;
}

static const uint64_t edges[] = {
    1, (1UL << 31) - 1, 1UL << 31, (1UL << 31) + 1, (1UL << 32) - 1, 1UL << 32, (1UL << 32) + 1, (1UL << 32) + 33, (1UL << 33) - 1, (1UL << 33) + 5,
};

#ifdef P_C08
#include <bfdev/array.h>
/* grow in two steps, peek, pop, shrink: cells of 1, 3 and 4 bytes */
static void
s_vast(void)
{
    unsigned long a = edges[mc_choose(MC_ARRAY_SIZE(edges))], b = edges[mc_choose(MC_ARRAY_SIZE(edges))], c;
    unsigned long cells = (unsigned long[]){ 1, 3, 4 }[mc_choose(3)];
    int how = mc_choose(3);
    bfdev_array_t array;
    uint8_t *p;

    vast_clean();
    bfdev_array_init(&array, &vast_allocator, cells);
    mc_step("push of %lu and %lu elements of %lu bytes", a, b, cells);
    mc_case(mc_mix(mc_mix(a, b), cells * 4 + how));
    p = bfdev_array_push(&array, a);
    mc_assert(p && p == array.data && bfdev_array_index(&array) == a, "push of %lu", a);
    mc_assert(array.capacity >= a && vblk[0].size >= a * cells, "%lu elements in %zu bytes", a, vblk[0].size);
    memset(p, 1, cells);
    memset(p + (a - 1) * cells, 2, cells);
    if (how == 0) {
        p = bfdev_array_push(&array, b);
        mc_assert(p == array.data + a * cells, "push of %lu behind %lu", b, a);
    } else {
        if (how == 2)
            mc_assert(!bfdev_array_reserve(&array, b) && bfdev_array_index(&array) == a, "reserve of %lu", b);
        mc_assert(!bfdev_array_resize(&array, a + b), "resize to %lu", a + b);
    }
    c = a + b;
    mc_assert(bfdev_array_index(&array) == c && bfdev_array_size(&array) == c * cells, "%lu elements instead of %lu", bfdev_array_index(&array), c);
    mc_assert(array.capacity >= c && vblk[0].size >= c * cells, "%lu elements in %zu bytes", c, vblk[0].size);
    memset(array.data + (c - 1) * cells, 3, cells);
    mc_assert(*(uint8_t *)bfdev_array_data(&array, a - 1) == 2 && (a == 1 || *(uint8_t *)bfdev_array_data(&array, 0) == 1), "lost elements");
    mc_assert(bfdev_array_data(&array, c - 1) == array.data + (c - 1) * cells && !bfdev_array_data(&array, c), "element %lu", c - 1);
    mc_assert(bfdev_array_peek(&array, 1) == array.data + (c - 1) * cells && bfdev_array_peek(&array, b) == array.data + a * cells, "peek");
    mc_assert(!bfdev_array_peek(&array, c + 1) && bfdev_array_index(&array) == c, "peek of too many");
    mc_assert(!bfdev_array_pop(&array, c + 1) && bfdev_array_index(&array) == c, "pop of too many");
    mc_assert(bfdev_array_pop(&array, b) == array.data + a * cells && bfdev_array_index(&array) == a, "pop of %lu", b);
    mc_assert(*(uint8_t *)bfdev_array_data(&array, a - 1) == 2, "lost element %lu", a - 1);
    bfdev_array_release(&array);
    mc_assert(vast_none(), "leak");
}
#define SCEN { "beyond-32-bits", s_vast, { 0, 0 }, 0, 2 }
#endif

#ifdef P_C20
#include <bfdev/allocpool.h>
static void
s_vast(void)
{
    static const unsigned long aligns[] = { 1, 8, 4096, 1UL << 31, 1UL << 32, 1UL << 33 };
    unsigned long size = 20 * GIB, at = 0, want, n = 0, sz, al;
    uint8_t *base = vast(size + 8 * GIB), *block, *p;
    bfdev_allocpool_t pool;

    block = (uint8_t *)(((uintptr_t)base + 8 * GIB - 1) & ~(8 * GIB - 1));
    bfdev_allocpool_init(&pool, block, size);
    for (n = 0; n < 3; ++n) {
        sz = edges[mc_choose(MC_ARRAY_SIZE(edges))];
        al = aligns[mc_choose(MC_ARRAY_SIZE(aligns))];
        want = (at + (al < 8 ? 8 : al) - 1) / (al < 8 ? 8 : al) * (al < 8 ? 8 : al);
        p = bfdev_allocpool_alloc(&pool, sz, al);
        mc_step("%lu bytes aligned to %lu -> %ld", sz, al, p ? (long)(p - block) : -1);
        if (want > size || sz > size - want) {
            mc_assert(!p, "allocated %lu bytes at %#lx of a pool of %lu", sz, (long)(p - block), size);
            break;
        }
        mc_assert(p == block + want, "%lu bytes aligned to %lu at %#lx instead of %#lx", sz, al, p ? (long)(p - block) : -1, want);
        p[0] = p[sz - 1] = n;
        at = want + sz;
    }
    mc_case(mc_mix(mc_mix(n, at), mc_mix(sz, al)));
    munmap(base, size + 8 * GIB);
}
#define SCEN { "beyond-32-bits", s_vast, { 0, 0 }, 0, 2 }
#endif

#ifdef P_C19
#include <bfdev/memalloc.h>
#define UP(x) (((x) + BFDEV_MEMALLOC_ALIGN - 1) / BFDEV_MEMALLOC_ALIGN * BFDEV_MEMALLOC_ALIGN)
/* three blocks, one freed or grown in place, everything freed in every order */
static void
s_vast(void)
{
    static const bfdev_memalloc_find_t how[] = { bfdev_memalloc_first_fit, bfdev_memalloc_best_fit, bfdev_memalloc_worst_fit };
    static const unsigned long sizes[] = { 32, (1UL << 31) + 32, (1UL << 32) - 32, 1UL << 32, (1UL << 32) + 32, (1UL << 33) + 64 };
    static const uint8_t orders[6][3] = { { 0, 1, 2 }, { 0, 2, 1 }, { 1, 0, 2 }, { 1, 2, 0 }, { 2, 0, 1 }, { 2, 1, 0 } };
    const unsigned long head = sizeof(bfdev_memalloc_chunk_t), size = 40 * GIB;
    unsigned long s[3], left = size - head, grow;
    uint8_t *mem = vast(size), *b[3], *q;
    bfdev_memalloc_head_t pool;
    const uint8_t *ord;
    int i, j, f = mc_choose(3);

    bfdev_memalloc_init(&pool, how[f], mem, size);
    for (i = 0; i < 3; ++i) {
        s[i] = sizes[mc_choose(MC_ARRAY_SIZE(sizes))];
        b[i] = bfdev_memalloc_alloc(&pool, s[i]);
        mc_assert(b[i] && b[i] >= mem && b[i] + s[i] <= mem + size, "block of %lu bytes", s[i]);
        b[i][0] = b[i][s[i] - 1] = 10 + i;
        left -= s[i] + head;
        mc_assert(pool.avail == left, "%zu bytes available instead of %lu", pool.avail, left);
    }
    mc_assert(!bfdev_memalloc_alloc(&pool, left + 1), "allocated more than there is");
    for (i = 0; i < 3; ++i)
        for (j = 0; j < i; ++j)
            mc_assert(b[i] + s[i] <= b[j] || b[j] + s[j] <= b[i], "blocks overlap");
    /* the last block grows where it is, over what is free behind it */
    grow = sizes[mc_choose(MC_ARRAY_SIZE(sizes))];
    for (i = j = 0; i < 3; ++i)
        if (b[i] > b[j])
            j = i;
    q = bfdev_memalloc_realloc(&pool, b[j], s[j] + grow);
    mc_assert(q == b[j], "growth by %lu bytes moved the block or failed", grow);
    s[j] += grow;
    left -= grow;
    mc_assert(pool.avail == left, "%zu bytes available instead of %lu", pool.avail, left);
    q[s[j] - 1] = 10 + j;
    for (i = 0; i < 3; ++i)
        mc_assert(b[i][0] == 10 + i && b[i][s[i] - 1] == 10 + i, "block %d lost its contents", i);
    ord = orders[mc_choose(6)];
    mc_step("blocks of %lu, %lu and %lu bytes, freed %d %d %d", s[0], s[1], s[2], ord[0], ord[1], ord[2]);
    mc_case(mc_mix(mc_mix(mc_mix(s[0], s[1]), mc_mix(s[2], ord - orders[0])), f));
    bfdev_memalloc_free(&pool, b[ord[0]]);
    /* what was freed can be had again */
    q = bfdev_memalloc_alloc(&pool, s[ord[0]]);
    mc_assert(q, "%lu freed bytes are not available", s[ord[0]]);
    for (i = 1; i < 3; ++i)
        mc_assert(q + s[ord[0]] <= b[ord[i]] || b[ord[i]] + s[ord[i]] <= q, "blocks overlap");
    bfdev_memalloc_free(&pool, q);
    bfdev_memalloc_free(&pool, b[ord[1]]);
    mc_assert(b[ord[2]][0] == 10 + ord[2] && b[ord[2]][s[ord[2]] - 1] == 10 + ord[2], "the block left lost its contents");
    bfdev_memalloc_free(&pool, b[ord[2]]);
    mc_assert(pool.avail == size - head, "%zu bytes available instead of %lu", pool.avail, size - head);
    mc_assert(bfdev_memalloc_alloc(&pool, (size - head) / 32 * 32 - 32), "the region is not in one piece");
    munmap(mem, size);
}
#define SCEN { "beyond-32-bits", s_vast, { 0, 0 }, 0, 2 }
#endif

#if defined(P_C02) || defined(P_C04)
#ifdef P_C02
# include <bfdev/fifo.h>
# define F(x) bfdev_fifo_##x
#else
# include <bfdev/ringbuf.h>
# define F(x) bfdev_ringbuf_##x
#endif
/* a queue of more than 2^32 slots: positions and lengths around 2^31, 2^32 and its end */
static void
s_vast(void)
{
    unsigned long cap = (unsigned long[]){ 1UL << 32, 1UL << 33 }[mc_choose(2)], es = 1 + mc_choose(2) * 3, base, fill, i, at, ret;
    F(t) q;
    uint8_t in[12 * 4], out[12 * 4];

    vast_clean();
    memset(&q, 0x5a, sizeof(q));
    mc_assert(!F(dynamic_alloc)(&q, &vast_allocator, es, cap), "alloc");
    mc_assert(q.mask == cap - 1 && q.esize == es && vblk[0].size >= cap * es, "%lu slots in %zu bytes", q.mask + 1, vblk[0].size);
    base = (unsigned long[]){ 0, (1UL << 31) - 5, (1UL << 32) - 5, (1UL << 32) + 7, (1UL << 33) - 5, 0UL - 5 }[mc_choose(6)];
    /* what is in it already: nothing, or so much that the new elements just fit, or do not */
    fill = (unsigned long[]){ 0, 1, (1UL << 31) - 3, (1UL << 32) - 12, (1UL << 32) - 3, (1UL << 33) - 12, (1UL << 33) - 3 }[mc_choose(7)];
    if (fill > cap)
        mc_prune();
    q.out = base;
    q.in = base + fill;
    for (i = 0; i < sizeof(in); ++i)
        in[i] = i + 1;
    at = base + fill;
    ret = F(in_flat)(&q, in, 12);
    mc_step("queue of %lu slots of %lu bytes, %lu filled from %#lx: in 12 -> %lu", cap, es, fill, base, ret);
    mc_case(mc_mix(mc_mix(cap, es), mc_mix(base, fill)));
#ifdef P_C02
    mc_assert(ret == (cap - fill < 12 ? cap - fill : 12), "12 elements in -> %lu", ret);
    mc_assert(q.in - q.out == fill + ret, "length %lu", q.in - q.out);
#else
    mc_assert(ret == 12, "12 elements in -> %lu", ret);
    mc_assert(q.in - q.out == (fill + 12 > cap ? cap : fill + 12), "length %lu", q.in - q.out);
#endif
    for (i = 0; i < ret; ++i)
        mc_assert(!memcmp((uint8_t *)q.data + ((at + i) & (cap - 1)) * es, in + i * es, es), "element %lu is not in slot %#lx", i, (at + i) & (cap - 1));
    q.out = at;
    memset(out, 0, sizeof(out));
    i = F(peek_flat)(&q, out, 12);
    mc_assert(i == ret && !memcmp(out, in, ret * es), "peek of %lu elements -> %lu", ret, i);
    memset(out, 0, sizeof(out));
    i = F(out_flat)(&q, out, 12);
    mc_assert(i == ret && !memcmp(out, in, ret * es) && q.out == at + ret, "out of %lu elements -> %lu", ret, i);
    F(dynamic_free)(&q);
    mc_assert(vast_none(), "leak");
}
#define SCEN { "beyond-32-bits", s_vast, { 0, 0 }, 0, 2 }
#endif

#ifdef P_C42
#include <bfdev/jhash.h>
#define ROT(x, k) ((x) << (k) | (x) >> (32 - (k)))
static uint32_t
jref(const uint8_t *p, size_t n, uint32_t init)
{
    uint32_t a, b, c, w[3];
    a = b = c = 0xdeadbeef + (uint32_t)n + init;
    for (; n > 12; n -= 12, p += 12) {
        memcpy(w, p, 12);
        a += w[0]; b += w[1]; c += w[2];
        a -= c; a ^= ROT(c, 4); c += b;
        b -= a; b ^= ROT(a, 6); a += c;
        c -= b; c ^= ROT(b, 8); b += a;
        a -= c; a ^= ROT(c, 16); c += b;
        b -= a; b ^= ROT(a, 19); a += c;
        c -= b; c ^= ROT(b, 4); b += a;
    }
    memset(w, 0, sizeof(w));
    memcpy(w, p, n);
    a += w[0]; b += w[1]; c += w[2];
    c ^= b; c -= ROT(b, 14); a ^= c; a -= ROT(c, 11); b ^= a; b -= ROT(a, 25);
    c ^= b; c -= ROT(b, 16); a ^= c; a -= ROT(c, 4); b ^= a; b -= ROT(a, 14);
    c ^= b; c -= ROT(b, 24);
    return c;
}
static void
s_vast(void)
{
    size_t n = (size_t[]){ (1UL << 32) + 7, 1UL << 32, (1UL << 32) - 1, (1UL << 31) + 5 }[mc_choose(mc_bound)];
    uint8_t *p = vast(n);
    uint32_t got, want;

    memset(p + n - 30, 0x5b, 30);
    mc_step("%zu bytes", n);
    mc_case(n);
    got = bfdev_jhash(p, n, 7);
    mc_step_count();
    want = jref(p, n, 7);
    mc_assert(got == want, "%zu bytes hash to %#x instead of %#x", n, got, want);
    munmap(p, n);
}
#define SCEN { "beyond-32-bits", s_vast, { 1, 4 }, 0, 1 }
#endif

#ifdef P_C28
#include <bfdev/crc.h>
static uint64_t
lib(int k, const void *p, size_t n, uint64_t crc)
{
    switch (k) {
    case 0: return bfdev_crc32(p, n, crc);
    case 1: return bfdev_crc16(p, n, crc);
    case 2: return bfdev_crc64(p, n, crc);
    case 3: return bfdev_crc8(p, n, crc);
    case 4: return bfdev_crc7(p, n, crc);
    case 5: return bfdev_crc_ccitt(p, n, crc);
    case 6: return bfdev_crc_itut(p, n, crc);
    case 7: return bfdev_crc_t10dif(p, n, crc);
    default: return bfdev_crc_rocksoft(p, n, crc);
    }
}
/* one call over more than 2^32 bytes, most of them zero under a zero register */
static void
s_vast(void)
{
    size_t n = (1UL << 32) + 19;
    int k = mc_choose(mc_bound);
    uint8_t *p = vast(n);
    uint64_t got, want;

    memcpy(p + n - 16, "beyond 32 bits..", 16);
    mc_step("crc %d of %zu bytes", k, n);
    mc_case(k);
    /* leading zeros leave a zero register as it is */
    want = lib(k, p + n - 16, 16, 0);
    got = lib(k, p, n, 0);
    mc_assert(got == want, "crc %d of %zu bytes is %#lx instead of %#lx", k, n, got, want);
    munmap(p, n);
}
#define SCEN { "beyond-32-bits", s_vast, { 2, 9 }, 0, 1 }
#endif

#ifdef P_C26
#include <bfdev/base32.h>
#include <bfdev/base64.h>
#include <bfdev/ascii85.h>
/* text of more than 2^32 letters, in and out */
static void
s_vast(void)
{
    static const char *const names[] = { "base64 encode", "base64 decode", "base32 encode", "base32 decode", "ascii85 encode", "ascii85 decode" };
    int op = mc_choose(mc_bound), i;
    bool enc = !(op & 1);
    size_t group[2] = { op < 2 ? 3 : op < 4 ? 5 : 4, op < 2 ? 4 : op < 4 ? 8 : 5 };
    size_t n = ((1UL << 32) / group[!enc] + 3) * group[!enc], m = n / group[!enc] * group[enc], got, len;
    uint8_t tail[16], want[32], *in, *out;

    /* the last two groups come from an independent short run of the same function */
    memset(want, 0, sizeof(want));
    for (i = 0; i < 16; ++i)
        tail[i] = enc ? 'a' + i * 7 : op == 5 ? '#' + i : 'B' + i;
    if (enc) {
        in = vast(n + 4096);
        if (op == 4)
            memset(in, 1, 4);
    } else
        in = window(n, op == 5 ? '!' : 'A');
    memcpy(in + n - 2 * group[!enc], tail, 2 * group[!enc]);
    out = window(m * 2 + 64, 0xee);
    mc_step("%s of %zu letters", names[op], n);
    mc_case(op);
    len = 2 * group[enc];
    got = m;
    switch (op) {
    case 0: bfdev_base64_encode(want, tail, 6); bfdev_base64_encode(out, in, n); break;
    case 1: bfdev_base64_decode(want, tail, 8); bfdev_base64_decode(out, in, n); break;
    case 2: bfdev_base32_encode(want, tail, 10); bfdev_base32_encode(out, in, n); break;
    case 3: bfdev_base32_decode(want, tail, 16); bfdev_base32_decode(out, in, n); break;
    case 4:
        bfdev_ascii85_encode(want, tail, &len, 8);
        bfdev_ascii85_encode(out, in, &got, n);
        m = 10 + (n - 8) / 4 - 1 + 5;       /* one group of ones, then one letter for every four zeros */
        break;
    default:
        bfdev_ascii85_decode(want, tail, &len, 10);
        bfdev_ascii85_decode(out, in, &got, n);
    }
    mc_assert(got == m, "%s of %zu letters made %zu instead of %zu", names[op], n, got, m);
    mc_assert(!memcmp(out + m - len, want, len), "the end of the %s of %zu letters is wrong", names[op], n);
    if (!enc)
        unwindow(in, n);
    else
        munmap(in, n + 4096);
    unwindow(out, m * 2 + 64);
}
#define SCEN { "beyond-32-bits", s_vast, { 2, 6 }, 0, 1 }
#endif

#if defined(P_C29) || defined(P_C32)
/* memory up to a limit, an inaccessible page behind each block */
static size_t scant;
static void *
scant_alloc(size_t size, void *pdata)
{
    size_t full = (size + 4095) / 4096 * 4096;
    uint8_t *p;
    if (size > scant)
        return NULL;
    p = vast_alloc(full + 4096, pdata);
    mc_assert(!mprotect(p + full, 4096, PROT_NONE), "guard");
    return p;
}
static const bfdev_alloc_ops_t scant_ops = { scant_alloc, scant_alloc, NULL, vast_free };
static const bfdev_alloc_t scant_allocator = { &scant_ops, NULL };
#endif

#ifdef P_C29
#include <bfdev/textsearch.h>
/* patterns of a gigabyte and more where there is memory for little else: refused, or prepared within what was granted */
static void
s_vast(void)
{
    static const char *const names[] = { "bm", "kmp" };
    const char *name = names[mc_choose(MC_ARRAY_SIZE(names))];
    size_t len = (size_t[]){ 1UL << 30, (1UL << 30) + 1, (1UL << 31) + 5, 3UL << 30, (1UL << 32) + 9 }[mc_choose(5)];
    unsigned long flags = mc_choose(2) ? BFDEV_TS_IGCASE : 0;
    uint8_t *pattern = vast(len);
    bfdev_ts_context_t *ctx;

    vast_clean();
    scant = len + 4096;
    mc_step("%s pattern of %zu bytes, flags %lu", name, len, flags);
    mc_case(mc_mix_bytes(len + flags, name, strlen(name)));
    ctx = bfdev_textsearch_create(&scant_allocator, name, pattern, len, flags);
    if (ctx)
        bfdev_textsearch_destroy(ctx);
    mc_assert(vast_none(), "leak");
    munmap(pattern, len);
}
#define SCEN { "beyond-32-bits", s_vast, { 0, 0 }, 0, 1 }
#endif

#ifdef P_C32
#include <bfdev/argv.h>
/* lines of half a billion words */
static void
s_vast(void)
{
    size_t len = (size_t[]){ (1UL << 30) - 2, 1UL << 30, (1UL << 30) + 10 }[mc_choose(mc_bound)];
    size_t full = (len + WINDOW) / WINDOW * WINDOW;
    char *line = window(full, ' '), **argv;
    unsigned argc = 7;
    size_t i;

    for (i = 0; i < WINDOW; i += 2)
        line[i] = 'a';
    /* the last window is one of its own, with the end of the line */
    line = mmap(line + full - WINDOW, WINDOW, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_FIXED, -1, 0);
    mc_assert(line != MAP_FAILED, "no memory");
    line -= full - WINDOW;
    for (i = full - WINDOW; i < len; ++i)
        line[i] = i & 1 ? ' ' : 'a';
    vast_clean();
    scant = len + 4096;
    mc_step("line of %zu letters", len);
    mc_case(len);
    argv = bfdev_argv_split(&scant_allocator, line, &argc);
    mc_assert(!argv, "the words of a line of %zu letters were put into memory for the line alone", len);
    mc_assert(vast_none(), "leak");
    munmap(line, full);
}
#define SCEN { "beyond-32-bits", s_vast, { 1, 3 }, 0, 1 }
#endif

#if defined(P_C23) || defined(P_C24) || defined(P_C25)
/* 2^32 bits between two inaccessible pages: zeros, or ones of which only some windows are their own */
#define MAPSZ (1UL << 29)
static const unsigned sizes[] = { 0x80000000, 0x80000001, 0xffffffbf, 0xffffffc0, 0xffffffc1, 0xffffffff };
static unsigned long *
bits_map(int fill, bool zero)
{
    uint8_t *p = mmap(NULL, MAPSZ + 2 * WINDOW, PROT_NONE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0), *w;
    size_t i;
    mc_assert(p != MAP_FAILED, "no address space");
    p += WINDOW;
    if (zero) {
        mc_assert(mmap(p, MAPSZ, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE | MAP_FIXED, -1, 0) == p, "map");
        return (unsigned long *)p;
    }
    w = window(WINDOW, fill);
    for (i = 0; i < MAPSZ; i += WINDOW)
        mc_assert(mremap(w, 0, WINDOW, MREMAP_MAYMOVE | MREMAP_FIXED, p + i) == p + i, "map");
    unwindow(w, WINDOW);
    return (unsigned long *)p;
}
/* the eight megabytes around this bit become memory of their own */
static void
bits_own(unsigned long *map, unsigned bit, int fill)
{
    uint8_t *p = (uint8_t *)map + bit / 8 / WINDOW * WINDOW;
    mc_assert(mmap(p, WINDOW, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_FIXED, -1, 0) == p, "map");
    memset(p, fill, WINDOW);
}
static void
bits_free(unsigned long *map)
{
    munmap((uint8_t *)map - WINDOW, MAPSZ + 2 * WINDOW);
}
static bool
bit_at(const unsigned long *map, unsigned bit)
{
    return map[bit / 64] >> bit % 64 & 1;
}
static void
put_bit(unsigned long *map, unsigned bit, bool val)
{
    map[bit / 64] = (map[bit / 64] & ~(1UL << bit % 64)) | (unsigned long)val << bit % 64;
}
#endif

#ifdef P_C24
#include <bfdev/bitwalk.h>
/* one odd bit among up to 2^32 - 1, looked for from both ends and from around itself */
static void
s_vast(void)
{
    unsigned bits = sizes[mc_choose(MC_ARRAY_SIZE(sizes))], starts[5], i;
    bool zero = mc_choose(2), behind = mc_choose(2);
    long odd = (long[]){ -1, 0, 0x7fffffff, 0x80000001, (long)bits - 1 }[mc_choose(5)], ret;
    unsigned long *map = bits_map(0xff, !zero);

    mc_step("map of %u bits, the odd %s at %ld, %s behind", bits, zero ? "zero" : "one", odd, behind ? "odd ones" : "none");
    mc_case(mc_mix(mc_mix(bits, odd), zero * 2 + behind));
    if (odd >= (long)bits)
        odd = -1;
    /* what lies behind the last bit is of the odd kind or of the other */
    if (zero)
        bits_own(map, bits - 1, 0xff);
    for (i = bits; i % 64; ++i)
        put_bit(map, i, zero ^ behind);
    if (odd >= 0) {
        if (zero)
            bits_own(map, odd, 0xff);
        if (zero && odd / 8 / WINDOW == (bits - 1) / 8 / WINDOW)
            for (i = bits; i % 64; ++i)
                put_bit(map, i, zero ^ behind);
        put_bit(map, odd, !zero);
    }
#define WANT(what, call, want) do {                                             \
        ret = call;                                                             \
        mc_assert(ret == (want), "%s among %u bits, the odd one at %ld, is %ld instead of %ld", what, bits, odd, ret, (long)(want)); \
        mc_step_count();                                                        \
    } while (0)
    WANT("first", zero ? bfdev_find_first_zero(map, bits) : bfdev_find_first_bit(map, bits), odd < 0 ? bits : odd);
    WANT("last", zero ? bfdev_find_last_zero(map, bits) : bfdev_find_last_bit(map, bits), odd < 0 ? bits : odd);
    starts[0] = 0;
    starts[1] = 0x80000000 - 1;
    starts[2] = bits - 1;
    starts[3] = odd < 0 ? 64 : odd + 1;
    starts[4] = odd < 1 ? bits - 64 : odd - 1;
    for (i = 0; i < 5; ++i) {
        unsigned s = starts[i];
        long next = s < bits && odd >= (long)s ? odd : bits, prev = s < bits && odd >= 0 && odd <= (long)s ? odd : bits;
        WANT("next", zero ? bfdev_find_next_zero(map, bits, s) : bfdev_find_next_bit(map, bits, s), next);
        WANT("previous", zero ? bfdev_find_prev_zero(map, bits, s) : bfdev_find_prev_bit(map, bits, s), prev);
        if (!zero) {
            WANT("next of both", bfdev_find_next_and_bit(map, map, bits, s), next);
            WANT("previous of both", bfdev_find_prev_and_bit(map, map, bits, s), prev);
        }
    }
    bits_free(map);
}
#define SCEN { "up-to-32-bits", s_vast, { 0, 0 }, 0, 2 }
#endif

#ifdef P_C23
#include <bfdev/bitmap.h>
/* maps of up to 2^32 - 1 bits; results are looked at in the eight megabytes around their ends */
static void
s_vast(void)
{
    static const char *const names[] = { "set", "clr", "zero", "fill", "equal", "or_equal", "intersects", "empty", "full", "and", "andnot", "or", "xor",
        "complement", "shl", "shr", "copy", "alloc" };
    unsigned bits = sizes[mc_choose(MC_ARRAY_SIZE(sizes))], op = mc_choose(MC_ARRAY_SIZE(names)), i, len, from;
    bool odd = mc_choose(2), ret;
    unsigned long *a = bits_map(0, true), *b = bits_map(0, true), *d = bits_map(0x5a, false), *ones;

    mc_step("%s of %u bits, %s", names[op], bits, odd ? "variant" : "plain");
    mc_case(mc_mix(mc_mix(bits, op), odd));
    bits_own(d, 0, 0x5a);
    bits_own(d, bits - 1, 0x5a);
    if ((bits - 200) / 8 / WINDOW != (bits - 1) / 8 / WINDOW)
        bits_own(d, bits - 200, 0x5a);
    /* what lies behind the last bit does not matter */
    for (i = bits; i % 64; ++i)
        put_bit(a, i, true);
#define D(bit, want) mc_assert(bit_at(d, bit) == (want), "%s of %u bits: bit %u is %d", names[op], bits, bit, bit_at(d, bit))
#define ENDS(want) do { for (i = 0; i < 128; ++i) { D(i, want); D(bits - 1 - i, want); } } while (0)
    switch (op) {
    case 0: case 1:
        /* a range at either end */
        len = 200;
        from = odd ? 0 : bits - len;
        if (op == 0) {
            bfdev_bitmap_set(b, from, len);
            for (i = 0; i < len + 64; ++i)
                mc_assert(bit_at(b, odd ? i : bits - 1 - i) == (i < len), "set of %u bits from %u: bit %u from the end", len, from, i);
        } else {
            for (i = 0; i < len + 64; ++i)
                put_bit(b, odd ? i : bits - 1 - i, true);
            bfdev_bitmap_clr(b, from, len);
            for (i = 0; i < len + 64; ++i)
                mc_assert(bit_at(b, odd ? i : bits - 1 - i) == (i >= len), "clr of %u bits from %u: bit %u from the end", len, from, i);
        }
        break;
    case 2: bfdev_bitmap_zero(d, bits); ENDS(false); break;
    case 3: bfdev_bitmap_fill(d, bits); ENDS(true); break;
    case 4:
        put_bit(b, bits - 1, odd);
        ret = bfdev_bitmap_equal(a, b, bits);
        mc_assert(ret == !odd, "two maps of %u bits compare %d", bits, ret);
        break;
    case 5:
        put_bit(b, bits - 1, odd);
        ret = bfdev_bitmap_or_equal(a, a, b, bits);
        mc_assert(ret == !odd, "three maps of %u bits compare %d", bits, ret);
        break;
    case 6:
        put_bit(a, bits - 1, true);
        put_bit(b, bits - 1, odd);
        ret = bfdev_bitmap_intersects(a, b, bits);
        mc_assert(ret == odd, "two maps of %u bits intersect %d", bits, ret);
        break;
    case 7:
        put_bit(a, bits - 1, odd);
        ret = bfdev_bitmap_empty(a, bits);
        mc_assert(ret == !odd, "map of %u bits is empty: %d", bits, ret);
        break;
    case 8:
        ones = bits_map(0xff, false);
        bits_own(ones, bits - 1, 0xff);
        for (i = bits; i % 64; ++i)
            put_bit(ones, i, false);
        put_bit(ones, bits - 1, !odd);
        ret = bfdev_bitmap_full(ones, bits);
        mc_assert(ret == !odd, "map of %u bits is full: %d", bits, ret);
        bits_free(ones);
        break;
    case 9: case 10:
        put_bit(a, bits - 1, true);
        put_bit(b, bits - 1, odd);
        ret = (op == 9 ? bfdev_bitmap_and : bfdev_bitmap_andnot)(d, a, b, bits);
        mc_assert(ret == (odd == (op == 9)), "the result of %u bits is reported %d", bits, ret);
        D(bits - 1, odd == (op == 9));
        D(bits - 2, false);
        D(0, false);
        break;
    case 11: case 12:
        put_bit(a, bits - 1, true);
        put_bit(b, bits - 1, odd);
        (op == 11 ? bfdev_bitmap_or : bfdev_bitmap_xor)(d, a, b, bits);
        D(bits - 1, op == 11 || !odd);
        D(bits - 2, false);
        D(0, false);
        break;
    case 13:
        put_bit(a, bits - 1, odd);
        bfdev_bitmap_complement(d, a, bits);
        D(bits - 1, !odd);
        D(bits - 2, true);
        D(0, true);
        break;
    case 14: case 15:
        len = odd ? bits - 1 : bits - 70;
        put_bit(a, op == 14 ? 0 : bits - 1, true);
        (op == 14 ? bfdev_bitmap_shl : bfdev_bitmap_shr)(d, a, len, bits);
        for (i = 0; i < 128; ++i) {
            D(i, op == 15 && i == bits - 1 - len);
            D(bits - 1 - i, op == 14 && bits - 1 - i == len);
        }
        break;
    case 16:
        put_bit(a, bits - 1, odd);
        bfdev_bitmap_copy(d, a, bits);
        D(bits - 1, odd);
        D(bits - 2, false);
        D(0, false);
        break;
    case 17:
        ones = odd ? bfdev_bitmap_zalloc(&vast_allocator, bits) : bfdev_bitmap_alloc(&vast_allocator, bits);
        mc_assert(ones, "no map of %u bits", bits);
        mc_assert(vblk[0].p == ones && vblk[0].size >= ((size_t)bits + 63) / 64 * 8, "a map of %u bits got %zu bytes", bits, vblk[0].size);
        bfdev_bitmap_free(&vast_allocator, ones);
        mc_assert(!vblk[0].p, "the map of %u bits was not freed", bits);
        break;
    }
    vast_clean();
    bits_free(a);
    bits_free(b);
    bits_free(d);
}
#define SCEN { "up-to-32-bits", s_vast, { 0, 0 }, 0, 2 }
#endif

#ifdef P_C25
#include <bfdev/bitops.h>
#include <bfdev/bitops-endian.h>
/* single bits up to number 2^32 - 1: of three neighbouring words, exactly that bit */
#define BITOP(OP, S) \
    static bool op_##OP##S(unsigned long *m, unsigned bit) { bfdev_bit_##OP##S((void *)m, bit); return false; }
#define BITOPV(OP, S) \
    static bool op_##OP##S(unsigned long *m, unsigned bit) { bfdev_bit_##OP##S((void *)m, bit, true); return false; }
#define BITTEST(OP, S) \
    static bool op_##OP##S(unsigned long *m, unsigned bit) { return bfdev_bit_##OP##S((void *)m, bit); }
#define ALLOPS(S) \
    BITOP(clr, S) BITOP(set, S) BITOP(flip, S) BITOPV(change, S) BITTEST(test, S) BITTEST(test_clr, S) BITTEST(test_set, S) BITTEST(test_flip, S) \
    BITOP(atomic_clr, S) BITOP(atomic_set, S) BITOP(atomic_flip, S) BITOPV(atomic_change, S) BITTEST(atomic_test, S) \
    BITTEST(atomic_test_clr, S) BITTEST(atomic_test_set, S) BITTEST(atomic_test_flip, S)
ALLOPS()
ALLOPS(_le)
ALLOPS(_be)
/* effect 0 clear, 1 set, 2 flip, 3 none; old value returned or not */
#define ROW(OP, EFFECT, OLD) { #OP, { op_##OP, op_##OP##_le, op_##OP##_be }, EFFECT, OLD }
static const struct {
    const char *name;
    bool (*fn[3])(unsigned long *, unsigned);
    int effect;
    bool old;
} bitops[] = {
    ROW(clr, 0, false), ROW(set, 1, false), ROW(flip, 2, false), ROW(change, 1, false), ROW(test, 3, true), ROW(test_clr, 0, true),
    ROW(test_set, 1, true), ROW(test_flip, 2, true),
    ROW(atomic_clr, 0, false), ROW(atomic_set, 1, false), ROW(atomic_flip, 2, false), ROW(atomic_change, 1, false), ROW(atomic_test, 3, true),
    ROW(atomic_test_clr, 0, true), ROW(atomic_test_set, 1, true), ROW(atomic_test_flip, 2, true),
};
static void
s_vast(void)
{
    static const unsigned where[] = { 0x80000000, 0x80000041, 0xfffffffe, 0xffffffff, 0xffffffc0, 0xffffff80, 0x7fffffff };
    unsigned op = mc_choose(MC_ARRAY_SIZE(bitops)), end = mc_choose(3), bit = where[mc_choose(MC_ARRAY_SIZE(where))], real, i;
    bool was = mc_choose(2), ret, want;
    unsigned long *map = bits_map(0, true), before[3], *w;

    mc_step("%s of bit %u, byte order %u, bit was %d", bitops[op].name, bit, end, was);
    mc_case(mc_mix(mc_mix(op, end), mc_mix(bit, was)));
    real = end == 2 ? bit / 64 * 64 + (7 - bit % 64 / 8) * 8 + bit % 8 : bit;
    w = map + real / 64 - 2;
    for (i = 0; i < 3 && w + i < map + MAPSZ / 8; ++i)
        w[i] = 0x0123456789abcdefUL * (2 * i + 1);
    put_bit(map, real, was);
    memcpy(before, w, sizeof(before));
    ret = bitops[op].fn[end](map, bit);
    if (bitops[op].old)
        mc_assert(ret == was, "%s of bit %u (byte order %u) says %d", bitops[op].name, bit, end, ret);
    want = bitops[op].effect == 0 ? false : bitops[op].effect == 1 ? true : bitops[op].effect == 2 ? !was : was;
    mc_assert(bit_at(map, real) == want, "%s left bit %u (byte order %u) as %d", bitops[op].name, bit, end, !want);
    put_bit(map, real, was);
    mc_assert(!memcmp(before, w, sizeof(before)), "%s of bit %u (byte order %u) changed other bits", bitops[op].name, bit, end);
    bits_free(map);
}
#define SCEN { "up-to-32-bits", s_vast, { 0, 0 }, 0, 2 }
#endif
#ifdef P_C38
#include <bfdev/bloom.h>
/* filters of 2^31 bits and more */
static unsigned
id_hash(unsigned func, const void *key, void *pdata)
{
    return *(const unsigned *)key + func * 0x9e3779b1u;
}
static void
s_vast(void)
{
    static const unsigned caps[] = { 0x40000001, 0x80000000, 0x80000001, 0xffffff80, 0xffffffc0 };
    unsigned cap = caps[mc_choose(MC_ARRAY_SIZE(caps))], funcs = 1 + mc_choose(3), step = mc_choose(2) ? 0x01000193 : 1, i, v, absent = 0;
    bfdev_bloom_t *b;

    mc_step("capacity %u, %u functions, keys %u apart", cap, funcs, step);
    mc_case(mc_mix(cap, funcs * 2 + (step == 1)));
    b = bfdev_bloom_create(&vast_allocator, cap, id_hash, funcs, NULL);
    mc_assert(b && vblk[0].size >= cap / 8, "capacity %u in %zu bytes", cap, vblk[0].size);
    for (i = 0; i < 20000; ++i) {
        v = i * step;
        mc_assert(i || !bfdev_bloom_peek(b, &v), "a new filter of capacity %u has an element", cap);
        absent += !bfdev_bloom_push(b, &v);
        mc_assert(bfdev_bloom_peek(b, &v), "capacity %u: element %u is not there", cap, i);
    }
    mc_assert(absent > 19000, "capacity %u: of 20000 elements only %u were new", cap, absent);
    for (i = 0; i < 20000; ++i) {
        v = i * step;
        mc_assert(bfdev_bloom_push(b, &v), "capacity %u: element %u was lost", cap, i);
    }
    bfdev_bloom_flush(b);
    for (i = 0; i < 20000; ++i) {
        v = i * step;
        mc_assert(!bfdev_bloom_peek(b, &v), "capacity %u: element %u outlived a flush", cap, i);
    }
    bfdev_bloom_destroy(b);
    mc_assert(!vblk[0].p, "the filter was not freed");
}
#define SCEN { "beyond-2^31", s_vast, { 0, 0 }, 0, 2 }
#endif

#ifdef P_C39
#include <bfdev/arc4.h>
/* one call over more than 2^32 bytes; the output is one window again and again */
static void
s_vast(void)
{
    size_t n = (size_t[]){ (1UL << 32) + 5, 1UL << 32, (1UL << 31) + 1 }[mc_choose(mc_bound)], k, tail = 4096;
    uint8_t *in = vast(n), *out = window(n, 0), box[256], x = 0, y = 0, t, more[64], zero[64] = { };
    bfdev_arc4_ctx_t *ctx = mc_zalloc(sizeof(*ctx));
    int i;

    mc_step("%zu bytes", n);
    mc_case(n);
    memset(in + n - 100, 0x77, 100);
    bfdev_arc4_setkey(ctx, (const uint8_t *)"Secret", 6);
    bfdev_arc4_trans(ctx, out, in, n);
    bfdev_arc4_trans(ctx, more, zero, sizeof(more));
    mc_step_count();
    for (i = 0; i < 256; ++i)
        box[i] = i;
    for (i = 0; i < 256; ++i) {
        y += box[i] + "Secret"[i % 6];
        t = box[i]; box[i] = box[y]; box[y] = t;
    }
    y = 0;
    for (k = 0; k < n + sizeof(more); ++k) {
        x++;
        t = box[x];
        y += t;
        box[x] = box[y];
        box[y] = t;
        t = box[(uint8_t)(box[x] + t)];
        if (k >= n)
            mc_assert(more[k - n] == t, "after %zu bytes, byte %zu is %#x instead of %#x", n, k - n, more[k - n], t);
        else if (k >= n - tail)
            mc_assert(out[k] == (t ^ in[k]), "of %zu bytes, byte %zu is %#x instead of %#x", n, k, out[k], t ^ in[k]);
    }
    munmap(in, n);
    unwindow(out, n);
    mc_free(ctx);
}
#define SCEN { "beyond-32-bits", s_vast, { 1, 3 }, 0, 1 }
#endif

#ifdef P_C11
#include <bfdev/bsearch.h>
/* searching more than 2^32 elements: only their addresses count */
static const uint8_t *sbase;
static size_t ssize, sprobes;
static long
sfind(const void *node, void *pdata)
{
    size_t want = *(const size_t *)pdata, off = (const uint8_t *)node - sbase;
    mc_assert(!(off % ssize), "asked about %zu bytes into elements of %zu", off, ssize);
    mc_assert(++sprobes < 200, "the search does not end");
    return off / ssize < want ? -1 : off / ssize > want;
}
static void
s_vast(void)
{
    static const size_t nums[] = { (1UL << 31) - 1, 1UL << 31, (1UL << 32) - 1, 1UL << 32, (1UL << 32) + 1, (3UL << 32) + 12345 };
    static const size_t esizes[] = { 1, 8, 24, 1UL << 32 };
    size_t num = nums[mc_choose(MC_ARRAY_SIZE(nums))], want, i;
    ssize = esizes[mc_choose(MC_ARRAY_SIZE(esizes))];
    if (ssize > 24)
        num = 1000 + num % 7;
    size_t at[] = { 0, 1, 2, num / 2, num / 2 - 1, num / 2 + 1, num / 3, num - 1, num - 2, num, num + 1, num & 0xffffffff, (1UL << 32) - 1, 1UL << 32, 1UL << 31 };
    const void *ret;

    sbase = (const uint8_t *)0x100000;      /* never looked at */
    mc_step("%zu elements of %zu bytes", num, ssize);
    for (i = 0; i < MC_ARRAY_SIZE(at); ++i) {
        want = at[i];
        mc_case(mc_mix(mc_mix(num, ssize), want));
        sprobes = 0;
        ret = bfdev_bsearch(sbase, num, ssize, sfind, &want);
        if (want < num)
            mc_assert(ret == sbase + want * ssize, "element %zu of %zu (%zu bytes each) was not found", want, num, ssize);
        else
            mc_assert(!ret, "element %zu was found among %zu", want, num);
        sprobes = 0;
        mc_assert(bfdev_bsearch_inline(sbase, num, ssize, sfind, &want) == ret, "the inline search differs for %zu of %zu", want, num);
    }
}
#define SCEN { "search-beyond-2^32", s_vast, { 0, 0 }, 0, 2 }
#endif

#ifdef P_C41
#include <bfdev/string.h>
/* strings and memory of more than 2^32 bytes */
static size_t cgot, cfreed;
static void *
copy_alloc(size_t size, void *pdata)
{
    cgot = size;
    return window(size, 0);
}
static void *
copy_realloc(void *p, size_t size, void *pdata)
{
    mc_assert(false, "realloc");
    return NULL;
}
static void
copy_free(void *p, void *pdata)
{
    cfreed++;
}
static const bfdev_alloc_ops_t copy_ops = { copy_alloc, copy_alloc, copy_realloc, copy_free };
static const bfdev_alloc_t copy_allocator = { &copy_ops, NULL };
static void
s_vast(void)
{
    size_t n = (size_t[]){ (1UL << 32) + 9, 1UL << 32, (1UL << 32) - 1, (1UL << 31) + 3 }[mc_choose(mc_bound)];
    int op = mc_choose(5);
    uint8_t *s = NULL, *q;

    mc_step("%s of %zu bytes", (const char *[]){ "memdiff", "strdiff", "strdup", "strndup", "strndup past the end" }[op], n);
    mc_case(mc_mix(n, op));
    if (op == 0) {
        s = vast(n + 1);
        s[n] = 'x';
        q = bfdev_memdiff(s, 0, n);
        mc_assert(!q, "byte %zu of %zu zeros differs", (size_t)(q - s), n);
        mc_step_count();
        q = bfdev_memdiff(s, 0, n + 1);
        mc_assert(q == s + n, "the byte after %zu zeros was not found", n);
        munmap(s, n + 1);
        return;
    }
    s = window(n + WINDOW, 'x');
    q = s + n / WINDOW * WINDOW;
    /* the end of the text is not one of those windows */
    mc_assert(mmap(q, WINDOW, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_FIXED, -1, 0) == q, "map");
    memset(q, 'x', WINDOW);
    s[n] = 0;
    if (op == 1) {
        mc_assert(!bfdev_strdiff((char *)s, 'x'), "a text of %zu equal letters differs", n);
        mc_step_count();
        s[n - 1] = 'y';
        mc_assert(bfdev_strdiff((char *)s, 'x') == (char *)s + n - 1, "the last letter of %zu was not found", n);
    } else {
        s[n - 1] = 'y';
        q = (uint8_t *)(op == 2 ? bfdev_strdup(&copy_allocator, (char *)s) : bfdev_strndup(&copy_allocator, (char *)s, op == 3 ? n - 5 : n + 70));
        if (op == 3)
            n -= 5;
        mc_assert(q && cgot >= n + 1, "a copy of %zu letters in %zu bytes", n, cgot);
        mc_assert(!q[n] && q[n - 1] == (op == 3 ? 'x' : 'y') && q[n - 2] == 'x', "the copy of %zu letters does not end like them", n);
        unwindow(q, cgot);
    }
    unwindow(s, n + WINDOW);
}
#define SCEN { "beyond-32-bits", s_vast, { 1, 4 }, 0, 1 }
#endif

const mc_scenario_t mc_scenarios[] = { SCEN, { NULL } };
