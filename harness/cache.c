/*
 * LRU and LFU caches: every history of obtain (all flags), put, set, delete,
 * commit and reset against a policy model.
 */
#include "mc.h"
#include <bfdev/cache.h>

#define NN 4
#define NT 6

static bfdev_cache_head_t *cache;
static int lfu, nsize, ntags, maxcount;
static struct mnode { int status, refcnt, tag, count, age; } m[NN];
static int now, starving, dirty, pending, maxpend;
static unsigned long hits, misses, starve, changed;
static char pdata;

static unsigned long hash_of[NT];

#define TAG(t) ((void *)(uintptr_t)((t) + 100))

static unsigned long
my_hash(const void *tag, void *p)
{
    mc_assert(p == &pdata, "hash hook got other data");
    return hash_of[(uintptr_t)tag - 100];
}

static long
my_find(const void *node, const void *tag, void *p)
{
    mc_assert(p == &pdata, "find hook got other data");
    return node != tag;
}

static const bfdev_cache_ops_t ops = { .hash = my_hash, .find = my_find };

static int
tag_node(int tag)
{
    int i;
    for (i = 0; i < nsize; ++i)
        if (m[i].status != BFDEV_CACHE_FREED && m[i].tag == tag)
            return i;
    return -1;
}

static int
node_index(bfdev_cache_node_t *node)
{
    int i;
    for (i = 0; i < nsize && cache->nodes[i] != node; ++i);
    mc_assert(i < nsize, "cache handed out a foreign element");
    return i;
}

/* addresses as element and offset: they are the same in every execution */
static uint64_t
relative(uintptr_t word)
{
    int i;

    for (i = 0; i < nsize; ++i) {
        uintptr_t start = (uintptr_t)cache->nodes[i];
        if (word >= start && word < start + mc_block_size(cache->nodes[i]))
            return (i + 2) * 4096 + (word - start);
    }
    if (word - (uintptr_t)cache < mc_block_size(cache))
        return 4096 + (word - (uintptr_t)cache);
    return word < 4096 ? word : ~0ul;
}

static uint64_t
verify(void)
{
    uint64_t h = mc_mix(mc_mix(starving, pending), cache->flags);
    bfdev_list_head_t *lists[3] = { &cache->using, &cache->freed, &cache->changing }, *pos;
    unsigned long used = 0, *word;
    bfdev_hlist_node_t *hn;
    int i, j, t;

    if (mc_verified())
        return 0;
    for (i = 0; i < nsize; ++i) {
        bfdev_cache_node_t *n = cache->nodes[i];
        int rank = 0;
        mc_assert((int)n->status == m[i].status, "element %d has status %d instead of %d", i, n->status, m[i].status);
        mc_assert((int)n->refcnt == m[i].refcnt, "element %d has %lu references instead of %d", i, n->refcnt, m[i].refcnt);
        mc_assert(n->index == (unsigned)i, "element index changed");
        mc_assert(m[i].status == BFDEV_CACHE_FREED || n->tag == TAG(m[i].tag), "element %d carries another tag", i);
        used += m[i].refcnt > 0;
        for (j = 0; j < nsize; ++j)
            rank += m[j].status == BFDEV_CACHE_MANAGED && m[j].age < m[i].age;
        h = mc_mix(h, mc_mix(m[i].status * 16 + m[i].refcnt, m[i].status == BFDEV_CACHE_FREED ? -1 : m[i].tag));
        if (m[i].status != BFDEV_CACHE_FREED && lfu)
            h = mc_mix(h, m[i].count);
        if (m[i].status == BFDEV_CACHE_MANAGED && !lfu)
            h = mc_mix(h, rank);
        /* what the policy itself keeps about the element is part of the state */
        if (m[i].status != BFDEV_CACHE_FREED) {
            uintptr_t *word = (uintptr_t *)(n + 1);
            for (size_t k = 0; k < (mc_block_size(n) - sizeof(*n)) / sizeof(*word); ++k)
                h = mc_mix(h, relative(word[k]));
        }
        mc_assert(m[i].status != BFDEV_CACHE_MANAGED || !m[i].refcnt, "model");
    }
    /* so are its lists (as sets), the lookup table and the head of the policy */
    for (t = 0; t < 3; ++t) {
        unsigned long set = 0;
        for (pos = lists[t]->next, i = 0; pos != lists[t] && i < 2 * NN; pos = pos->next, ++i)
            set |= 1UL << node_index(bfdev_list_entry(pos, bfdev_cache_node_t, list));
        h = mc_mix(h, i < 2 * NN ? set * 16 + i : ~0ul);
    }
    for (t = i = 0; t < nsize; ++t) {
        unsigned long set = 0;
        for (hn = cache->taghash[t].node; hn && i < 2 * NN; hn = hn->next, ++i)
            set |= 1UL << node_index(bfdev_hlist_entry(hn, bfdev_cache_node_t, hash));
        h = mc_mix(h, set * 16 + i);
    }
    word = (unsigned long *)(cache + 1);
    for (size_t k = 0; k < (mc_block_size(cache) - sizeof(*cache)) / sizeof(*word); ++k)
        h = mc_mix(h, relative(word[k]));
    /* zeroing a counter is an event of its own */
    h = mc_mix(h, (hits > 0) | (misses > 0) << 1 | (starve > 0) << 2 | (changed > 0) << 3);
    for (t = 0; t < ntags; ++t) {
        bfdev_cache_node_t *n = bfdev_cache_find(cache, TAG(t));
        i = tag_node(t);
        if (i < 0 || m[i].status == BFDEV_CACHE_PENDING)
            mc_assert(!n, "tag %d found although it is not resident", t);
        else
            mc_assert(n == cache->nodes[i], "resident tag %d not found", t);
    }
    mc_assert(cache->used == used, "used is %lu instead of %lu", cache->used, used);
    mc_assert(cache->pending == (unsigned long)pending, "pending is %lu instead of %d", cache->pending, pending);
    mc_assert(cache->hits == hits && cache->misses == misses && cache->starve == starve && cache->changed == changed,
              "hits/misses/starve/changed %lu/%lu/%lu/%lu instead of %lu/%lu/%lu/%lu", cache->hits, cache->misses,
              cache->starve, cache->changed, hits, misses, starve, changed);
    mc_assert(!!bfdev_cache_starving_test(cache) == starving, "starving flag");
    mc_assert(!!bfdev_cache_dirty_test(cache) == dirty, "dirty flag");
    return h;
}

static void
obtain(int tag, unsigned flags)
{
    bfdev_cache_node_t *node;
    int i = tag_node(tag), j, nfree = 0, nman = 0, want = -1;
    bool isnew = false;

    for (j = 0; j < nsize; ++j) {
        nfree += m[j].status == BFDEV_CACHE_FREED;
        nman += m[j].status == BFDEV_CACHE_MANAGED;
    }
    if (starving)
        starve++;
    else if (i >= 0) {
        hits++;
        if (m[i].status != BFDEV_CACHE_PENDING) {
            m[i].status = BFDEV_CACHE_USING;
            m[i].refcnt++;
            m[i].count++;
            want = i;
        } else if (flags & BFDEV_CACHE_UNCOMMITTED) {
            m[i].refcnt++;
            want = i;
        }
    } else {
        misses++;
        if (flags & BFDEV_CACHE_CHANGE) {
            dirty = 1;
            if (!nfree && !nman)
                starving = 1;
            else if (pending < maxpend)
                isnew = true;
        }
    }
    switch (flags) {
    case 0: node = bfdev_cache_try_get(cache, TAG(tag)); break;
    case BFDEV_CACHE_CHANGE: node = bfdev_cache_get(cache, TAG(tag)); break;
    case BFDEV_CACHE_CUMULATIVE: node = bfdev_cache_cumulative(cache, TAG(tag)); break;
    default: node = bfdev_cache_obtain(cache, TAG(tag), flags);
    }
    mc_step("obtain tag %d flags %u -> %s", tag, flags, node ? isnew ? "changed element" : "element" : "none");
    if (!isnew) {
        mc_assert(node == (want < 0 ? NULL : cache->nodes[want]), "obtain of %s tag returned %s",
                  i < 0 ? "an absent" : "a resident", node ? "another element" : "nothing");
        return;
    }
    mc_assert(node, "obtain refused although an element is free or idle");
    i = node_index(node);
    if (nfree)
        mc_assert(m[i].status == BFDEV_CACHE_FREED, "element evicted although free ones exist");
    else {
        mc_assert(m[i].status == BFDEV_CACHE_MANAGED, "evicted an element in use");
        for (j = 0; j < nsize; ++j) {
            if (j == i || m[j].status != BFDEV_CACHE_MANAGED)
                continue;
            if (lfu)
                mc_assert(m[i].count <= m[j].count, "evicted an element used %d times, another was used %d times", m[i].count, m[j].count);
            else
                mc_assert(m[i].age < m[j].age, "evicted an element that is not the least recently used");
        }
    }
    m[i] = (struct mnode){ .status = BFDEV_CACHE_PENDING, .refcnt = 1, .tag = tag };
    pending++;
    node->data = TAG(tag);
}

static void
s_cache(void)
{
    int depth = mc_bound, i, j, t, ret, faults, maxref = 2;

    lfu = mc_arg & 1;
    nsize = mc_arg & 2 ? 4 : 2;
    ntags = mc_arg >> 4 & 15;
    maxpend = 1 + (mc_arg >> 2 & 1);
    maxcount = mc_arg >> 8 & 15;
    for (t = 0; t < NT; ++t)
        hash_of[t] = mc_arg & 8 ? (unsigned long[]){ 7, 7, 7, 1, ~0ul, 0 }[t] : (unsigned long)t * 0x9e3779b97f4a7c15ul;
    memset(m, 0, sizeof(m));
    now = starving = dirty = pending = 0;
    hits = misses = starve = changed = 0;

    mc_fault_budget = mc_arg >> 12;
    faults = mc_faults;
    cache = bfdev_cache_create(lfu ? "lfu" : "lru", &mc_alloc, &ops, nsize - mc_choose(nsize > 2 ? 2 : 1), maxpend, &pdata);
    mc_assert(!cache == (mc_faults != faults), "create failed");
    if (!cache) {
        mc_no_leaks("failed create");
        return;
    }
    mc_fault_budget = 0;
    mc_assert(cache->size == (unsigned)nsize, "capacity is %lu", cache->size);

    for (;;) {
        if (!mc_next(verify(), &depth))
            break;
        switch (mc_choose(6)) {
        case 0: {
            unsigned flags = mc_choose(4);
            t = mc_choose(ntags);
            i = tag_node(t);
            if (i >= 0 && (m[i].refcnt == maxref || (lfu && m[i].count == maxcount)))
                mc_prune();
            obtain(t, flags);
            break;
        }
        case 1: case 2: case 3: {
            int op = mc_choose(3);
            i = mc_choose(nsize);
            if (op == 0) {
                unsigned long r;
                if (!m[i].refcnt && m[i].status == BFDEV_CACHE_USING)
                    mc_fail("model");
                r = bfdev_cache_put(cache, cache->nodes[i]);
                mc_step("put element %d -> %ld", i, (long)r);
                if (m[i].status != BFDEV_CACHE_USING) {
                    mc_assert(r == (unsigned long)-BFDEV_EINVAL, "put of an element not in use returned %ld", (long)r);
                    break;
                }
                m[i].refcnt--;
                mc_assert(r == (unsigned long)m[i].refcnt, "put returned %lu instead of %d", r, m[i].refcnt);
                if (!m[i].refcnt) {
                    m[i].status = BFDEV_CACHE_MANAGED;
                    m[i].age = ++now;
                    starving = 0;
                }
            } else if (op == 1) {
                ret = bfdev_cache_del(cache, cache->nodes[i]);
                mc_step("delete element %d -> %d", i, ret);
                mc_assert(ret == (m[i].status == BFDEV_CACHE_MANAGED ? 0 : -BFDEV_EBUSY), "delete returned %d", ret);
                if (!ret)
                    m[i].status = BFDEV_CACHE_FREED;
            } else {
                t = mc_choose(ntags);
                if (tag_node(t) >= 0 || (lfu && m[i].count == maxcount))
                    mc_prune();
                ret = bfdev_cache_set(cache, cache->nodes[i], TAG(t));
                mc_step("set element %d to tag %d -> %d", i, t, ret);
                mc_assert(ret == (m[i].status == BFDEV_CACHE_MANAGED ? 0 : -BFDEV_EBUSY), "set returned %d", ret);
                if (!ret) {
                    m[i].tag = t;
                    m[i].count++;
                    m[i].age = ++now;
                    cache->nodes[i]->data = TAG(t);
                }
            }
            break;
        }
        case 4:
            mc_step("committed");
            bfdev_cache_committed(cache);
            for (i = 0; i < nsize; ++i) {
                if (m[i].status == BFDEV_CACHE_PENDING) {
                    m[i].status = BFDEV_CACHE_USING;
                    changed++;
                }
            }
            pending = 0;
            break;
        case 5:
            mc_step("reset");
            bfdev_cache_reset(cache);
            memset(m, 0, sizeof(m));
            starving = dirty = pending = 0;
            hits = misses = starve = changed = 0;
            break;
        }
    }
    bfdev_cache_destroy(cache);
    mc_no_leaks("destroyed cache");
}

/* algorithm registry and refused creations */
static bool a_starving(bfdev_cache_head_t *h) { return false; }
static bfdev_cache_node_t *a_obtain(bfdev_cache_head_t *h) { return NULL; }
static void a_node(bfdev_cache_head_t *h, bfdev_cache_node_t *n) { }
static void a_head(bfdev_cache_head_t *h) { }
static int created;
static bfdev_cache_head_t *a_create(const bfdev_alloc_t *a, unsigned long s) { created++; return NULL; }

static void
s_registry(void)
{
    static const char *const names[] = { "mine", "lru", "other" };
    bfdev_cache_algo_t algo[2];
    bool reg[2] = { false, false };
    int depth = 5, i, ret, want;

    for (i = 0; i < 2; ++i)
        algo[i] = (bfdev_cache_algo_t) {
            .name = names[mc_choose(3)], .starving = a_starving, .obtain = a_obtain, .get = a_node, .put = a_node,
            .reset = a_head, .create = a_create, .destroy = a_head,
        };
    switch (mc_choose(9)) {
    case 1: algo[0].starving = NULL; break;
    case 2: algo[0].obtain = NULL; break;
    case 3: algo[0].get = NULL; break;
    case 4: algo[0].put = NULL; break;
    case 5: algo[0].reset = NULL; break;
    case 6: algo[0].create = NULL; break;
    case 7: algo[0].destroy = NULL; break;
    case 8: algo[0].name = NULL; break;
    }
    want = !algo[0].starving || !algo[0].obtain || !algo[0].get || !algo[0].put || !algo[0].reset ||
           !algo[0].create || !algo[0].destroy || !algo[0].name;
    while (depth--) {
        i = mc_choose(2);
        if (mc_choose(2)) {
            ret = bfdev_cache_register(&algo[i]);
            mc_step("register %d -> %d", i, ret);
            if (!i && want)
                mc_assert(ret == -BFDEV_EINVAL, "incomplete algorithm accepted");
            else if (!strcmp(algo[i].name, "lru") || reg[i] || (reg[!i] && !strcmp(algo[i].name, algo[!i].name)))
                mc_assert(ret == -BFDEV_EALREADY, "second algorithm of that name returned %d", ret);
            else {
                mc_assert(!ret, "register returned %d", ret);
                reg[i] = true;
            }
        } else {
            ret = bfdev_cache_unregister(&algo[i]);
            mc_step("unregister %d -> %d", i, ret);
            mc_assert(ret == (reg[i] ? 0 : -BFDEV_ENOENT), "unregister returned %d", ret);
            reg[i] = false;
        }
        for (i = 0; i < 2; ++i) {
            const char *name = algo[i].name;
            if (!name || !strcmp(name, "lru"))
                continue;
            created = 0;
            mc_assert(!bfdev_cache_create(name, &mc_alloc, &ops, 4, 1, NULL), "created");
            mc_assert(created == (reg[i] || (reg[!i] && !strcmp(name, algo[!i].name))), "algorithm lookup of %s", name);
        }
    }
    for (i = 0; i < 2; ++i)
        if (reg[i])
            mc_assert(!bfdev_cache_unregister(&algo[i]), "unregister");
    mc_assert(!bfdev_cache_create("lru", &mc_alloc, &ops, 1, 1, NULL), "cache of one element");
    mc_assert(!bfdev_cache_create("lru", &mc_alloc, &(bfdev_cache_ops_t){ .find = my_find }, 4, 1, NULL), "cache without hash");
    mc_assert(!bfdev_cache_create("lru", &mc_alloc, &(bfdev_cache_ops_t){ .hash = my_hash }, 4, 1, NULL), "cache without find");
    mc_no_leaks("refused creation");
    mc_case(mc_mix(reg[0] * 2 + reg[1], want));
}

#define A(lfu, big, pend2, coll, tags, cnt) ((lfu) | (big) << 1 | (pend2) << 2 | (coll) << 3 | (tags) << 4 | (cnt) << 8)
const mc_scenario_t mc_scenarios[] = {
    { "lru-2", s_cache, { 60, 60 }, A(0, 0, 0, 0, 3, 0) },
    { "lru-2-pending2", s_cache, { 60, 60 }, A(0, 0, 1, 1, 3, 0) },
    { "lfu-2", s_cache, { 60, 60 }, A(1, 0, 0, 0, 3, 3) },
    { "lfu-2-pending2", s_cache, { 60, 60 }, A(1, 0, 1, 1, 3, 2) },
    { "lru-4", s_cache, { 10, 60 }, A(0, 1, 0, 1, 5, 0) },
    { "lfu-4", s_cache, { 10, 60 }, A(1, 1, 0, 1, 5, 2) },
    { "lru-4-faults", s_cache, { 1, 2 }, A(0, 1, 0, 1, 5, 0) | 1 << 12 },
    { "lfu-4-faults", s_cache, { 1, 2 }, A(1, 1, 0, 1, 5, 0) | 1 << 12 },
    { "registry", s_registry, { 0, 0 }, 0, 3 },
    { NULL }
};
