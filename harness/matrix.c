/*
 * Matrices: every operation over all shapes up to 3x3 and value patterns,
 * every aliasing, every previous destination, with allocation failures.
 */
#include "mc.h"
#include <bfdev/matrix.h>

typedef BFDEV_MATRIX_TYPE val_t;
#define DIM 3

struct ref { unsigned r, c; val_t v[DIM][DIM]; };

static const val_t fillv[] = { 0, 1, 3, (val_t)-1 };
static const val_t distinct[] = { 2, 3, 5, 7, 11, 13, 17, 19, (val_t)1 << 63 };

static void
choose_values(struct ref *m, unsigned r, unsigned c)
{
    unsigned n = r * c, i, k;
    memset(m, 0, sizeof(*m));
    m->r = r;
    m->c = c;
    if (n <= (mc_thorough ? 4u : 3u)) {
        for (i = 0; i < n; ++i)
            m->v[i / c][i % c] = fillv[mc_choose(4)];
        return;
    }
    k = mc_choose(n + 2);
    for (i = 0; i < n; ++i)
        m->v[i / c][i % c] = k < n ? (i == k ? distinct[k] : 0) : k == n ? distinct[i] : (val_t)-1 - i;
}

static void
load(bfdev_matrix_t *m, const struct ref *ref)
{
    val_t flat[DIM * DIM];
    unsigned i, j;
    int save = mc_fault_budget;
    for (i = 0; i < ref->r; ++i)
        for (j = 0; j < ref->c; ++j)
            flat[i * ref->c + j] = ref->v[i][j];
    mc_fault_budget = 0;
    mc_assert(!bfdev_matrix_import(m, flat, ref->r, ref->c), "import failed");
    mc_fault_budget = save;
}

static void
same(bfdev_matrix_t *m, const struct ref *ref, const char *what)
{
    unsigned i, j;
    const val_t *p;
    mc_assert(m->row == ref->r && m->col == ref->c, "%s: shape %ux%u instead of %ux%u", what, m->row, m->col, ref->r, ref->c);
    for (i = 0; i < DIM + 1; ++i) {
        for (j = 0; j < DIM + 1; ++j) {
            p = bfdev_matrix_data(m, i, j);
            if (i >= ref->r || j >= ref->c) {
                mc_assert(!p, "%s: element (%u,%u) outside the matrix", what, i, j);
                continue;
            }
            mc_assert(p && *p == ref->v[i][j], "%s: element (%u,%u) is %#lx instead of %#lx", what, i, j,
                      p ? (long)*p : -1, (long)ref->v[i][j]);
        }
    }
}

static bfdev_matrix_t ma, mb, md;

static void
s_matrix(void)
{
    struct ref a, b, want, old = { 0 };
    unsigned op, alias, r, c, i, j, k;
    bfdev_matrix_t *dest, *vb;
    int ret, bad, faults;

    bfdev_matrix_init(&ma, &mc_alloc);
    bfdev_matrix_init(&mb, &mc_alloc);
    md = BFDEV_MATRIX_INIT(&mc_alloc);
    mc_fault_budget = 0;

    op = mc_choose(5);
    r = 1 + mc_choose(DIM);
    c = 1 + mc_choose(DIM);
    choose_values(&a, r, c);
    load(&ma, &a);
    memset(&b, 0, sizeof(b));
    if (op < 3) {
        r = 1 + mc_choose(DIM);
        c = 1 + mc_choose(DIM);
        if ((op < 2 && (a.r != r || a.c != c)) || (op == 2 && a.c != r)) {
            b.r = r;
            b.c = c;        /* incompatible: values do not matter */
        } else
            choose_values(&b, r, c);
        load(&mb, &b);
    }
    /* dest: fresh, fresh but used before, va, vb, all the same */
    alias = mc_choose(op < 3 ? 6 : 3);
    dest = &md;
    vb = &mb;
    if (alias == 1) {
        old.r = 3, old.c = 3;
        old.v[1][2] = 77;
    } else if (alias == 2) {
        old.r = 1, old.c = 2;
        old.v[0][1] = 78;
    } else if (alias == 3) {
        dest = &ma;
        old = a;
    } else if (alias == 4) {
        dest = &mb;
        old = b;
    } else if (alias == 5) {
        dest = vb = &ma;
        old = b = a;
    }
    if (alias == 1 || alias == 2)
        load(dest, &old);

    memset(&want, 0, sizeof(want));
    bad = 0;
    mc_fault_budget = mc_arg;
    faults = mc_faults;
    switch (op) {
    case 0: case 1:
        bad = a.r != b.r || a.c != b.c;
        want.r = a.r, want.c = a.c;
        for (i = 0; i < DIM; ++i)
            for (j = 0; j < DIM; ++j)
                want.v[i][j] = op ? a.v[i][j] - b.v[i][j] : a.v[i][j] + b.v[i][j];
        ret = (op ? bfdev_matrix_sub : bfdev_matrix_add)(dest, &ma, vb);
        break;
    case 2:
        bad = a.c != b.r;
        want.r = a.r, want.c = b.c;
        for (i = 0; i < DIM; ++i)
            for (j = 0; j < DIM; ++j)
                for (k = 0; k < DIM; ++k)
                    want.v[i][j] += a.v[i][k] * b.v[k][j];
        ret = bfdev_matrix_mul(dest, &ma, vb);
        break;
    case 3:
        want.r = a.c, want.c = a.r;
        for (i = 0; i < DIM; ++i)
            for (j = 0; j < DIM; ++j)
                want.v[i][j] = a.v[j][i];
        ret = bfdev_matrix_trans(dest, &ma);
        break;
    default:
        want = a;
        ret = bfdev_matrix_set(dest, &ma);
    }
    mc_fault_budget = 0;
    mc_step("%s of %ux%u and %ux%u, destination %u -> %d",
            ((const char *[]){ "add", "sub", "mul", "trans", "set" })[op], a.r, a.c, b.r, b.c, alias, ret);
    mc_case(mc_mix(mc_mix(mc_mix(op, alias), a.r * 64 + a.c * 16 + b.r * 4 + b.c),
            mc_mix_bytes(mc_mix_bytes(ret, &a, sizeof(a)), &b, sizeof(b))));
    if (bad)
        mc_assert(ret == -BFDEV_EINVAL, "incompatible shapes returned %d", ret);
    else
        mc_assert(ret == (mc_faults != faults ? -BFDEV_ENOMEM : 0), "operation returned %d", ret);
    if (ret && old.r)
        same(dest, &old, "refused operation changed the destination");
    else if (ret)
        mc_assert(!dest->row && !dest->col, "refused operation gave the destination a shape");
    else
        same(dest, &want, "result");
    if (dest != &ma)
        same(&ma, &a, "first operand");
    if (op < 3 && dest != &mb && vb == &mb)
        same(&mb, &b, "second operand");
    bfdev_matrix_release(&ma);
    bfdev_matrix_release(&mb);
    bfdev_matrix_release(&md);
    mc_no_leaks("released matrices");
}

/*
 * Every shape of up to 64 cells: the larger ones fill their storage to the
 * last cell, whatever the granularity it is allocated with.
 */
static void
s_shapes(void)
{
    static val_t a[64], b[64], c[64], want[64];
    unsigned op, r, k, cc, i, j, t, again;
    bfdev_matrix_t *dest;
    int ret;

    bfdev_matrix_init(&ma, &mc_alloc);
    bfdev_matrix_init(&mb, &mc_alloc);
    bfdev_matrix_init(&md, &mc_alloc);
    op = mc_choose(5);
    r = 1 + mc_choose(64);
    k = 1 + mc_choose(64 / r);
    cc = op == 2 ? 1 + mc_choose(64 / (r > k ? r : k)) : k;
    again = mc_choose(2);
    for (i = 0; i < 64; ++i) {
        a[i] = i * 3 + 1;
        b[i] = (val_t)7 << (i % 60);
    }
    mc_assert(!bfdev_matrix_import(&ma, a, r, k), "import failed");
    dest = &md;
    /* 0: destination fresh, 1: the destination is the first operand */
    if (again && op != 3)
        dest = &ma;
    memset(want, 0, sizeof(want));
    switch (op) {
    case 0: case 1:
        mc_assert(!bfdev_matrix_import(&mb, b, r, k), "import failed");
        for (i = 0; i < r * k; ++i)
            want[i] = op ? a[i] - b[i] : a[i] + b[i];
        ret = (op ? bfdev_matrix_sub : bfdev_matrix_add)(dest, &ma, &mb);
        break;
    case 2:
        mc_assert(!bfdev_matrix_import(&mb, b, k, cc), "import failed");
        for (i = 0; i < r; ++i)
            for (j = 0; j < cc; ++j)
                for (t = 0; t < k; ++t)
                    want[i * cc + j] += a[i * k + t] * b[t * cc + j];
        ret = bfdev_matrix_mul(dest, &ma, &mb);
        break;
    case 3:
        for (i = 0; i < r; ++i)
            for (j = 0; j < k; ++j)
                want[j * r + i] = a[i * k + j];
        ret = bfdev_matrix_trans(dest, &ma);
        cc = r;
        r = k;
        break;
    default:
        memcpy(want, a, r * k * sizeof(*a));
        ret = bfdev_matrix_set(dest, &ma);
    }
    mc_step("%s of %ux%u -> %d", ((const char *[]){ "add", "sub", "mul", "trans", "set" })[op], r, cc, ret);
    mc_case(mc_mix(mc_mix(mc_mix(op, again), r * 64 + k), cc));
    mc_assert(!ret, "operation returned %d", ret);
    mc_assert(dest->row == r && dest->col == cc, "shape %ux%u instead of %ux%u", dest->row, dest->col, r, cc);
    memset(c, 0, sizeof(c));
    for (i = 0; i < r; ++i) {
        for (j = 0; j < cc; ++j) {
            const val_t *p = bfdev_matrix_data(dest, i, j);
            mc_assert(p && *p == want[i * cc + j], "element (%u,%u) is %#lx instead of %#lx", i, j,
                      p ? (long)*p : -1, (long)want[i * cc + j]);
        }
        mc_assert(!bfdev_matrix_data(dest, i, cc), "element (%u,%u) outside the matrix", i, cc);
    }
    mc_assert(!bfdev_matrix_data(dest, r, 0), "element (%u,0) outside the matrix", r);
    bfdev_matrix_release(&ma);
    bfdev_matrix_release(&mb);
    bfdev_matrix_release(&md);
    mc_no_leaks("released matrices");
}

/* shapes around 2^8 and 2^16 rows, columns and cells */
static void
s_large(void)
{
    static const unsigned dims[][3] = {
        { 1, 255, 1 }, { 1, 256, 2 }, { 257, 1, 257 }, { 16, 16, 16 }, { 17, 16, 15 }, { 256, 3, 2 }, { 3, 257, 5 }, { 5, 2, 300 }, { 70, 80, 90 },
        { 255, 257, 1 }, { 256, 256, 2 }, { 300, 300, 3 }, { 1, 65535, 1 }, { 1, 65536, 1 }, { 65537, 1, 2 }, { 2, 40000, 1 }, { 70001, 1, 1 },
    };
    const unsigned *d = dims[mc_choose(MC_ARRAY_SIZE(dims))];
    unsigned op = mc_choose(5), r = d[0], k = d[1], cc = op == 2 ? d[2] : k, i, j, t;
    bool again = mc_choose(2);
    bfdev_matrix_t *dest = &md;
    val_t *a, *b, want;
    int ret;

    if (op == 2 && again && (unsigned long)r * k * cc > 100000)
        mc_prune();
    bfdev_matrix_init(&ma, &mc_alloc);
    bfdev_matrix_init(&mb, &mc_alloc);
    bfdev_matrix_init(&md, &mc_alloc);
    a = mc_malloc((size_t)r * k * sizeof(*a));
    b = mc_malloc((size_t)(op == 2 ? k * cc : r * k) * sizeof(*b));
    for (i = 0; i < r * k; ++i)
        a[i] = i * 3 + 1;
    for (i = 0; i < (op == 2 ? k * cc : r * k); ++i)
        b[i] = (val_t)7 << (i % 60);
    mc_assert(!bfdev_matrix_import(&ma, a, r, k), "import failed");
    mc_assert(!bfdev_matrix_import(&mb, b, op == 2 ? k : r, cc), "import failed");
    if (again && op != 3)
        dest = &ma;
    switch (op) {
    case 0: ret = bfdev_matrix_add(dest, &ma, &mb); break;
    case 1: ret = bfdev_matrix_sub(dest, &ma, &mb); break;
    case 2: ret = bfdev_matrix_mul(dest, &ma, &mb); break;
    case 3: ret = bfdev_matrix_trans(dest, &ma); cc = r; r = k; break;
    default: ret = bfdev_matrix_set(dest, &ma);
    }
    mc_step("%s of %ux%u -> %d", ((const char *[]){ "add", "sub", "mul", "trans", "set" })[op], r, cc, ret);
    mc_case(mc_mix(mc_mix(op, again), r * 100003UL + cc));
    mc_assert(!ret, "operation returned %d", ret);
    mc_assert(dest->row == r && dest->col == cc, "shape %ux%u instead of %ux%u", dest->row, dest->col, r, cc);
    for (i = 0; i < r; ++i)
        for (j = 0; j < cc; ++j) {
            const val_t *p = bfdev_matrix_data(dest, i, j);

            switch (op) {
            case 0: want = a[i * cc + j] + b[i * cc + j]; break;
            case 1: want = a[i * cc + j] - b[i * cc + j]; break;
            case 2:
                for (want = t = 0; t < k; ++t)
                    want += a[i * k + t] * b[t * cc + j];
                break;
            case 3: want = a[j * r + i]; break;
            default: want = a[i * cc + j];
            }
            mc_assert(p && *p == want, "element (%u,%u) is %#lx instead of %#lx", i, j, p ? (long)*p : -1, (long)want);
        }
    mc_assert(!bfdev_matrix_data(dest, r, 0) && !bfdev_matrix_data(dest, 0, cc), "element outside the matrix");
    bfdev_matrix_release(&ma);
    bfdev_matrix_release(&mb);
    bfdev_matrix_release(&md);
    mc_no_leaks("released matrices");
}

/* products of 2^32 cells and more, with memory for far fewer: refused, never cut short */
static void
s_beyond(void)
{
    static const unsigned dims[][2] = {
        { 65536, 65536 }, { 65537, 65537 }, { 65536, 65537 }, { 131072, 32768 }, { 131073, 32769 }, { 1U << 20, 4096 }, { 4096, (1U << 20) + 1 },
    };
    const unsigned *d = dims[mc_choose(MC_ARRAY_SIZE(dims))];
    unsigned alias = mc_choose(4), i;
    bfdev_matrix_t *dest = alias == 2 ? &ma : alias == 3 ? &mb : &md;
    struct ref old = { 0 };
    val_t *a;
    int ret;

    bfdev_matrix_init(&ma, &mc_alloc);
    bfdev_matrix_init(&mb, &mc_alloc);
    bfdev_matrix_init(&md, &mc_alloc);
    mc_alloc_limit = 64UL << 20;
    a = mc_malloc((size_t)(d[0] > d[1] ? d[0] : d[1]) * sizeof(*a));
    for (i = 0; i < d[0] || i < d[1]; ++i)
        a[i] = i + 1;
    mc_assert(!bfdev_matrix_import(&ma, a, d[0], 1), "import failed");
    mc_assert(!bfdev_matrix_import(&mb, a, 1, d[1]), "import failed");
    if (alias == 1) {
        old.r = 2, old.c = 3;
        old.v[1][2] = 77;
        load(&md, &old);
    }
    ret = bfdev_matrix_mul(dest, &ma, &mb);
    mc_step("mul of %ux1 and 1x%u -> %d", d[0], d[1], ret);
    mc_case(mc_mix(d[0], d[1]) + alias);
    mc_assert(ret == -BFDEV_ENOMEM, "a product of %u rows and %u columns returned %d with memory for a thousandth of it", d[0], d[1], ret);
    if (alias == 1)
        same(&md, &old, "refused product changed the destination");
    else if (!alias)
        mc_assert(!md.row && !md.col, "refused product gave the destination a shape");
    mc_assert(ma.row == d[0] && ma.col == 1 && mb.row == 1 && mb.col == d[1], "refused product changed an operand's shape");
    for (i = 0; i < d[0]; ++i)
        mc_assert(*bfdev_matrix_data(&ma, i, 0) == a[i], "refused product changed row %u of the first operand", i);
    for (i = 0; i < d[1]; ++i)
        mc_assert(*bfdev_matrix_data(&mb, 0, i) == a[i], "refused product changed column %u of the second operand", i);
    bfdev_matrix_release(&ma);
    bfdev_matrix_release(&mb);
    bfdev_matrix_release(&md);
    mc_no_leaks("released matrices");
}

/* import of shapes whose cells cannot exist */
static void
s_import_beyond(void)
{
    static const unsigned dims[] = { 1, 2, 3, 4096, 65535, 65536, 65537, 1U << 20, 0x7fffffff, 0x80000000, 0x80000001, 0xfffffffe, 0xffffffff };
    unsigned r = dims[mc_choose(MC_ARRAY_SIZE(dims))], c = dims[mc_choose(MC_ARRAY_SIZE(dims))];
    struct ref old = { 0 };
    val_t buf[4] = { 1, 2, 3, 4 };
    int ret;

    if ((unsigned long)r * c <= 1UL << 24)
        mc_prune();
    bfdev_matrix_init(&ma, &mc_alloc);
    mc_alloc_limit = 64UL << 20;
    if (mc_choose(2)) {
        old.r = 2, old.c = 3;
        old.v[1][2] = 77;
        load(&ma, &old);
    }
    ret = bfdev_matrix_import(&ma, buf, r, c);
    mc_step("import of %ux%u -> %d", r, c, ret);
    mc_case(mc_mix(r, c) + old.r);
    mc_assert(ret == -BFDEV_ENOMEM || ret == -BFDEV_EOVERFLOW, "an import of %u rows and %u columns returned %d with memory for 64 MB", r, c, ret);
    if (old.r)
        same(&ma, &old, "refused import changed the matrix");
    else
        mc_assert(!ma.row && !ma.col, "refused import gave the matrix a shape");
    bfdev_matrix_release(&ma);
    mc_no_leaks("released matrices");
}

const mc_scenario_t mc_scenarios[] = {
    { "matrix", s_matrix, { 0, 0 }, 0, 4 },
    { "matrix-faults", s_matrix, { 0, 0 }, 1, 4 },
    { "large", s_large, { 0, 0 }, 0, 2 },
    { "beyond", s_beyond, { 0, 0 }, 0, 1 },
    { "import-beyond", s_import_beyond, { 0, 0 }, 0, 1 },
    { "every-shape", s_shapes, { 0, 0 }, 0, 2 },
    { NULL }
};
