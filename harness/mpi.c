/*
 * Big integers: every pair of operands built from boundary words, both signs,
 * every aliasing of destinations and operands, against schoolbook arithmetic.
 */
#include "mc.h"
#include "bignum.h"
#include <bfdev/mpi.h>

#define MAXVAL 4000
typedef struct { int n; unsigned long w[4]; } val_t;
static val_t vals[MAXVAL];
static int nvals, built_words, built_len;

static const unsigned long words_all[] = { 0, 1, ~0UL, 1UL << 63, ~0UL - 1, 2, 0xffffffff00000000UL, 0x100000000UL, 0xffffffffUL, ~0UL >> 1, 3, (1UL << 63) + 1 };

/* every normalised number of up to len words of the first nw boundary words */
static void build(int nw, int len)
{
    int l, i, k, total;

    if (built_words == nw && built_len == len)
        return;
    built_words = nw;
    built_len = len;
    nvals = 0;
    for (l = 0; l <= len; l++) {
        for (total = 1, k = 0; k < l; k++)
            total *= nw;
        for (i = 0; i < total; i++) {
            val_t *v = &vals[nvals];
            int x = i;

            v->n = l;
            for (k = 0; k < l; k++, x /= nw)
                v->w[k] = words_all[x % nw];
            if (l && !v->w[l - 1])
                continue;
            mc_assert(++nvals < MAXVAL, "too many values");
        }
    }
}

static void load(bfdev_mpi_t *m, bn_t *b, const val_t *v, bool neg)
{
    mc_assert(!bfdev_mpi_import(m, v->w, v->n, !neg), "import");
    bn_words(b, v->w, v->n, neg);
}

static void expect(const bfdev_mpi_t *m, const bn_t *b, const char *what)
{
    unsigned long n = bfdev_mpi_length(m);
    const unsigned long *w;
    bool plus, same;
    bn_t got;

    w = bfdev_mpi_data(m, &plus);
    mc_assert(n < BN_MAX / 2, "%s: length %lu", what, n);
    bn_words(&got, w, n ?: 1, !plus);
    same = got.n == b->n && !memcmp(got.w, b->w, b->n * 4) && got.neg == b->neg;
    if (!same) {
        char s[1200], t[1200];

        bn_print(s, sizeof(s), &got);
        bn_print(t, sizeof(t), b);
        mc_fail("%s is %s, expected %s", what, s, t);
    }
    mc_assert(!n || w[n - 1], "%s is not normalised: leading zero word", what);
    mc_assert(n == (unsigned long)(b->n + 1) / 2, "%s has length %lu", what, n);
    mc_assert(n || plus, "%s is a negative zero", what);
    mc_assert(bfdev_mpi_size(m) == n * 8, "%s: size", what);
}

enum { ADD, SUB, MUL, AND, OR, XOR, DIV, MOD, CMP, NOP };
static const char *const opname[] = { "add", "sub", "mul", "and", "or", "xor", "div", "mod", "cmp" };

static void compute(int op, bn_t *r, const bn_t *a, const bn_t *b)
{
    switch (op) {
    case ADD: bn_add(r, a, b, false); break;
    case SUB: bn_add(r, a, b, true); break;
    case MUL: bn_mul(r, a, b); break;
    default: bn_bits(r, a, b, op - AND); break;
    }
}

static int call(int op, bfdev_mpi_t *d, const bfdev_mpi_t *a, const bfdev_mpi_t *b)
{
    switch (op) {
    case ADD: return bfdev_mpi_add(d, a, b);
    case SUB: return bfdev_mpi_sub(d, a, b);
    case MUL: return bfdev_mpi_mul(d, a, b);
    case AND: return bfdev_mpi_and(d, a, b);
    case OR: return bfdev_mpi_or(d, a, b);
    default: return bfdev_mpi_xor(d, a, b);
    }
}

/* q * b + r == a, r smaller than b with the sign of a */
static void expect_division(const bfdev_mpi_t *q, const bfdev_mpi_t *r, const bn_t *a, const bn_t *b)
{
    bn_t bq = { 0 }, br = { 0 }, x;
    const unsigned long *w;
    bool plus;

    if (r) {
        w = bfdev_mpi_data(r, &plus);
        mc_assert(bfdev_mpi_length(r) < BN_MAX / 2, "remainder length");
        bn_words(&br, w, bfdev_mpi_length(r) ?: 1, !plus);
        expect(r, &br, "remainder");        /* well formed */
        mc_assert(bn_cmp_mag(&br, b) < 0, "the remainder is not smaller than the divisor");
        mc_assert(!br.n || br.neg == a->neg, "the remainder does not have the sign of the dividend");
    }
    if (q) {
        w = bfdev_mpi_data(q, &plus);
        mc_assert(bfdev_mpi_length(q) < BN_MAX / 2, "quotient length");
        bn_words(&bq, w, bfdev_mpi_length(q) ?: 1, !plus);
        expect(q, &bq, "quotient");
        mc_assert(!bq.n || bq.neg == (a->neg != b->neg), "sign of the quotient");
    }
    if (q && r) {
        bn_mul(&x, &bq, b);
        bn_add(&x, &x, &br, false);
        mc_assert(!bn_cmp(&x, a), "quotient * divisor + remainder is not the dividend");
    } else if (q) {
        /* 0 <= |a| - |q * b| < |b| */
        bn_mul(&x, &bq, b);
        mc_assert(bn_cmp_mag(&x, a) <= 0, "the quotient is too large");
        bn_add(&x, a, &x, true);
        mc_assert(bn_cmp_mag(&x, b) < 0, "the quotient is too small");
    }
}

/* the remainder alone: compare with the one division gave */
static void check_binary(int op, bfdev_mpi_t *a, bfdev_mpi_t *b, const bn_t *ba, const bn_t *bb, int alias, const bn_t *expected_rem)
{
    BFDEV_DEFINE_MPI(d, &mc_alloc);
    BFDEV_DEFINE_MPI(e, &mc_alloc);
    static const unsigned long junk[] = { 7, 8, 9, 10, 11 };
    bfdev_mpi_t *pd, *pe, *pb = b;
    bn_t r;
    int ret;

    /* alias: destination in 3 bits, second destination in 3 bits, a == b in bit 6 */
    if (alias >> 6 & 1)
        pb = a;
    switch (alias & 7) {
    case 0: pd = &d; break;
    case 1: pd = &d; mc_assert(!bfdev_mpi_import(&d, junk, 5, false), "import"); break;
    case 2: pd = a; break;
    default: pd = b; break;
    }
    switch (alias >> 3 & 7) {
    case 0: pe = &e; break;
    case 1: pe = a; break;
    case 2: pe = b; break;
    default: pe = pd; break;
    }
    if (op == DIV) {
        ret = bfdev_mpi_div(pd, pe, a, pb);
        if (!bb->n) {
            mc_assert(ret, "division by zero succeeds");
            expect(a, ba, "dividend after refused division");
            expect(b, bb, "divisor after refused division");
        } else {
            mc_assert(!ret, "div = %d", ret);
            expect_division(pd, pe == pd ? NULL : pe, ba, bb);
        }
    } else if (op == MOD) {
        ret = bfdev_mpi_mod(pd, a, pb);
        if (!bb->n) {
            mc_assert(ret, "modulo zero succeeds");
            expect(a, ba, "dividend after refused modulo");
            expect(b, bb, "divisor after refused modulo");
        } else {
            mc_assert(!ret, "mod = %d", ret);
            expect_division(NULL, pd, ba, bb);
            /* and it is the right one: agrees with the proven one of div */
            BFDEV_DEFINE_MPI(q, &mc_alloc);
            BFDEV_DEFINE_MPI(m, &mc_alloc);
            BFDEV_DEFINE_MPI(x, &mc_alloc);
            BFDEV_DEFINE_MPI(y, &mc_alloc);
            unsigned long w[BN_MAX / 2];
            int i;

            for (i = 0; i < (ba->n + 1) / 2; i++)
                w[i] = (unsigned long)bn_limb(ba, 2 * i + 1) << 32 | ba->w[2 * i];
            mc_assert(!bfdev_mpi_import(&x, w, i, !ba->neg), "import");
            for (i = 0; i < (bb->n + 1) / 2; i++)
                w[i] = (unsigned long)bn_limb(bb, 2 * i + 1) << 32 | bb->w[2 * i];
            mc_assert(!bfdev_mpi_import(&y, w, i, !bb->neg), "import");
            mc_assert(!bfdev_mpi_div(&q, &m, &x, &y), "div");
            expect_division(&q, &m, ba, bb);
            mc_assert(!bfdev_mpi_cmp(pd, &m), "mod and div disagree about the remainder");
            bfdev_mpi_release(&q);
            bfdev_mpi_release(&m);
            bfdev_mpi_release(&x);
            bfdev_mpi_release(&y);
        }
    } else {
        compute(op, &r, ba, alias >> 6 & 1 ? ba : bb);
        ret = call(op, pd, a, pb);
        mc_assert(!ret, "%s = %d", opname[op], ret);
        expect(pd, &r, "result");
    }
    if (pd != a && pe != a)
        expect(a, ba, "first operand afterwards");
    if (pd != b && pe != b)
        expect(b, bb, "second operand afterwards");
    bfdev_mpi_release(&d);
    bfdev_mpi_release(&e);
}

#define ALIAS(d, e, same) ((d) | (e) << 3 | (same) << 6)
static const int alias_two[] = { ALIAS(0, 0, 0), ALIAS(1, 0, 0), ALIAS(2, 0, 0), ALIAS(3, 0, 0), ALIAS(0, 0, 1), ALIAS(2, 0, 1) };
static const int alias_div[] = {
    ALIAS(0, 0, 0), ALIAS(1, 0, 0), ALIAS(2, 0, 0), ALIAS(3, 0, 0), ALIAS(0, 1, 0), ALIAS(0, 2, 0), ALIAS(2, 2, 0), ALIAS(3, 1, 0),
    ALIAS(0, 3, 0), ALIAS(2, 3, 0), ALIAS(3, 3, 0),
    ALIAS(0, 0, 1), ALIAS(2, 0, 1), ALIAS(0, 1, 1), ALIAS(2, 3, 1),
};

static void describe(int op, int alias)
{
    static const char *const dst[] = { "a new number", "a used number", "the first operand", "the second operand" };
    static const char *const rem[] = { "a new number", "the first operand", "the second operand", "the same number" };

    mc_step("%s%s into %s%s%s", opname[op], alias >> 6 ? " (both operands the same object)" : "", dst[alias & 7],
        op == DIV ? ", remainder into " : "", op == DIV ? rem[alias >> 3 & 7] : "");
}

static void pair(const val_t *va, bool na, const val_t *vb, bool nb, bool dividing)
{
    BFDEV_DEFINE_MPI(a, &mc_alloc);
    BFDEV_DEFINE_MPI(b, &mc_alloc);
    char s[200], t[200];
    bn_t ba, bb;
    int op, al, n;

    op = dividing ? DIV + mc_choose(2) : mc_choose(7);
    if (op == DIV && !dividing)
        op = CMP;
    load(&a, &ba, va, na);
    load(&b, &bb, vb, nb);
    bn_print(s, sizeof(s), &ba);
    bn_print(t, sizeof(t), &bb);
    mc_step("%s and %s", s, t);
    expect(&a, &ba, "imported number");
    expect(&b, &bb, "imported number");
    mc_case(mc_mix(mc_mix_bytes(mc_mix_bytes(op, va, sizeof(*va)), vb, sizeof(*vb)), na * 2 + nb));
    if (op == CMP) {
        int c = bfdev_mpi_cmp(&a, &b), want = bn_cmp(&ba, &bb);

        mc_step("compare");
        mc_assert((c > 0) - (c < 0) == want, "cmp = %d, expected %d", c, want);
    } else {
        n = op == DIV ? MC_ARRAY_SIZE(alias_div) : MC_ARRAY_SIZE(alias_two);
        al = mc_choose(n);
        al = op == DIV ? alias_div[al] : alias_two[al];
        if (al >> 6 && (va != vb || na != nb))
            mc_prune();
        describe(op, al);
        check_binary(op, &a, &b, &ba, &bb, al, NULL);
    }
    bfdev_mpi_release(&a);
    bfdev_mpi_release(&b);
    mc_no_leaks("mpi");
}

static void s_pairs(void)
{
    const val_t *va, *vb;
    bool na, nb;

    build(mc_arg, mc_bound);
    va = &vals[mc_choose(nvals)];
    vb = &vals[mc_choose(nvals)];
    na = va->n && mc_choose(2);
    nb = vb->n && mc_choose(2);
    pair(va, na, vb, nb, false);
}

/* dividend up to four words, divisor up to three; also quotient * divisor + 0, 1, divisor - 1 */
static void s_div(void)
{
    static val_t exact;
    const val_t *va, *vb;
    bool na, nb;

    build(mc_arg, mc_bound);
    vb = &vals[mc_choose(nvals)];
    va = &vals[mc_choose(nvals)];
    if (vb->n && mc_choose(2)) {
        bn_t q, d, p;
        static const unsigned long one = 1;
        int i;

        bn_words(&q, va->w, va->n, false);
        bn_words(&d, vb->w, vb->n, false);
        bn_mul(&p, &q, &d);
        switch (mc_choose(3)) {
        case 1: bn_words(&q, &one, 1, false); bn_add(&p, &p, &q, false); break;
        case 2: bn_words(&q, &one, 1, false); bn_add(&p, &p, &d, false); bn_add(&p, &p, &q, true); break;
        }
        if ((p.n + 1) / 2 > 4)
            mc_prune();
        memset(&exact, 0, sizeof(exact));
        exact.n = (p.n + 1) / 2;
        for (i = 0; i < exact.n; i++)
            exact.w[i] = (unsigned long)bn_limb(&p, 2 * i + 1) << 32 | p.w[2 * i];
        va = &exact;
    }
    na = va->n && mc_choose(2);
    nb = vb->n && mc_choose(2);
    pair(va, na, vb, nb, true);
}

enum { ADDI, SUBI, MULI, DIVI, MODI, SHLI, SHRI, BSETI, BCLRI, BTESTI, CMPI, SETI, SET, NIMM };
static const char *const immname[] = { "addi", "subi", "muli", "divi", "modi", "shli", "shri", "bseti", "bclri", "btesti", "cmpi", "seti", "set" };

static void s_immediate(void)
{
    static const unsigned long shifts[] = { 0, 1, 31, 32, 63, 64, 65, 127, 128, 129, 191, 192, 200, 256 };
    static const unsigned long junk[] = { 7, 8, 9, 10, 11 };
    BFDEV_DEFINE_MPI(a, &mc_alloc);
    BFDEV_DEFINE_MPI(d, &mc_alloc);
    BFDEV_DEFINE_MPI(e, &mc_alloc);
    bfdev_mpi_t *pd, *pe;
    unsigned long vi;
    bn_t ba, bi, r, bit;
    const val_t *v;
    char s[200];
    bool neg;
    int op, alias, ret, want;

    build(mc_arg, mc_bound);
    v = &vals[mc_choose(nvals)];
    neg = v->n && mc_choose(2);
    op = mc_choose(NIMM);
    if (op >= SHLI && op <= BTESTI)
        vi = shifts[mc_choose(MC_ARRAY_SIZE(shifts))];
    else
        vi = op == SET ? 0 : words_all[mc_choose(MC_ARRAY_SIZE(words_all))];
    alias = op >= BSETI && op <= CMPI ? 2 : mc_choose(op == DIVI ? 7 : 3);
    load(&a, &ba, v, neg);
    bn_words(&bi, &vi, 1, false);
    bn_print(s, sizeof(s), &ba);
    mc_step("%s with %#lx into %s%s", s, vi, alias == 0 || alias == 3 ? "a new number" : alias == 1 || alias == 4 ? "a used number" : "itself",
        op == DIVI ? alias < 3 ? ", remainder elsewhere" : alias < 5 ? ", remainder into the operand" : ", remainder into the same number" : "");
    mc_step("%s", immname[op]);
    mc_case(mc_mix(mc_mix(mc_mix_bytes(op, v, sizeof(*v)), neg), vi));
    pd = alias == 2 || alias == 6 ? &a : &d;
    if (alias == 1 || alias == 4)
        mc_assert(!bfdev_mpi_import(&d, junk, 5, false), "import");
    pe = alias < 3 ? &e : alias < 5 ? &a : pd;
    switch (op) {
    case ADDI: ret = bfdev_mpi_addi(pd, &a, vi); bn_add(&r, &ba, &bi, false); break;
    case SUBI: ret = bfdev_mpi_subi(pd, &a, vi); bn_add(&r, &ba, &bi, true); break;
    case MULI: ret = bfdev_mpi_muli(pd, &a, vi); bn_mul(&r, &ba, &bi); break;
    case SHLI: ret = bfdev_mpi_shli(pd, &a, vi); bn_shl(&r, &ba, vi); break;
    case SHRI: ret = bfdev_mpi_shri(pd, &a, vi); bn_shr(&r, &ba, vi); break;
    case SETI: ret = bfdev_mpi_seti(pd, vi); bn_copy(&r, &bi); break;
    case SET: ret = bfdev_mpi_set(pd, &a); bn_copy(&r, &ba); break;
    case BSETI: case BCLRI: case BTESTI: {
        static const unsigned long one = 1;
        bool neg = ba.neg, set;

        bn_words(&bit, &one, 1, false);
        bn_shl(&bit, &bit, vi);
        bn_bits(&r, &ba, &bit, 0);
        set = r.n;
        if (op == BTESTI) {
            mc_assert(bfdev_mpi_btesti(&a, vi) == set, "bit %lu reads as %d", vi, !set);
            bn_copy(&r, &ba);
            ret = 0;
        } else {
            ret = op == BSETI ? bfdev_mpi_bseti(&a, vi) : bfdev_mpi_bclri(&a, vi);
            if (set == (op == BSETI))
                bn_copy(&r, &ba);
            else {
                bn_bits(&r, &ba, &bit, 2);
                r.neg = neg;
                bn_norm(&r);
            }
        }
        break;
    }
    case CMPI:
        ret = bfdev_mpi_cmpi(&a, vi);
        want = bn_cmp(&ba, &bi);
        mc_assert((ret > 0) - (ret < 0) == want, "cmpi = %d, expected %d", ret, want);
        ret = 0;
        bn_copy(&r, &ba);
        break;
    case DIVI:
        ret = bfdev_mpi_divi(pd, pe, &a, vi);
        break;
    case MODI:
        ret = bfdev_mpi_modi(pd, &a, vi);
        break;
    }
    if ((op == DIVI || op == MODI) && !vi) {
        mc_assert(ret, "%s by zero succeeds", immname[op]);
        expect(&a, &ba, "operand after refused division");
    } else {
        mc_assert(!ret, "%s = %d", immname[op], ret);
        if (op == DIVI)
            expect_division(pd, pe == pd ? NULL : pe, &ba, &bi);
        else if (op == MODI) {
            BFDEV_DEFINE_MPI(q, &mc_alloc);
            BFDEV_DEFINE_MPI(x, &mc_alloc);
            BFDEV_DEFINE_MPI(m, &mc_alloc);

            expect_division(NULL, pd, &ba, &bi);
            mc_assert(!bfdev_mpi_import(&x, v->w, v->n, !neg), "import");
            mc_assert(!bfdev_mpi_divi(&q, &m, &x, vi), "divi");
            expect_division(&q, &m, &ba, &bi);
            mc_assert(!bfdev_mpi_cmp(&m, pd), "modi and divi disagree about the remainder");
            bfdev_mpi_release(&q);
            bfdev_mpi_release(&x);
            bfdev_mpi_release(&m);
        } else
            expect(pd, &r, "result");
    }
    if (pd != &a && pe != &a && op != SETI)
        expect(&a, &ba, "operand afterwards");
    bfdev_mpi_release(&a);
    bfdev_mpi_release(&d);
    bfdev_mpi_release(&e);
    mc_no_leaks("mpi");
}

/* long operands: storage is reallocated while operands alias the destination */
static void s_long(void)
{
    static const int lens[2][8] = { { 31, 32, 33, 63, 64, 65, 1, 2 }, { 255, 256, 257, 300, 1, 2, 33, 128 } };
    BFDEV_DEFINE_MPI(a, &mc_alloc);
    BFDEV_DEFINE_MPI(b, &mc_alloc);
    unsigned long w[310];
    bn_t ba, bb, *pb;
    int i, n[2], fill[2], op, al, k;
    bool neg[2];

    for (k = 0; k < 2; k++) {
        n[k] = lens[mc_arg][mc_choose(8)];
        fill[k] = mc_choose(4);
        neg[k] = mc_choose(2);
    }
    if (mc_arg && ((n[0] < 255 && n[1] < 255) || fill[0] + fill[1] * 4 > 8 || neg[0] != (fill[0] == 2) || neg[1] != (fill[1] == 1)))
        mc_prune();
    for (k = 0; k < 2; k++) {
        for (i = 0; i < n[k]; i++)
            w[i] = fill[k] == 0 ? ~0UL : fill[k] == 1 ? (i == n[k] - 1) : fill[k] == 2 ? 0x9e3779b97f4a7c15UL * (i + 3 * k + 1) : i == n[k] - 1 ? 1UL << 63 : 0;
        mc_assert(!bfdev_mpi_import(k ? &b : &a, w, n[k], !neg[k]), "import");
        pb = k ? &bb : &ba;
        bn_words(pb, w, n[k], neg[k]);
        mc_step("%s operand: %d words, %s%s", k ? "second" : "first", n[k], neg[k] ? "negative, " : "",
            fill[k] == 0 ? "all ones" : fill[k] == 1 ? "lowest bit of the highest word" : fill[k] == 2 ? "mixed" : "highest bit");
    }
    op = mc_choose(8);
    k = op == DIV ? MC_ARRAY_SIZE(alias_div) : MC_ARRAY_SIZE(alias_two);
    al = mc_choose(k);
    al = op == DIV ? alias_div[al] : alias_two[al];
    if (al >> 6 && (n[0] != n[1] || fill[0] != fill[1] || neg[0] != neg[1] || fill[0] == 2))
        mc_prune();
    mc_case(mc_mix_bytes(mc_mix(mc_mix(op, al), n[0] * 100 + n[1]), fill, sizeof(fill)) + neg[0] * 2 + neg[1]);
    describe(op, al);
    check_binary(op, &a, &b, &ba, &bb, al, NULL);
    bfdev_mpi_release(&a);
    bfdev_mpi_release(&b);
    mc_no_leaks("mpi");
}

/* numbers of up to 2^16 words with an immediate operand, bit positions and shifts up to 2^22 */
static void s_far(void)
{
    typedef unsigned __int128 u128;
    static const unsigned lens[] = { 1, 2, 255, 256, 257, 1023, 1024, 1025, 65535, 65536, 65537 };
    static const unsigned long shifts[] = { 1, 64, 255, 256, 257, 4095, 4096, 16383, 16384, 65535, 65536, 65537, 70001, 1000000, 4194304 };
    static const unsigned long imms[] = { 1, ~0UL, 1UL << 63, 0x123456789abcdef1UL, 10 };
    BFDEV_DEFINE_MPI(a, &mc_alloc);
    BFDEV_DEFINE_MPI(d, &mc_alloc);
    BFDEV_DEFINE_MPI(e, &mc_alloc);
    unsigned n = lens[mc_choose(MC_ARRAY_SIZE(lens))], fill = mc_choose(3), i, m, at;
    static const int ops[] = { ADDI, SUBI, MULI, DIVI, MODI, SHLI, SHRI, BSETI, BCLRI, SET };
    int op = ops[mc_choose(MC_ARRAY_SIZE(ops))], ret, bit;
    bool shift = op >= SHLI && op <= BTESTI, alias = mc_choose(2), neg = mc_choose(2), plus, set;
    unsigned long v = shift ? shifts[mc_choose(MC_ARRAY_SIZE(shifts))] : imms[mc_choose(MC_ARRAY_SIZE(imms))], *w, *r, rem = 0;
    bfdev_mpi_t *pd = alias || (op >= BSETI && op <= BTESTI) ? &a : &d;
    const unsigned long *g;
    u128 c;

    w = mc_zalloc((n + v / 64 * shift + 4) * 8);
    r = mc_zalloc((n + v / 64 * shift + 4) * 8);
    for (i = 0; i < n; i++)
        w[i] = fill == 0 ? ~0UL : fill == 1 ? i == n - 1 : 0x9e3779b97f4a7c15UL * (i + 7);
    mc_assert(!bfdev_mpi_import(&a, w, n, !neg), "import");
    mc_step("%s%u words (kind %u), %s %#lx into %s", neg ? "negative, " : "", n, fill, immname[op], v, pd == &a ? "itself" : "a new number");
    mc_case(mc_mix(mc_mix(n * 4 + fill, op * 4 + alias * 2 + neg), v));
    m = n;
    at = v / 64, bit = v % 64;
    switch (op) {
    case ADDI: case SUBI:
        ret = op == ADDI ? bfdev_mpi_addi(pd, &a, v) : bfdev_mpi_subi(pd, &a, v);
        memcpy(r, w, n * 8);
        if ((op == SUBI) == neg) {      /* away from zero */
            for (c = v, i = 0; i < n || c; i++) {
                c += r[i];
                r[i] = c;
                c >>= 64;
            }
            m = i > n ? i : n;
        } else if (n == 1 && r[0] < v) {
            r[0] = v - r[0];
            neg = !neg;
        } else
            for (c = v, i = 0; c; i++) {
                set = r[i] < (unsigned long)c;
                r[i] -= c;
                c = set;
            }
        break;
    case MULI:
        ret = bfdev_mpi_muli(pd, &a, v);
        for (c = 0, i = 0; i < n; i++) {
            c += (u128)w[i] * v;
            r[i] = c;
            c >>= 64;
        }
        r[m++] = c;
        break;
    case DIVI: case MODI:
        ret = op == DIVI ? bfdev_mpi_divi(pd, &e, &a, v) : bfdev_mpi_modi(&e, &a, v);
        for (i = n; i--; ) {
            c = (u128)rem << 64 | w[i];
            r[i] = c / v;
            rem = c % v;
        }
        g = bfdev_mpi_data(&e, &plus);
        mc_assert(bfdev_mpi_length(&e) == !!rem && (!rem || (g[0] == rem && plus == !neg)), "remainder");
        if (op == MODI) {
            memcpy(r, w, n * 8);
            pd = &a;
        }
        break;
    case SHLI:
        ret = bfdev_mpi_shli(pd, &a, v);
        for (i = 0; i < n; i++) {
            r[i + at] |= w[i] << bit;
            if (bit)
                r[i + at + 1] |= w[i] >> (64 - bit);
        }
        m = n + at + 1;
        break;
    case SHRI:
        ret = bfdev_mpi_shri(pd, &a, v);
        for (i = 0; i + at < n; i++)
            r[i] = w[i + at] >> bit | (bit && i + at + 1 < n ? w[i + at + 1] << (64 - bit) : 0);
        break;
    case BSETI: case BCLRI:
        memcpy(r, w, n * 8);
        set = at < n && w[at] >> bit & 1;
        mc_assert(bfdev_mpi_btesti(&a, v) == set, "bit %lu reads as %d", v, !set);
        ret = op == BSETI ? bfdev_mpi_bseti(&a, v) : bfdev_mpi_bclri(&a, v);
        if (op == BSETI) {
            r[at] |= 1UL << bit;
            m = at >= n ? at + 1 : n;
        } else if (at < n)
            r[at] &= ~(1UL << bit);
        mc_assert(bfdev_mpi_btesti(&a, v) == (op == BSETI), "bit %lu reads as %d afterwards", v, op != BSETI);
        break;
    default:
        ret = bfdev_mpi_set(pd, &a);
        memcpy(r, w, n * 8);
    }
    mc_assert(!ret, "%s = %d", immname[op], ret);
    while (m && !r[m - 1])
        m--;
    g = bfdev_mpi_data(pd, &plus);
    mc_assert(bfdev_mpi_length(pd) == m, "result of %lu words, expected %u", bfdev_mpi_length(pd), m);
    mc_assert(!memcmp(g, r, m * 8), "result");
    mc_assert(plus == !(m && neg), "sign of the result");
    if (pd != &a) {
        g = bfdev_mpi_data(&a, &plus);
        mc_assert(bfdev_mpi_length(&a) == n && !memcmp(g, w, n * 8), "the operand was changed");
    }
    bfdev_mpi_release(&a);
    bfdev_mpi_release(&d);
    bfdev_mpi_release(&e);
    mc_no_leaks("mpi");
}

/* one failing allocation: nothing lost, nothing malformed */
static void s_faults(void)
{
    static const int lens[] = { 0, 1, 2, 32, 33, 64 };
    BFDEV_DEFINE_MPI(a, &mc_alloc);
    BFDEV_DEFINE_MPI(b, &mc_alloc);
    BFDEV_DEFINE_MPI(d, &mc_alloc);
    BFDEV_DEFINE_MPI(e, &mc_alloc);
    bfdev_mpi_t *pd, *pe;
    unsigned long w[66];
    bn_t ba, bb, bd, be, r;
    int i, n[2], op, al, k, ret, used;
    bool neg;

    for (k = 0; k < 2; k++)
        n[k] = lens[mc_choose(MC_ARRAY_SIZE(lens))];
    neg = n[0] && mc_choose(2);
    for (k = 0; k < 2; k++) {
        for (i = 0; i < n[k]; i++)
            w[i] = ~0UL - k;
        mc_assert(!bfdev_mpi_import(k ? &b : &a, w, n[k], k || !neg), "import");
        bn_words(k ? &bb : &ba, w, n[k], !k && neg);
    }
    used = mc_choose(2);
    if (used) {
        mc_assert(!bfdev_mpi_seti(&d, 77) && !bfdev_mpi_seti(&e, 78), "seti");
        d.plus = false;
    }
    bn_words(&bd, bfdev_mpi_data(&d, NULL), 1, used);
    bn_words(&be, bfdev_mpi_data(&e, NULL), 1, false);
    op = mc_choose(12);
    al = mc_choose(3);
    pd = al == 0 ? &d : al == 1 ? &a : &b;
    pe = op == DIV && mc_choose(2) ? al == 1 ? &b : &a : &e;
    mc_step("operands of %d%s and %d words, %s into %s", n[0], neg ? " negative" : "", n[1], op < CMP ? opname[op] : "op with an immediate",
        al == 0 ? used ? "a used number" : "a new number" : al == 1 ? "the first operand" : "the second operand");
    if (op == DIV)
        mc_step("remainder into %s", pe == &e ? "another number" : pe == &a ? "the first operand" : "the second operand");
    mc_case(mc_mix(mc_mix(mc_mix(op * 2 + used, al * 3 + (pe == &a) + 2 * (pe == &b)), n[0] * 2 + neg), n[1]));
    mc_fault_budget = 1;
    switch (op) {
    case DIV: ret = bfdev_mpi_div(pd, pe, &a, &b); break;
    case MOD: ret = bfdev_mpi_mod(pd, &a, &b); break;
    case CMP: ret = bfdev_mpi_addi(pd, &a, ~0UL); bn_words(&r, &(unsigned long){ ~0UL }, 1, false); bn_add(&r, &ba, &r, false); break;
    case NOP: ret = bfdev_mpi_shli(pd, &a, 100); bn_shl(&r, &ba, 100); break;
    case 10: ret = bfdev_mpi_set(pd, &a); bn_copy(&r, &ba); break;
    case 11: ret = bfdev_mpi_muli(pd, &a, 3); bn_words(&r, &(unsigned long){ 3 }, 1, false); bn_mul(&r, &ba, &r); break;
    default: ret = call(op, pd, &a, &b); compute(op, &r, &ba, &bb); break;
    }
    mc_fault_budget = 0;
    mc_step("returned %d", ret);
    if ((op == DIV || op == MOD) && !bb.n) {
        mc_assert(ret, "division by zero succeeds");
        goto unchanged;
    }
    if (!mc_faults)
        mc_assert(!ret, "failed with %d without a failed allocation", ret);
    if (!ret && op != DIV && op != MOD)
        expect(pd, &r, "result");
    else if (!ret)
        expect_division(op == DIV ? pd : NULL, op == DIV ? pe : pd, &ba, &bb);
    if (ret && op != DIV) {
unchanged:
        expect(&a, &ba, "first operand after the failure");
        expect(&b, &bb, "second operand after the failure");
        expect(&d, &bd, "destination after the failure");
    }
    if (pd != &a && pe != &a)
        expect(&a, &ba, "first operand afterwards");
    if (pd != &b && pe != &b)
        expect(&b, &bb, "second operand afterwards");
    for (k = 0; k < 4; k++) {
        bfdev_mpi_t *m = k == 0 ? &a : k == 1 ? &b : k == 2 ? &d : &e;
        unsigned long len = bfdev_mpi_length(m);
        const unsigned long *v;
        bool plus;

        v = bfdev_mpi_data(m, &plus);
        mc_assert(!len || v[len - 1], "leading zero word after an operation that returned %d", ret);
        mc_assert(len || plus, "negative zero after an operation that returned %d", ret);
        /* still usable */
        mc_assert(!bfdev_mpi_addi(m, m, 1), "addi");
        bfdev_mpi_release(m);
    }
    (void)be;
    mc_no_leaks("mpi");
}

const mc_scenario_t mc_scenarios[] = {
    { "pairs", s_pairs, { 2, 3 }, 8, 2 },
    { "pairs-3-words", s_pairs, { 3, 3 }, 5, 2 },
    { "divisions", s_div, { 2, 3 }, 8, 2 },
    { "divisions-3-words", s_div, { 3, 3 }, 6, 2 },
    { "immediates", s_immediate, { 3, 3 }, 6, 2 },
    { "long", s_long, { 1, 1 }, 0, 2 },
    { "very long", s_long, { 1, 1 }, 1, 6 },
    { "far", s_far, { 1, 1 }, 0, 3 },
    { "failed allocations", s_faults, { 1, 1 }, 0, 2 },
    { NULL }
};
