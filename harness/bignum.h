/* Reference integers: sign and magnitude, 32 bit limbs, schoolbook only. */
#ifndef BIGNUM_H
#define BIGNUM_H
#include "mc.h"

#define BN_MAX 1300
typedef struct { int n; bool neg; uint32_t w[BN_MAX]; } bn_t;

static inline void bn_norm(bn_t *a) { while (a->n && !a->w[a->n - 1]) a->n--; if (!a->n) a->neg = false; }
static inline void bn_copy(bn_t *d, const bn_t *a) { d->n = a->n; d->neg = a->neg; memcpy(d->w, a->w, a->n * 4); }
static inline void bn_words(bn_t *d, const unsigned long *w, int n, bool neg)
{
    int i;

    for (i = 0; i < n; i++) {
        d->w[2 * i] = w[i];
        d->w[2 * i + 1] = w[i] >> 32;
    }
    d->n = 2 * n;
    d->neg = neg;
    bn_norm(d);
}
static inline int bn_cmp_mag(const bn_t *a, const bn_t *b)
{
    int i;

    if (a->n != b->n)
        return a->n < b->n ? -1 : 1;
    for (i = a->n; i--; )
        if (a->w[i] != b->w[i])
            return a->w[i] < b->w[i] ? -1 : 1;
    return 0;
}
static inline int bn_cmp(const bn_t *a, const bn_t *b)
{
    if (a->neg != b->neg)
        return a->neg ? -1 : 1;
    return a->neg ? -bn_cmp_mag(a, b) : bn_cmp_mag(a, b);
}
static inline uint32_t bn_limb(const bn_t *a, int i) { return i < a->n ? a->w[i] : 0; }
/* signed sum */
static inline void bn_add(bn_t *d, const bn_t *a, const bn_t *b, bool negate_b)
{
    bool bneg = b->neg ^ negate_b;
    int64_t c = 0;
    bn_t r;
    int i, n = a->n > b->n ? a->n : b->n;

    if (a->neg == bneg) {
        for (i = 0; i <= n; i++) {
            c += (int64_t)bn_limb(a, i) + bn_limb(b, i);
            r.w[i] = c;
            c >>= 32;
        }
        r.n = n + 1;
        r.neg = a->neg;
    } else {
        const bn_t *x = a, *y = b;

        r.neg = a->neg;
        if (bn_cmp_mag(a, b) < 0) {
            x = b, y = a;
            r.neg = bneg;
        }
        for (i = 0; i < n; i++) {
            c += (int64_t)bn_limb(x, i) - bn_limb(y, i);
            r.w[i] = c;
            c >>= 32;
        }
        r.n = n;
    }
    bn_norm(&r);
    bn_copy(d, &r);
}
static inline void bn_mul(bn_t *d, const bn_t *a, const bn_t *b)
{
    bn_t r;
    int i, k;

    r.n = a->n + b->n;
    memset(r.w, 0, r.n * 4);
    for (i = 0; i < a->n; i++) {
        uint64_t c = 0;

        for (k = 0; k < b->n; k++) {
            c += (uint64_t)a->w[i] * b->w[k] + r.w[i + k];
            r.w[i + k] = c;
            c >>= 32;
        }
        r.w[i + k] = c;
    }
    r.neg = a->neg ^ b->neg;
    bn_norm(&r);
    bn_copy(d, &r);
}
/* of the magnitude */
static inline void bn_shl(bn_t *d, const bn_t *a, unsigned s)
{
    bn_t r;
    int i, n = a->n + s / 32 + 1;

    for (i = 0; i < n; i++) {
        int k = i - (int)(s / 32);
        uint64_t v = (uint64_t)(k >= 0 ? bn_limb(a, k) : 0) << 32 | (k > 0 ? bn_limb(a, k - 1) : 0);
        r.w[i] = v << s % 32 >> 32;
    }
    r.n = n;
    r.neg = a->neg;
    bn_norm(&r);
    bn_copy(d, &r);
}
static inline void bn_shr(bn_t *d, const bn_t *a, unsigned s)
{
    bn_t r;
    int i;

    for (i = 0; i < a->n; i++)
        r.w[i] = ((uint64_t)bn_limb(a, i + s / 32 + 1) << 32 | bn_limb(a, i + s / 32)) >> s % 32;
    r.n = a->n;
    r.neg = a->neg;
    bn_norm(&r);
    bn_copy(d, &r);
}
/* 0 and, 1 or, 2 xor of the magnitudes */
static inline void bn_bits(bn_t *d, const bn_t *a, const bn_t *b, int op)
{
    bn_t r;
    int i, n = a->n > b->n ? a->n : b->n;

    for (i = 0; i < n; i++)
        r.w[i] = op == 0 ? bn_limb(a, i) & bn_limb(b, i) : op == 1 ? bn_limb(a, i) | bn_limb(b, i) : bn_limb(a, i) ^ bn_limb(b, i);
    r.n = n;
    r.neg = false;
    bn_norm(&r);
    bn_copy(d, &r);
}
static inline void bn_print(char *s, size_t size, const bn_t *a)
{
    size_t n = 0;
    int i;

    n += snprintf(s, size, "%s0x%x", a->neg ? "-" : "", a->n ? a->w[a->n - 1] : 0);
    for (i = a->n - 2; i >= 0 && n < size; i--)
        n += snprintf(s + n, size - n, "%08x", a->w[i]);
}
#endif
