/* specification functions of the scalar numeric instructions */
#pragma once

static unsigned int
spec_popcnt(uint64_t a)
{
        unsigned int n = 0;
        unsigned int i;
        for (i = 0; i < 64; i++) {
                n += (a >> i) & 1;
        }
        return n;
}

/* quotient and remainder by the defining equation a = q * b + r, r < b */
static bool
div_u32_ok(uint32_t a, uint32_t b, uint32_t q)
{
        uint64_t p = (uint64_t)q * b;
        return p <= a && a - p < b;
}
static bool
div_u64_ok(uint64_t a, uint64_t b, uint64_t q)
{
        unsigned __int128 p = (unsigned __int128)q * b;
        return p <= a && a - p < b;
}
static uint32_t mag32(uint32_t a) { return a >> 31 ? -a : a; }
static uint64_t mag64(uint64_t a) { return a >> 63 ? -a : a; }
/* rounds toward zero: magnitudes divide, the sign is the product's */
static bool
div_s32_ok(uint32_t a, uint32_t b, uint32_t q)
{
        return div_u32_ok(mag32(a), mag32(b), mag32(q)) &&
               (q == 0 || (q >> 31) == ((a ^ b) >> 31));
}
static bool
div_s64_ok(uint64_t a, uint64_t b, uint64_t q)
{
        return div_u64_ok(mag64(a), mag64(b), mag64(q)) &&
               (q == 0 || (q >> 63) == ((a ^ b) >> 63));
}
static unsigned int g_maxq = 8; /* set by the harness */
/*
 * the remainder is a - q*b for some q with r < b.
 * consequences that are decided for all operands: the range, and exactness
 * whenever the quotient is below g_maxq or the divisor is a power of two.
 */
static bool
rem_u64_ok(uint64_t a, uint64_t b, uint64_t r)
{
        if (r >= b || r > a) {
                return false;
        }
        if ((b & (b - 1)) == 0 && r != (a & (b - 1))) {
                return false;
        }
        if ((b & 1) == 0 && ((a ^ r) & 1) != 0) {
                return false;
        }
        unsigned __int128 m = 0;
        unsigned int i;
        for (i = 0; i < g_maxq; i++) {
                if (m <= a && a - m < b && r != a - m) {
                        return false;
                }
                m += b;
        }
        return true;
}
static bool
rem_u32_ok(uint32_t a, uint32_t b, uint32_t r)
{
        return rem_u64_ok(a, b, r);
}
static bool
rem_s32_ok(uint32_t a, uint32_t b, uint32_t r)
{
        return rem_u32_ok(mag32(a), mag32(b), mag32(r)) &&
               (r == 0 || (r >> 31) == (a >> 31));
}
static bool
rem_s64_ok(uint64_t a, uint64_t b, uint64_t r)
{
        return rem_u64_ok(mag64(a), mag64(b), mag64(r)) &&
               (r == 0 || (r >> 63) == (a >> 63));
}

/* ---- floating point, on bit patterns */

static bool feq32(uint32_t r, uint32_t s) { return isnan32(s) ? isnan32(r) : r == s; }
static bool feq64(uint64_t r, uint64_t s) { return isnan64(s) ? isnan64(r) : r == s; }

/* total order of non-NaN values with -0 < +0 */
static uint32_t okey32(uint32_t a) { return a >> 31 ? ~a : a | 0x80000000; }
static uint64_t okey64(uint64_t a) { return a >> 63 ? ~a : a | 0x8000000000000000; }
static bool flt032(uint32_t a, uint32_t b) { return okey32(a) < okey32(b); }
static bool flt064(uint64_t a, uint64_t b) { return okey64(a) < okey64(b); }
static bool
flt32(uint32_t a, uint32_t b)
{
        return flt032(a, b) && ((a | b) & 0x7fffffff) != 0;
}
static bool
flt64(uint64_t a, uint64_t b)
{
        return flt064(a, b) && ((a | b) & 0x7fffffffffffffff) != 0;
}

/* integral rounding; mode 0 ceil, 1 floor, 2 trunc, 3 nearest-even */
#define ROUND(W, MB, BIAS)                                                    \
        static bool round##W##_ok(unsigned int mode, uint##W##_t a,           \
                                  uint##W##_t r)                              \
        {                                                                     \
                const uint##W##_t sign = (uint##W##_t)1 << (W - 1);           \
                const uint##W##_t one = (uint##W##_t)BIAS << MB;              \
                uint##W##_t s = a & sign;                                     \
                uint##W##_t m = a & ~sign;                                    \
                unsigned int e = (unsigned int)(m >> MB);                     \
                if (isnan##W(a)) {                                            \
                        return isnan##W(r);                                   \
                }                                                             \
                if (e >= BIAS + MB) {                                         \
                        return r == a;                                        \
                }                                                             \
                bool up; /* away from zero */                                 \
                if (e < BIAS) { /* magnitude below 1 */                       \
                        uint##W##_t half = one - ((uint##W##_t)1 << MB);      \
                        up = m != 0 && (mode == 0 ? s == 0                    \
                                        : mode == 1 ? s != 0                  \
                                        : mode == 2 ? false : m > half);      \
                        return r == (s | (up ? one : 0));                     \
                }                                                             \
                uint##W##_t unit = (uint##W##_t)1 << (MB - (e - BIAS));       \
                uint##W##_t fr = a & (unit - 1);                              \
                uint##W##_t t = a - fr;                                       \
                uint##W##_t half = unit >> 1;                                 \
                up = fr != 0 && (mode == 0 ? s == 0                           \
                                 : mode == 1 ? s != 0                         \
                                 : mode == 2 ? false                          \
                                 : fr > half || (fr == half && (t & unit)));  \
                return r == t + (up ? unit : 0);                              \
        }                                                                     \
        static bool ceil##W##_ok(uint##W##_t a, uint##W##_t r) { return round##W##_ok(0, a, r); } \
        static bool floor##W##_ok(uint##W##_t a, uint##W##_t r) { return round##W##_ok(1, a, r); } \
        static bool trunc##W##_ok(uint##W##_t a, uint##W##_t r) { return round##W##_ok(2, a, r); } \
        static bool nearest##W##_ok(uint##W##_t a, uint##W##_t r) { return round##W##_ok(3, a, r); }
ROUND(32, 23, 127)
ROUND(64, 52, 1023)

/* the truncated magnitude of a float */
struct fmag {
        bool neg;
        bool huge; /* 2^64 or more, or infinite */
        uint64_t mag;
};
static struct fmag
fp_mag(bool neg, unsigned int e, uint64_t frac, unsigned int mb, unsigned int bias)
{
        struct fmag f;
        f.neg = neg;
        f.huge = false;
        f.mag = 0;
        uint64_t m = frac | (uint64_t)1 << mb;
        if (e < bias) {
                return f;
        }
        unsigned int x = e - bias;
        if (x >= 64) {
                f.huge = true;
        } else if (x >= mb) {
                f.mag = m << (x - mb);
        } else {
                f.mag = m >> (mb - x);
        }
        return f;
}
static struct fmag
f32_mag(uint32_t a)
{
        return fp_mag(a >> 31, (a >> 23) & 0xff, a & 0x7fffff, 23, 127);
}
static struct fmag
f64_mag(uint64_t a)
{
        return fp_mag(a >> 63, (a >> 52) & 0x7ff, a & 0xfffffffffffff, 52, 1023);
}
static bool
trunc_fits(struct fmag f, unsigned int bits, bool sgn)
{
        if (f.huge) {
                return false;
        }
        if (!sgn) {
                return f.neg ? f.mag == 0
                             : bits == 64 || f.mag <= UINT32_MAX;
        }
        uint64_t lim = (uint64_t)1 << (bits - 1);
        return f.neg ? f.mag <= lim : f.mag < lim;
}
static bool
trunc_ok(struct fmag f, unsigned int bits, bool sgn, uint64_t r)
{
        uint64_t v = f.neg ? -f.mag : f.mag;
        if (bits == 32) {
                v = (uint32_t)v;
        }
        return r == v;
}
static bool
trunc_sat_ok(struct fmag f, unsigned int bits, bool sgn, uint64_t r)
{
        if (trunc_fits(f, bits, sgn)) {
                return trunc_ok(f, bits, sgn, r);
        }
        uint64_t ones = bits == 32 ? UINT32_MAX : UINT64_MAX;
        if (sgn) {
                uint64_t mn = (uint64_t)1 << (bits - 1);
                return r == (f.neg ? mn : mn - 1);
        }
        return r == (f.neg ? 0 : ones);
}

/* integer -> float, round to nearest, ties to even */
static uint64_t
spec_convert(__int128 v, unsigned int mb, unsigned int bias, unsigned int w)
{
        uint64_t sign = v < 0 ? (uint64_t)1 << (w - 1) : 0;
        uint64_t mag = v < 0 ? (uint64_t)-v : (uint64_t)v;
        if (mag == 0) {
                return 0;
        }
        unsigned int lz = 0;
        uint64_t m = mag;
        if ((m >> 32) == 0) { m <<= 32; lz += 32; }
        if ((m >> 48) == 0) { m <<= 16; lz += 16; }
        if ((m >> 56) == 0) { m <<= 8; lz += 8; }
        if ((m >> 60) == 0) { m <<= 4; lz += 4; }
        if ((m >> 62) == 0) { m <<= 2; lz += 2; }
        if ((m >> 63) == 0) { m <<= 1; lz += 1; }
        unsigned int x = 63 - lz;
        uint64_t q = m >> (63 - mb);
        uint64_t rem = m & (((uint64_t)1 << (63 - mb)) - 1);
        uint64_t half = (uint64_t)1 << (62 - mb);
        if (rem > half || (rem == half && (q & 1))) {
                q++;
        }
        /* a carry out of the fraction moves into the exponent */
        return sign | (((uint64_t)(x + bias - 1) << mb) + q);
}
static bool
convert_ok32(__int128 v, uint32_t r)
{
        return r == (uint32_t)spec_convert(v, 23, 127, 32);
}
static bool
convert_ok64(__int128 v, uint64_t r)
{
        return r == spec_convert(v, 52, 1023, 64);
}

static bool
promote_ok(uint32_t a, uint64_t r)
{
        uint64_t s = (uint64_t)(a >> 31) << 63;
        unsigned int e = (a >> 23) & 0xff;
        uint64_t f = a & 0x7fffff;
        if (isnan32(a)) {
                return isnan64(r);
        }
        if (e == 0xff) {
                return r == (s | (uint64_t)0x7ff << 52);
        }
        if (e == 0) {
                /* f * 2^-149 */
                uint64_t x = spec_convert((__int128)f, 52, 1023, 64);
                return r == (s | (f == 0 ? 0 : x - ((uint64_t)149 << 52)));
        }
        return r == (s | (uint64_t)(e - 127 + 1023) << 52 | f << 29);
}
static bool
demote_ok(uint64_t a, uint32_t r)
{
        uint32_t s = (uint32_t)(a >> 63) << 31;
        int e = (int)((a >> 52) & 0x7ff);
        uint64_t m = (a & 0xfffffffffffff) | (uint64_t)1 << 52;
        if (isnan64(a)) {
                return isnan32(r);
        }
        int x = e - 1023;
        if (x > 127) {
                return r == (s | 0x7f800000);
        }
        if (e == 0 || x < -126 - 25) {
                return r == s;
        }
        unsigned int sh = 29 + (x < -126 ? -126 - x : 0);
        uint64_t q = m >> sh;
        uint64_t rem = m & (((uint64_t)1 << sh) - 1);
        uint64_t half = (uint64_t)1 << (sh - 1);
        if (rem > half || (rem == half && (q & 1))) {
                q++;
        }
        uint32_t base = x < -126 ? 0 : (uint32_t)(x + 126) << 23;
        return r == (s | (base + (uint32_t)q));
}

#if defined(SQRT_SPEC)
#if defined(VERIF_NATIVE)
#include <math.h>
#define __CPROVER_uninterpreted_sqrt32 sqrtf
#define __CPROVER_uninterpreted_sqrt64 sqrt
#else
float __CPROVER_uninterpreted_sqrt32(float);
double __CPROVER_uninterpreted_sqrt64(double);
float sqrtf(float x) { return __CPROVER_uninterpreted_sqrt32(x); }
double sqrt(double x) { return __CPROVER_uninterpreted_sqrt64(x); }
#endif
#endif

/* the significand bits below the first n explicit ones */
#define FMASK32(n) ((UINT32_C(1) << (23 - (n))) - 1)
#define FMASK64(n) ((UINT64_C(1) << (52 - (n))) - 1)
