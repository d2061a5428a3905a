//@family base=core
/*
 * LEB128 decoding: the value, the number of bytes consumed and the verdict
 * are those of the binary format's definition, for every byte sequence and
 * every end of input.
 */
#include "verif.h"
#include "u_core.h"

#define MAXB 10
static uint8_t g_b[MAXB]; /* the bytes at the read position */
static uint64_t g_avail;  /* bytes before the end of input */
static const uint8_t *g_p0;

/*
 * the definition: the encoding is the shortest prefix ending in a byte
 * without the continuation bit, at most ceil(bits/7) bytes, whose value is in
 * range.
 */
static bool
leb_spec(unsigned int bits, bool sgn, unsigned int *lenp, uint64_t *valp)
{
        unsigned int maxb = (bits + 6) / 7;
        unsigned __int128 v = 0;
        unsigned int len = 0;
        bool done = false;
        unsigned int i;
        for (i = 0; i < MAXB; i++) {
                if (!done && i < maxb && i < g_avail) {
                        v |= (unsigned __int128)(g_b[i] & 0x7f) << (7 * i);
                        len = i + 1;
                        done = (g_b[i] & 0x80) == 0;
                }
        }
        if (!done) {
                return false;
        }
        *lenp = len;
        if (!sgn) {
                *valp = (uint64_t)v;
                return (v >> bits) == 0;
        }
        __int128 s = (__int128)v;
        if ((v >> (7 * len - 1)) & 1) {
                s -= (__int128)1 << (7 * len);
        }
        *valp = (uint64_t)s;
        __int128 lim = (__int128)1 << (bits - 1);
        return s >= -lim && s < lim;
}

static bool
leb_post(unsigned int bits, bool sgn, int ret, const uint8_t *p,
         uint64_t val)
{
        unsigned int len;
        uint64_t v;
        if (!leb_spec(bits, sgn, &len, &v)) {
                return ret != 0 && p == g_p0;
        }
        if (ret != 0 || p != g_p0 + len) {
                return false;
        }
        return val == v;
}

#define POST32(sgn) leb_post(32, sgn, V_RET, *pp, V_RET != 0 ? 0 : sgn ? (uint64_t)(int64_t)(int32_t)*resultp : *resultp)
#define POST64(sgn) leb_post(64, sgn, V_RET, *pp, V_RET != 0 ? 0 : (uint64_t)*resultp)

#define SPEC(fn, T, POST)                                                     \
        int fn(const uint8_t **pp, const uint8_t *ep, T *resultp)             \
                V_REQ(ep >= *pp) V_ASG(*pp, *resultp) V_ENS(POST);
SPEC(read_leb_i32, uint32_t, POST32(true))
SPEC(read_leb_u32, uint32_t, POST32(false))
SPEC(read_leb_s32, int32_t, POST32(true))
SPEC(read_leb_i64, uint64_t, POST64(true))
SPEC(read_leb_u64, uint64_t, POST64(false))
SPEC(read_leb_s64, int64_t, POST64(true))
int read_leb_s(const uint8_t **pp, const uint8_t *ep, unsigned int bits,
               int64_t *resultp) V_REQ(ep >= *pp && (bits == 7 || bits == 33))
        V_ASG(*pp, *resultp) V_ENS(leb_post(bits, true, V_RET, *pp, V_RET != 0 ? 0 : (uint64_t)*resultp));
int read_leb_u(const uint8_t **pp, const uint8_t *ep, unsigned int bits,
               uint64_t *resultp) V_REQ(ep >= *pp && bits >= 7 && bits <= 64)
        V_ASG(*pp, *resultp) V_ENS(leb_post(bits, false, V_RET, *pp, V_RET != 0 ? 0 : (uint64_t)*resultp));

/* nocheck variants: the input was accepted before by the checked variant */
#define NC(fn, T, bits, sgn)                                                  \
        T fn(const uint8_t **pp) V_REQ(nc_pre(bits, sgn)) V_ASG(*pp)          \
                V_ENS(leb_post(bits, sgn, 0, *pp, (uint64_t)(V_RET)));
static bool
nc_pre(unsigned int bits, bool sgn)
{
        unsigned int len;
        uint64_t v;
        return leb_spec(bits, sgn, &len, &v);
}
NC(read_leb_u32_nocheck, uint32_t, 32, false)
uint32_t read_leb_i32_nocheck(const uint8_t **pp) V_REQ(nc_pre(32, true)) V_ASG(*pp)
        V_ENS(leb_post(32, true, 0, *pp, (uint64_t)(int64_t)(int32_t)V_RET));
NC(read_leb_i64_nocheck, uint64_t, 64, true)
NC(read_leb_s33_nocheck, int64_t, 33, true)

static const uint8_t *
setup(void)
{
        uint64_t n = in_u64();
        V_ASSUME(n <= UINT64_C(1) << 40);
        g_avail = n;
        /* only the bytes that exist may be read */
        uint8_t *p = malloc(n < MAXB ? n : MAXB);
        V_ASSUME(p != NULL);
        unsigned int i;
        for (i = 0; i < MAXB; i++) {
                uint8_t v = in_u8();
                if (i < n) {
                        g_b[i] = v;
                        p[i] = v;
                }
        }
        g_p0 = p;
        return p;
}

#define H(fn, T, bits, sgn, ext)                                              \
        void h_##fn(void)                                                     \
        {                                                                     \
                const uint8_t *p = setup();                                   \
                T res = 0;                                                    \
                int ret = fn(&p, g_p0 + g_avail, &res);                       \
                V_CHECK(leb_post(bits, sgn, ret, p, ret ? 0 : (uint64_t)ext res), #fn); \
                V_CANARY(ret == 0 && p == g_p0 + (bits + 6) / 7, "longest encoding"); \
                V_CANARY(ret == 0 && p == g_p0 + 1, "one byte");              \
                V_CANARY(ret != 0 && g_avail == 3, "truncated");              \
                V_CANARY(ret != 0 && g_avail == 100, "out of range");         \
        }
//@job h_read_leb_i32 prop=P16 enforce=read_leb_i32 unwind=12
H(read_leb_i32, uint32_t, 32, true, (int64_t)(int32_t))
//@job h_read_leb_u32 prop=P16 enforce=read_leb_u32 unwind=12
H(read_leb_u32, uint32_t, 32, false, )
//@job h_read_leb_s32 prop=P16 enforce=read_leb_s32 unwind=12
H(read_leb_s32, int32_t, 32, true, (int64_t))
//@job h_read_leb_i64 prop=P16 enforce=read_leb_i64 unwind=12
H(read_leb_i64, uint64_t, 64, true, )
//@job h_read_leb_u64 prop=P16 enforce=read_leb_u64 unwind=12
H(read_leb_u64, uint64_t, 64, false, )
//@job h_read_leb_s64 prop=P16 enforce=read_leb_s64 unwind=12
H(read_leb_s64, int64_t, 64, true, )

#define HB(name, fn, T, bits, sgn)                                            \
        void h_##name(void)                                                   \
        {                                                                     \
                const uint8_t *p = setup();                                   \
                T res = 0;                                                    \
                int ret = fn(&p, g_p0 + g_avail, bits, &res);                 \
                V_CHECK(leb_post(bits, sgn, ret, p, ret ? 0 : (uint64_t)res), #name); \
                V_CANARY(ret == 0 && p == g_p0 + (bits + 6) / 7, "longest encoding"); \
                V_CANARY(ret != 0 && g_avail >= 1, "rejected");               \
        }
//@job h_read_leb_s33 prop=P16 enforce=read_leb_s unwind=12
HB(read_leb_s33, read_leb_s, int64_t, 33, true)
//@job h_read_leb_s7 prop=P16 enforce=read_leb_s unwind=12
HB(read_leb_s7, read_leb_s, int64_t, 7, true)
//@job h_read_leb_u16 prop=P16 enforce=read_leb_u unwind=12
HB(read_leb_u16, read_leb_u, uint64_t, 16, false)

#define HN(fn, T, bits, sgn, ext)                                             \
        void h_##fn(void)                                                     \
        {                                                                     \
                const uint8_t *p = setup();                                   \
                V_ASSUME(nc_pre(bits, sgn));                                  \
                T res = fn(&p);                                               \
                V_CHECK(leb_post(bits, sgn, 0, p, (uint64_t)ext res), #fn);   \
                V_CANARY(p == g_p0 + (bits + 6) / 7, "longest encoding");     \
                V_CANARY(p == g_p0 + 1, "one byte");                          \
        }
//@job h_read_leb_u32_nocheck prop=P16 enforce=read_leb_u32_nocheck unwind=12
HN(read_leb_u32_nocheck, uint32_t, 32, false, )
//@job h_read_leb_i32_nocheck prop=P16 enforce=read_leb_i32_nocheck unwind=12
HN(read_leb_i32_nocheck, uint32_t, 32, true, (int64_t)(int32_t))
//@job h_read_leb_i64_nocheck prop=P16 enforce=read_leb_i64_nocheck unwind=12
HN(read_leb_i64_nocheck, uint64_t, 64, true, )
//@job h_read_leb_s33_nocheck prop=P16 enforce=read_leb_s33_nocheck unwind=12
HN(read_leb_s33_nocheck, int64_t, 33, true, )
