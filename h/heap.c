//@family base=core
//@trusted malloc/realloc/memset follow the C library's contracts (h/wit.h); any allocation may fail
/*
 * Heap accounting (mem.c) and growable arrays (vec.c, util.c).
 */
#include "wit.h"
#include "u_core.h"

#define NCTX 3
static unsigned int DEPTH = 2; /* nesting of the contexts in this job */
static struct mem_context g_mc[NCTX]; /* g_mc[i].parent == &g_mc[i + 1] */
static unsigned int g_depth;
static uint64_t g_al0[NCTX], g_li0[NCTX], g_pk0[NCTX];

static void
setup_ctx(uint64_t held)
{
        g_depth = DEPTH;
        unsigned int i;
        for (i = 0; i < NCTX; i++) {
                g_al0[i] = in_u64();
                g_li0[i] = in_u64();
                g_pk0[i] = in_u64();
                V_ASSUME(held <= g_al0[i] && g_al0[i] <= g_li0[i]);
                V_ASSUME(g_al0[i] <= g_pk0[i] && g_pk0[i] <= g_li0[i]);
                g_mc[i].allocated = g_al0[i];
                g_mc[i].limit = g_li0[i];
                g_mc[i].peak = g_pk0[i];
                g_mc[i].parent = i + 1 < g_depth ? &g_mc[i + 1] : NULL;
        }
        g_oom = false;
}
/* is there room for d more bytes in the context and all its parents? */
static bool
fits(uint64_t d)
{
        unsigned int i;
        for (i = 0; i < NCTX; i++) {
                if (i < g_depth && g_li0[i] - g_al0[i] < d) {
                        return false;
                }
        }
        return true;
}
/* every context of the chain changed by exactly d (mod 2^64), no other did */
static bool
accounted(uint64_t d)
{
        unsigned int i;
        for (i = 0; i < NCTX; i++) {
                uint64_t want = i < g_depth ? g_al0[i] + d : g_al0[i];
                if (g_mc[i].allocated != want || g_mc[i].limit != g_li0[i] ||
                    g_mc[i].parent != (i + 1 < g_depth ? &g_mc[i + 1] : NULL) ||
                    g_mc[i].allocated > g_mc[i].limit || g_mc[i].peak < g_mc[i].allocated ||
                    g_mc[i].peak < g_pk0[i] || g_mc[i].peak > g_mc[i].limit) {
                        return false;
                }
        }
        return true;
}
#define ASG_MC __CPROVER_object_whole(g_mc)
static void
live(uint64_t size)
{
        g_live = size > 0 ? 1 : 0;
        g_livesize = size;
        g_wit[0].obj = OBJ_MEM;
        g_wit[0].idx = in_u64();
        g_wit[0].val = in_u8();
}

static bool
alloc_post(void *r, uint64_t sz, bool zero)
{
        if (r == NULL) {
                return accounted(0) && g_live == 0 && (!fits(sz) || g_oom);
        }
        return fits(sz) && accounted(sz) && r == MEM1 && g_live == 1 && g_livesize == sz &&
               !(zero && g_wit[0].idx < sz && g_wit[0].val != 0);
}
void *mem_alloc(struct mem_context *ctx, size_t sz) V_REQ(sz > 0)
        V_ASG(ASG_MC, V_ASG_WIT, g_mallocs) V_ENS(alloc_post(V_RET, sz, false));
void *mem_zalloc(struct mem_context *ctx, size_t sz) V_REQ(sz > 0)
        V_ASG(ASG_MC, V_ASG_WIT, g_mallocs) V_ENS(alloc_post(V_RET, sz, true));
static bool
calloc_post(void *r, uint64_t a, uint64_t b)
{
        unsigned __int128 sz = (unsigned __int128)a * b;
        if (sz > UINT64_MAX) {
                return r == NULL && accounted(0) && g_live == 0;
        }
        return alloc_post(r, (uint64_t)sz, true);
}
void *mem_calloc(struct mem_context *ctx, size_t a, size_t b) V_REQ(a > 0 && b > 0)
        V_ASG(ASG_MC, V_ASG_WIT, g_mallocs) V_ENS(calloc_post(V_RET, a, b));

void h_mem_alloc(void)
{
        setup_ctx(0);
        live(0);
        g_bigmalloc = 1;
        g_mallocs = 0;
        uint64_t sz = in_u64();
        V_ASSUME(sz > 0);
        void *r = mem_alloc(&g_mc[0], sz);
        V_CHECK(alloc_post(r, sz, false), "mem_alloc");
        V_CANARY(r != NULL && g_depth == DEPTH, "ok");
        V_CANARY(r == NULL && !g_oom && g_depth == DEPTH, "limit");
        V_CANARY(r == NULL && g_oom, "oom");
}
void h_mem_zalloc(void)
{
        setup_ctx(0);
        live(0);
        g_bigmalloc = 1;
        g_mallocs = 0;
        uint64_t sz = in_u64();
        V_ASSUME(sz > 0);
        void *r = mem_zalloc(&g_mc[0], sz);
        V_CHECK(alloc_post(r, sz, true), "mem_zalloc");
        V_CANARY(r != NULL && g_wit[0].idx < sz, "ok");
        V_CANARY(r == NULL && g_oom, "oom");
}
static void
b_calloc(uint64_t b)
{
        setup_ctx(0);
        live(0);
        g_bigmalloc = 1;
        g_mallocs = 0;
        uint64_t a = in_u64();
        V_ASSUME(a > 0);
        void *r = mem_calloc(&g_mc[0], a, b);
        V_CHECK(calloc_post(r, a, b), "mem_calloc");
        V_CANARY(r != NULL && g_wit[0].idx < a, "ok");
        V_CANARY(r == NULL && !g_oom && (unsigned __int128)a * b > UINT64_MAX, "overflow");
}
void h_mem_calloc24(void) { b_calloc(24); }
void h_mem_calloc4(void) { b_calloc(4); }

void mem_free(struct mem_context *ctx, void *p, size_t sz)
        V_REQ(p == NULL || (g_live == 1 && p == MEM1 && sz == g_livesize))
        V_ASG(ASG_MC, V_ASG_WIT)
        V_ENS(p == NULL ? accounted(0) : (g_live == 0 && accounted(-(uint64_t)sz)));
void h_mem_free(void)
{
        uint64_t sz = in_u64();
        setup_ctx(sz);
        live(sz);
        void *p = sz == 0 ? NULL : MEM1;
        mem_free(&g_mc[0], p, sz);
        V_CHECK(p == NULL ? accounted(0) : (g_live == 0 && accounted(-sz)), "mem_free");
        V_CANARY(sz > 0 && g_depth == DEPTH, "freed");
        V_CANARY(sz == 0, "null");
}

static uint8_t g_wv0;
static bool
extend_post(void *r, uint64_t oldsz, uint64_t newsz, bool zero)
{
        if (r == NULL) {
                return accounted(0) && (!fits(newsz - oldsz) || g_oom) && g_live == (oldsz != 0) &&
                       g_livesize == oldsz && g_wit[0].val == g_wv0;
        }
        return fits(newsz - oldsz) && accounted(newsz - oldsz) && g_livesize == newsz &&
               r == (oldsz == 0 ? MEM1 : MEM2) && !(g_wit[0].idx < oldsz && g_wit[0].val != g_wv0) &&
               !(zero && g_wit[0].idx >= oldsz && g_wit[0].idx < newsz && g_wit[0].val != 0);
}
#define EXT(fn, z)                                                            \
        void *fn(struct mem_context *ctx, void *p, size_t oldsz, size_t newsz) \
                V_REQ(oldsz < newsz && (p == NULL) == (oldsz == 0))           \
                V_ASG(ASG_MC, V_ASG_WIT) V_ENS(extend_post(V_RET, oldsz, newsz, z));
EXT(mem_extend, false)
EXT(mem_extend_zero, true)
#define H_EXT(fn, z)                                                          \
        void h_##fn(void)                                                     \
        {                                                                     \
                uint64_t o = in_u64();                                        \
                uint64_t n = in_u64();                                        \
                V_ASSUME(o < n);                                              \
                setup_ctx(o);                                                 \
                live(o);                                                      \
                g_wv0 = g_wit[0].val;                                         \
                void *r = fn(&g_mc[0], o == 0 ? NULL : MEM1, o, n);           \
                V_CHECK(extend_post(r, o, n, z), #fn);                        \
                V_CANARY(r != NULL && o > 0 && g_depth == DEPTH, "moved");        \
                V_CANARY(r != NULL && o == 0, "fresh");                       \
                V_CANARY(r == NULL && g_oom, "oom");                          \
                V_CANARY(r == NULL && !g_oom, "limit");                       \
        }
H_EXT(mem_extend, false)
H_EXT(mem_extend_zero, true)

static bool
shrink_post(void *r, uint64_t oldsz, uint64_t newsz)
{
        if (r == NULL) {
                return accounted(0) && g_oom && g_live == 1 && g_livesize == oldsz;
        }
        return accounted(newsz - oldsz) && g_livesize == newsz && r == MEM2 &&
               !(g_wit[0].idx < newsz && g_wit[0].val != g_wv0);
}
void *mem_shrink(struct mem_context *ctx, void *p, size_t oldsz, size_t newsz)
        V_REQ(oldsz > newsz && p != NULL) V_ASG(ASG_MC, V_ASG_WIT) V_ENS(shrink_post(V_RET, oldsz, newsz));
void h_mem_shrink(void)
{
        uint64_t o = in_u64();
        uint64_t n = in_u64();
        V_ASSUME(o > n && n > 0);
        setup_ctx(o);
        live(o);
        g_wv0 = g_wit[0].val;
        void *r = mem_shrink(&g_mc[0], MEM1, o, n);
        V_CHECK(shrink_post(r, o, n), "mem_shrink");
        V_CANARY(r != NULL && g_depth == DEPTH, "ok");
        V_CANARY(r == NULL, "oom");
}

int mem_context_setlimit(struct mem_context *ctx, size_t limit)
        V_ASG(ctx->limit)
        V_ENS(limit < g_al0[0] ? V_RET == ENOMEM && ctx->limit == g_li0[0] : V_RET == 0 && ctx->limit == limit);
//@job h_mem_context_setlimit prop=P20 enforce=mem_context_setlimit unwind=5
void h_mem_context_setlimit(void)
{
        setup_ctx(0);
        uint64_t l = in_u64();
        int ret = mem_context_setlimit(&g_mc[0], l);
        V_CHECK(l < g_al0[0] ? ret == ENOMEM && g_mc[0].limit == g_li0[0] : ret == 0 && g_mc[0].limit == l, "setlimit");
        V_CANARY(ret == 0, "ok");
        V_CANARY(ret != 0, "refused");
}
//@job h_mem_context_init prop=P20 dfcc=0
void h_mem_context_init(void)
{
        g_mc[0].allocated = in_u64();
        g_mc[0].parent = &g_mc[1];
        mem_context_init(&g_mc[0]);
        V_CHECK(g_mc[0].allocated == 0 && g_mc[0].limit == SIZE_MAX && g_mc[0].peak == 0 && g_mc[0].parent == NULL, "no bytes, no limit");
        mem_context_clear(&g_mc[0]);
        V_CANARY(true, "done");
}

/* ---- growable arrays, for several element sizes */
static struct {
        void *p;
        uint32_t lsize;
        uint32_t psize;
} g_v;
static uint32_t g_ls0, g_ps0;
static uint64_t g_es;
static void
setup_vec(uint64_t es)
{
        g_es = es;
        g_ls0 = in_u32();
        g_ps0 = in_u32();
        V_ASSUME(g_ls0 <= g_ps0);
        setup_ctx(g_ps0 * es);
        live(g_ps0 * es);
        g_wv0 = g_wit[0].val;
        g_v.p = g_ps0 == 0 ? NULL : MEM1;
        g_v.lsize = g_ls0;
        g_v.psize = g_ps0;
}
static bool
vec_post(int ret, uint64_t need, uint64_t newl, bool init)
{
        uint64_t w = g_wit[0].idx;
        if (ret != 0) {
                return g_v.lsize == g_ls0 && g_v.psize == g_ps0 && g_v.p == (g_ps0 == 0 ? NULL : MEM1) &&
                       accounted(0) && g_wit[0].val == g_wv0 && g_livesize == g_ps0 * g_es && need > g_ps0;
        }
        if (g_v.lsize != newl || g_v.lsize > g_v.psize || g_v.psize < need ||
            g_livesize != g_v.psize * g_es || !accounted((g_v.psize - (uint64_t)g_ps0) * g_es) ||
            g_v.p != (g_live == 0 ? NULL : g_live == 1 ? MEM1 : MEM2)) {
                return false;
        }
        /* elements below both sizes are kept; new ones are zero */
        uint64_t keep = (g_ls0 < newl ? g_ls0 : newl) * g_es;
        if (w < keep && g_wit[0].val != g_wv0) {
                return false;
        }
        return !(init && w >= g_ls0 * g_es && w < newl * g_es && g_wit[0].val != 0);
}
static uint32_t g_cnt;
static bool
prealloc_post(int ret)
{
        uint64_t need = (uint64_t)g_ls0 + g_cnt;
        if (need > UINT32_MAX) {
                return ret == EOVERFLOW && g_v.lsize == g_ls0 && g_v.psize == g_ps0 && accounted(0);
        }
        return vec_post(ret, need, g_ls0, false) && (ret != 0 || need <= g_v.psize);
}
int _vec_resize(struct mem_context *ctx, void *vec, size_t elem_size, uint32_t new_elem_count)
        V_ASG(ASG_MC, V_ASG_WIT, g_v) V_ENS(vec_post(V_RET, new_elem_count, new_elem_count, true));
int _vec_prealloc(struct mem_context *ctx, void *vec, size_t elem_size, uint32_t count)
        V_ASG(ASG_MC, V_ASG_WIT, g_v) V_ENS(prealloc_post(V_RET));
void _vec_free(struct mem_context *ctx, void *vec, size_t elem_size)
        V_ASG(ASG_MC, V_ASG_WIT, g_v)
        V_ENS(g_v.p == NULL && g_v.lsize == 0 && g_v.psize == 0 && g_live == 0 && accounted(-(g_ps0 * g_es)));

static void
b_vec_resize(uint64_t es)
{
        setup_vec(es);
        uint32_t n = in_u32();
        int ret = _vec_resize(&g_mc[0], &g_v, es, n);
        V_CHECK(vec_post(ret, n, n, true), "_vec_resize");
        V_CANARY(ret == 0 && n > g_ps0 && g_ps0 > 0, "grown");
        V_CANARY(ret == 0 && n < g_ls0, "shrunk");
        V_CANARY(ret == 0 && n > g_ls0 && n < g_ps0 && g_ls0 > 0, "within the allocation");
        V_CANARY(ret != 0, "failed");
}
static void
b_vec_prealloc(uint64_t es)
{
        setup_vec(es);
        g_cnt = in_u32();
        int ret = _vec_prealloc(&g_mc[0], &g_v, es, g_cnt);
        V_CHECK(prealloc_post(ret), "_vec_prealloc");
        V_CANARY(ret == 0 && g_v.psize > g_ps0, "grown");
        V_CANARY(ret == EOVERFLOW, "overflow");
}
void h_vec_resize4(void) { b_vec_resize(4); }
void h_vec_resize8(void) { b_vec_resize(8); }
void h_vec_prealloc4(void) { b_vec_prealloc(4); }
void h_vec_prealloc24(void) { b_vec_prealloc(24); }
void h_vec_free(void)
{
        setup_vec(24);
        _vec_free(&g_mc[0], &g_v, 24);
        V_CHECK(g_v.p == NULL && g_v.lsize == 0 && g_v.psize == 0 && g_live == 0 && accounted(-(g_ps0 * g_es)), "_vec_free");
        V_CANARY(g_ps0 > 3, "freed");
        V_CANARY(g_ps0 == 0, "empty");
}

//@job h_mem_alloc_d2 prop=P20 enforce=mem_alloc unwind=5 unwindset=mem_reserve_one.0:2,mem_reserve_one.1:2 solver=cadical bounded="2 nested accounting contexts"
void h_mem_alloc_d2(void) { DEPTH = 2; h_mem_alloc(); }
//@job h_mem_alloc_d1 prop=P20 enforce=mem_alloc unwind=5 unwindset=mem_reserve_one.0:2,mem_reserve_one.1:2 solver=cadical bounded="1 nested accounting context"
void h_mem_alloc_d1(void) { DEPTH = 1; h_mem_alloc(); }
//@job h_mem_alloc_d3 prop=P20 enforce=mem_alloc unwind=5 unwindset=mem_reserve_one.0:2,mem_reserve_one.1:2 solver=cadical bounded="3 nested accounting contexts" tier=thorough
void h_mem_alloc_d3(void) { DEPTH = 3; h_mem_alloc(); }

//@job h_mem_free_d2 prop=P20 enforce=mem_free unwind=5 unwindset=mem_reserve_one.0:2,mem_reserve_one.1:2 solver=cadical bounded="2 nested accounting contexts"
void h_mem_free_d2(void) { DEPTH = 2; h_mem_free(); }
//@job h_mem_free_d1 prop=P20 enforce=mem_free unwind=5 unwindset=mem_reserve_one.0:2,mem_reserve_one.1:2 solver=cadical bounded="1 nested accounting context"
void h_mem_free_d1(void) { DEPTH = 1; h_mem_free(); }
//@job h_mem_free_d3 prop=P20 enforce=mem_free unwind=5 unwindset=mem_reserve_one.0:2,mem_reserve_one.1:2 solver=cadical bounded="3 nested accounting contexts" tier=thorough
void h_mem_free_d3(void) { DEPTH = 3; h_mem_free(); }

//@job h_mem_extend_d2 prop=P20,P32 enforce=mem_extend unwind=5 unwindset=mem_reserve_one.0:2,mem_reserve_one.1:2 solver=cadical bounded="2 nested accounting contexts"
void h_mem_extend_d2(void) { DEPTH = 2; h_mem_extend(); }
//@job h_mem_extend_d1 prop=P20,P32 enforce=mem_extend unwind=5 unwindset=mem_reserve_one.0:2,mem_reserve_one.1:2 solver=cadical bounded="1 nested accounting context"
void h_mem_extend_d1(void) { DEPTH = 1; h_mem_extend(); }
//@job h_mem_extend_d3 prop=P20,P32 enforce=mem_extend unwind=5 unwindset=mem_reserve_one.0:2,mem_reserve_one.1:2 solver=cadical bounded="3 nested accounting contexts" tier=thorough
void h_mem_extend_d3(void) { DEPTH = 3; h_mem_extend(); }

//@job h_mem_extend_zero_d2 prop=P20,P32 enforce=mem_extend_zero unwind=5 unwindset=mem_reserve_one.0:2,mem_reserve_one.1:2 solver=cadical bounded="2 nested accounting contexts"
void h_mem_extend_zero_d2(void) { DEPTH = 2; h_mem_extend_zero(); }
//@job h_mem_extend_zero_d3 prop=P20,P32 enforce=mem_extend_zero unwind=5 unwindset=mem_reserve_one.0:2,mem_reserve_one.1:2 solver=cadical bounded="3 nested accounting contexts" tier=thorough
void h_mem_extend_zero_d3(void) { DEPTH = 3; h_mem_extend_zero(); }

//@job h_mem_shrink_d2 prop=P20,P32 enforce=mem_shrink unwind=5 unwindset=mem_reserve_one.0:2,mem_reserve_one.1:2 solver=cadical bounded="2 nested accounting contexts"
void h_mem_shrink_d2(void) { DEPTH = 2; h_mem_shrink(); }
//@job h_mem_shrink_d1 prop=P20,P32 enforce=mem_shrink unwind=5 unwindset=mem_reserve_one.0:2,mem_reserve_one.1:2 solver=cadical bounded="1 nested accounting context"
void h_mem_shrink_d1(void) { DEPTH = 1; h_mem_shrink(); }
//@job h_mem_shrink_d3 prop=P20,P32 enforce=mem_shrink unwind=5 unwindset=mem_reserve_one.0:2,mem_reserve_one.1:2 solver=cadical bounded="3 nested accounting contexts" tier=thorough
void h_mem_shrink_d3(void) { DEPTH = 3; h_mem_shrink(); }

//@job h_mem_zalloc_d2 prop=P20 enforce=mem_zalloc unwind=5 unwindset=mem_reserve_one.0:2,mem_reserve_one.1:2 solver=cadical bounded="2 nested accounting contexts"
void h_mem_zalloc_d2(void) { DEPTH = 2; h_mem_zalloc(); }
//@job h_mem_zalloc_d3 prop=P20 enforce=mem_zalloc unwind=5 unwindset=mem_reserve_one.0:2,mem_reserve_one.1:2 solver=cadical bounded="3 nested accounting contexts" tier=thorough
void h_mem_zalloc_d3(void) { DEPTH = 3; h_mem_zalloc(); }

//@job h_mem_calloc24_d2 prop=P20 enforce=mem_calloc unwind=5 unwindset=mem_reserve_one.0:2,mem_reserve_one.1:2 solver=cadical bounded="element size 24; 2 nested accounting contexts"
void h_mem_calloc24_d2(void) { DEPTH = 2; h_mem_calloc24(); }
//@job h_mem_calloc24_d3 prop=P20 enforce=mem_calloc unwind=5 unwindset=mem_reserve_one.0:2,mem_reserve_one.1:2 solver=cadical bounded="element size 24; 3 nested accounting contexts" tier=thorough
void h_mem_calloc24_d3(void) { DEPTH = 3; h_mem_calloc24(); }

//@job h_mem_calloc4_d2 prop=P20 enforce=mem_calloc unwind=5 unwindset=mem_reserve_one.0:2,mem_reserve_one.1:2 solver=cadical bounded="element size 4; 2 nested accounting contexts"
void h_mem_calloc4_d2(void) { DEPTH = 2; h_mem_calloc4(); }
//@job h_mem_calloc4_d3 prop=P20 enforce=mem_calloc unwind=5 unwindset=mem_reserve_one.0:2,mem_reserve_one.1:2 solver=cadical bounded="element size 4; 3 nested accounting contexts" tier=thorough
void h_mem_calloc4_d3(void) { DEPTH = 3; h_mem_calloc4(); }

//@job h_vec_resize4_d2 prop=P20,P32 enforce=_vec_resize unwind=5 unwindset=mem_reserve_one.0:2,mem_reserve_one.1:2 solver=cadical bounded="element size 4; 2 nested accounting contexts"
void h_vec_resize4_d2(void) { DEPTH = 2; h_vec_resize4(); }
//@job h_vec_resize4_d1 prop=P20,P32 enforce=_vec_resize unwind=5 unwindset=mem_reserve_one.0:2,mem_reserve_one.1:2 solver=cadical bounded="element size 4; 1 nested accounting context"
void h_vec_resize4_d1(void) { DEPTH = 1; h_vec_resize4(); }
//@job h_vec_resize4_d3 prop=P20,P32 enforce=_vec_resize unwind=5 unwindset=mem_reserve_one.0:2,mem_reserve_one.1:2 solver=cadical bounded="element size 4; 3 nested accounting contexts" tier=thorough
void h_vec_resize4_d3(void) { DEPTH = 3; h_vec_resize4(); }

//@job h_vec_resize8_d2 prop=P20,P32 enforce=_vec_resize unwind=5 unwindset=mem_reserve_one.0:2,mem_reserve_one.1:2 solver=cadical bounded="element size 8; 2 nested accounting contexts"
void h_vec_resize8_d2(void) { DEPTH = 2; h_vec_resize8(); }
//@job h_vec_resize8_d3 prop=P20,P32 enforce=_vec_resize unwind=5 unwindset=mem_reserve_one.0:2,mem_reserve_one.1:2 solver=cadical bounded="element size 8; 3 nested accounting contexts" tier=thorough
void h_vec_resize8_d3(void) { DEPTH = 3; h_vec_resize8(); }

//@job h_vec_prealloc4_d2 prop=P20,P32 enforce=_vec_prealloc unwind=5 unwindset=mem_reserve_one.0:2,mem_reserve_one.1:2 solver=cadical bounded="element size 4; 2 nested accounting contexts"
void h_vec_prealloc4_d2(void) { DEPTH = 2; h_vec_prealloc4(); }
//@job h_vec_prealloc4_d3 prop=P20,P32 enforce=_vec_prealloc unwind=5 unwindset=mem_reserve_one.0:2,mem_reserve_one.1:2 solver=cadical bounded="element size 4; 3 nested accounting contexts" tier=thorough
void h_vec_prealloc4_d3(void) { DEPTH = 3; h_vec_prealloc4(); }

//@job h_vec_prealloc24_d2 prop=P20,P32 enforce=_vec_prealloc unwind=5 unwindset=mem_reserve_one.0:2,mem_reserve_one.1:2 solver=cadical bounded="element size 24; 2 nested accounting contexts"
void h_vec_prealloc24_d2(void) { DEPTH = 2; h_vec_prealloc24(); }
//@job h_vec_prealloc24_d3 prop=P20,P32 enforce=_vec_prealloc unwind=5 unwindset=mem_reserve_one.0:2,mem_reserve_one.1:2 solver=cadical bounded="element size 24; 3 nested accounting contexts" tier=thorough
void h_vec_prealloc24_d3(void) { DEPTH = 3; h_vec_prealloc24(); }

//@job h_vec_free_d2 prop=P20,P32 enforce=_vec_free unwind=5 unwindset=mem_reserve_one.0:2,mem_reserve_one.1:2 solver=cadical bounded="element size 24; 2 nested accounting contexts"
void h_vec_free_d2(void) { DEPTH = 2; h_vec_free(); }
//@job h_vec_free_d3 prop=P20,P32 enforce=_vec_free unwind=5 unwindset=mem_reserve_one.0:2,mem_reserve_one.1:2 solver=cadical bounded="element size 24; 3 nested accounting contexts" tier=thorough
void h_vec_free_d3(void) { DEPTH = 3; h_vec_free(); }
