//@family base=core
/*
 * Cells: the operand-stack representation of values.
 */
#include "bytes.h"
/* cells are copied word by word */
static void *
vc_memcpy(void *d, const void *s, size_t n)
{
        size_t i;
        V_CHECK(n % 4 == 0, "whole cells");
        for (i = 0; i < n / 4; i++) {
                ((uint32_t *)d)[i] = ((const uint32_t *)s)[i];
        }
        return d;
}
#undef memcpy
#define memcpy(a, b, c) vc_memcpy(a, b, c)
/* the stack of these jobs has room: growing it is not needed (see h/heap.c) */
static void *
vc_realloc(void *p, size_t n)
{
        V_CHECK(false, "no reallocation while there is room");
        return NULL;
}
#define realloc(p, n) vc_realloc(p, n)
#include "u_core.h"

/* the widths of the property: 32-bit cells */
static uint32_t
width(enum valtype t)
{
        switch (t) {
        case TYPE_i32:
        case TYPE_f32:
                return 1;
        case TYPE_i64:
        case TYPE_f64:
        case TYPE_funcref:
        case TYPE_externref:
                return 2;
        case TYPE_v128:
                return 4;
        default:
                return EXNREF_NCELLS;
        }
}
static enum valtype
anytype(bool exn)
{
        enum valtype t = (enum valtype)in_u8();
        V_ASSUME(t == TYPE_i32 || t == TYPE_i64 || t == TYPE_f32 || t == TYPE_f64 || t == TYPE_v128 ||
                 t == TYPE_funcref || t == TYPE_externref || (exn && t == TYPE_exnref));
        return t;
}

uint32_t valtype_cellsize(enum valtype t) V_ASG() V_ENS(V_RET == width(t));
//@job h_valtype_cellsize prop=P27,P12 enforce=valtype_cellsize
void h_valtype_cellsize(void)
{
        enum valtype t = anytype(true);
        V_CHECK(valtype_cellsize(t) == width(t), "width");
        V_CHECK(width(t) * sizeof(struct cell) <= sizeof(struct val), "a value holds its cells");
        V_CANARY(t == TYPE_exnref, "exnref");
        V_CANARY(t == TYPE_v128, "v128");
}

/* ---- positions by table: any index in any table */
static uint16_t g_two[2];
static struct {
        struct resulttype rt;
        struct localtype lt;
} g_tt; /* one object: the verifier tracks one target per union */
#define g_rt g_tt.rt
#define g_lt g_tt.lt
static struct exec_context g_ctx;

//@job h_resulttype_cellidx_table prop=P27,P12 dfcc=0
void h_resulttype_cellidx_table(void)
{
        uint32_t idx = in_u32();
        g_rt.ntypes = in_u32();
        g_two[0] = in_u16();
        g_two[1] = in_u16();
        V_ASSUME(g_two[0] <= g_two[1]);
        g_rt.cellidx.cellidxes = g_two - idx;
        uint32_t csz = 99;
        bool want = in_bool();
        V_ASSUME(idx < g_rt.ntypes || (idx == g_rt.ntypes && !want));
        uint32_t r = resulttype_cellidx(&g_rt, idx, want ? &csz : NULL);
        V_CHECK(r == g_two[0], "position");
        V_CHECK(!want || csz == (uint32_t)g_two[1] - g_two[0], "width");
        g_lt.nlocals = g_rt.ntypes;
        g_lt.cellidx.cellidxes = g_two - idx;
        csz = 99;
        r = localtype_cellidx(&g_lt, idx, want ? &csz : NULL);
        V_CHECK(r == g_two[0], "position of a local");
        V_CHECK(!want || csz == (uint32_t)g_two[1] - g_two[0], "width of a local");
        if (idx == g_rt.ntypes) {
                V_CHECK(resulttype_cellsize(&g_rt) == g_two[0], "total width");
                V_CHECK(localtype_cellsize(&g_lt) == g_two[0], "total width of locals");
        }
        V_CANARY(idx > 100000 && want, "far");
        V_CANARY(idx == g_rt.ntypes, "end");
}
//@job h_frame_locals_cellidx_fast prop=P27,P12 dfcc=0
void h_frame_locals_cellidx_fast(void)
{
        uint32_t idx = in_u32();
        struct local_info_fast *f = &g_ctx.local_u.fast;
        g_ctx.fast = true;
        f->nparams = in_u32();
        f->paramcsz = in_u32();
        g_two[0] = in_u16();
        g_two[1] = in_u16();
        V_ASSUME(g_two[0] <= g_two[1]);
        V_ASSUME(f->paramcsz <= UINT16_MAX);
        uint16_t other = 0;
        bool param = idx < f->nparams;
        f->paramtype_cellidxes = param ? g_two - idx : &other;
        f->localtype_cellidxes = param ? &other : g_two - (idx - f->nparams);
        uint32_t csz = 99;
        uint32_t r = frame_locals_cellidx(&g_ctx, idx, &csz);
        V_CHECK(csz == (uint32_t)g_two[1] - g_two[0], "width");
        V_CHECK(r == (param ? 0 : f->paramcsz) + g_two[0], "parameters come before locals");
        V_CANARY(param && idx > 10, "parameter");
        V_CANARY(!param && f->nparams > 10, "local");
}

/* ---- positions by summation */
#define NT 4
static enum valtype g_ty[NT];
static struct localchunk g_ch[3];
static void
settypes(void)
{
        unsigned int i;
        for (i = 0; i < NT; i++) {
                g_ty[i] = anytype(true);
        }
        g_rt.ntypes = in_u8();
        V_ASSUME(g_rt.ntypes <= NT);
        g_rt.types = g_ty;
        g_rt.cellidx.cellidxes = NULL;
}
static uint32_t
sumw(uint32_t n)
{
        uint32_t s = 0;
        unsigned int i;
        for (i = 0; i < NT; i++) {
                if (i < n) {
                        s += width(g_ty[i]);
                }
        }
        return s;
}
//@job h_resulttype_cellidx prop=P27,P12 dfcc=0 unwind=6 bounded="type sequences of at most 4 elements"
void h_resulttype_cellidx(void)
{
        settypes();
        uint32_t idx = in_u8();
        bool want = in_bool();
        V_ASSUME(idx < g_rt.ntypes || (idx == g_rt.ntypes && !want));
        uint32_t csz = 99;
        uint32_t r = resulttype_cellidx(&g_rt, idx, want ? &csz : NULL);
        V_CHECK(r == sumw(idx), "sum of the widths before it");
        V_CHECK(!want || csz == width(g_ty[idx]), "its width");
        V_CHECK(idx != g_rt.ntypes || resulttype_cellsize(&g_rt) == r, "total width");
        V_CANARY(idx == NT, "all");
        V_CANARY(want && idx == 3, "last");
}
/* the type of the i-th local and the cells before it */
static bool
local_spec(uint32_t nch, uint32_t idx, uint64_t *sump, enum valtype *tp)
{
        uint64_t s = 0;
        uint32_t i;
        for (i = 0; i < 3; i++) {
                if (i < nch) {
                        if (idx < g_ch[i].n) {
                                *sump = s + (uint64_t)idx * width(g_ch[i].type);
                                *tp = g_ch[i].type;
                                return true;
                        }
                        s += (uint64_t)g_ch[i].n * width(g_ch[i].type);
                        idx -= g_ch[i].n;
                }
        }
        *sump = s;
        return false;
}
//@job h_localtype_cellidx prop=P27,P12 dfcc=0 unwind=6 bounded="at most 3 groups of locals (any group sizes below 2^24)" solver=cadical
void h_localtype_cellidx(void)
{
        uint32_t nch = in_u8();
        V_ASSUME(nch <= 3);
        unsigned int i;
        g_lt.nlocals = 0;
        for (i = 0; i < 3; i++) {
                g_ch[i].type = anytype(true);
                g_ch[i].n = in_u32();
                V_ASSUME(g_ch[i].n > 0 && g_ch[i].n < 1 << 24);
                if (i < nch) {
                        g_lt.nlocals += g_ch[i].n;
                }
        }
        g_lt.nlocalchunks = nch;
        g_lt.localchunks = g_ch;
        g_lt.cellidx.cellidxes = NULL;
        uint32_t idx = in_u32();
        bool want = in_bool();
        V_ASSUME(idx < g_lt.nlocals || (idx == g_lt.nlocals && !want));
        uint64_t s = 0;
        enum valtype t = TYPE_i32;
        local_spec(nch, idx, &s, &t);
        uint32_t csz = 99;
        uint32_t r = localtype_cellidx(&g_lt, idx, want ? &csz : NULL);
        V_CHECK(r == s, "sum of the widths before it");
        V_CHECK(!want || csz == width(t), "its width");
        V_CANARY(idx == g_lt.nlocals && nch == 3, "all");
        V_CANARY(want && idx > 1000 && nch == 3 && idx > g_ch[0].n + g_ch[1].n, "last group");
}
/* ---- the position tables built at load time */
static struct mem_context g_mctx;
//@job h_populate_resulttype prop=P27,P17 dfcc=0 unwind=6 unwindset=mem_reserve_one.0:2,mem_reserve_one.1:2 bounded="type sequences of at most 4 elements"
void h_populate_resulttype(void)
{
        settypes();
        V_ASSUME(g_rt.ntypes > 0);
        g_mctx.limit = 1000000;
        int ret = populate_resulttype_cellidx(&g_mctx, &g_rt);
        if (ret != 0) {
                V_CHECK(ret == ENOMEM && g_rt.cellidx.cellidxes == NULL && g_mctx.allocated == 0, "no table");
                return;
        }
        uint32_t i = in_u8();
        V_ASSUME(i <= g_rt.ntypes);
        V_CHECK(g_rt.cellidx.cellidxes[i] == sumw(i), "table entry");
        V_CANARY(i == NT, "last");
}
//@job h_populate_localtype prop=P27,P17 dfcc=0 unwind=8 unwindset=mem_reserve_one.0:2,mem_reserve_one.1:2 bounded="at most 3 groups and 6 locals"
void h_populate_localtype(void)
{
        uint32_t nch = in_u8();
        V_ASSUME(nch >= 1 && nch <= 3);
        unsigned int i;
        g_lt.nlocals = 0;
        for (i = 0; i < 3; i++) {
                g_ch[i].type = anytype(true);
                g_ch[i].n = in_u8();
                V_ASSUME(g_ch[i].n > 0);
                if (i < nch) {
                        g_lt.nlocals += g_ch[i].n;
                }
        }
        V_ASSUME(g_lt.nlocals <= 6);
        g_lt.nlocalchunks = nch;
        g_lt.localchunks = g_ch;
        g_lt.cellidx.cellidxes = NULL;
        g_mctx.limit = 1000000;
        int ret = populate_localtype_cellidx(&g_mctx, &g_lt);
        if (ret != 0) {
                V_CHECK(ret == ENOMEM && g_lt.cellidx.cellidxes == NULL && g_mctx.allocated == 0, "no table");
                return;
        }
        uint32_t k = in_u8();
        V_ASSUME(k <= g_lt.nlocals);
        uint64_t s = 0;
        enum valtype t;
        local_spec(nch, k, &s, &t);
        V_CHECK(g_lt.cellidx.cellidxes[k] == s, "table entry");
        V_CANARY(k == 6 && nch == 3, "last");
}

/* ---- copies: an arbitrary witness cell in a buffer with guard cells */
#define NB 16
static struct cell g_src[NB], g_dst[NB];
static void
fill(void)
{
        unsigned int i;
        for (i = 0; i < NB; i++) {
                g_src[i].x = in_u32();
                g_dst[i].x = in_u32();
        }
}
//@job h_cells_copy prop=P27 dfcc=0 unwind=36 bounded="at most 8 cells"
void h_cells_copy(void)
{
        fill();
        uint32_t n = in_u8();
        uint32_t so = in_u8();
        uint32_t d = in_u8();
        V_ASSUME(n <= 8 && so <= 8 && d <= 8);
        uint32_t w = in_u8();
        V_ASSUME(w < NB);
        uint32_t o = g_dst[w].x;
        cells_copy(g_dst + d, g_src + so, n);
        V_CHECK(g_dst[w].x == (w >= d && w - d < n ? g_src[so + w - d].x : o), "exactly the requested cells");
        V_CANARY(n == 8 && w == d + 3, "copied");
        V_CANARY(n == 0, "empty");
}
//@job h_cells_move prop=P27 dfcc=0 unwind=18 bounded="at most 6 cells, any overlap"
void h_cells_move(void)
{
        fill();
        uint32_t n = in_u8();
        uint32_t so = in_u8();
        uint32_t d = in_u8();
        V_ASSUME(n <= 6 && so <= 10 && d <= 10);
        uint32_t w = in_u8();
        V_ASSUME(w < NB);
        uint32_t o = g_dst[w].x;
        uint32_t want = w >= d && w - d < n ? g_dst[so + w - d].x : o;
        cells_move(g_dst + d, g_dst + so, n);
        V_CHECK(g_dst[w].x == want, "as if through a temporary");
        V_CANARY(n == 6 && w == d + 3 && so == d + 2, "overlap down");
        V_CANARY(n == 6 && w == d + 3 && so + 2 == d, "overlap up");
        V_CANARY(n == 0, "empty");
}
//@job h_cells_zero prop=P27,P12 dfcc=0 unwind=36 bounded="at most 8 cells"
void h_cells_zero(void)
{
        fill();
        uint32_t n = in_u8();
        uint32_t d = in_u8();
        V_ASSUME(n <= 8 && d <= 8);
        uint32_t w = in_u8();
        V_ASSUME(w < NB);
        uint32_t o = g_dst[w].x;
        cells_zero(g_dst + d, n);
        V_CHECK(g_dst[w].x == (w >= d && w - d < n ? 0 : o), "exactly the requested cells");
        V_CANARY(n == 8 && w == d + 3, "zeroed");
}
static struct val g_val, g_val2;
//@job h_val_cells prop=P27 dfcc=0 unwind=36
void h_val_cells(void)
{
        fill();
        unsigned int i;
        for (i = 0; i < ARRAYCOUNT(g_val.u.cells); i++) {
                g_val.u.cells[i].x = in_u32();
                g_val2.u.cells[i].x = in_u32();
        }
        enum valtype t = anytype(true);
        uint32_t n = valtype_cellsize(t);
        uint32_t w = in_u8();
        V_ASSUME(w < NB);
        uint32_t o = g_dst[w].x;
        val_to_cells(&g_val, g_dst + 2, n);
        V_CHECK(g_dst[w].x == (w >= 2 && w - 2 < n ? g_val.u.cells[w - 2].x : o), "exactly the cells of the value");
        val_from_cells(&g_val2, g_dst + 2, n);
        V_ASSUME(w < n);
        V_CHECK(g_val2.u.cells[w].x == g_val.u.cells[w].x, "round trip");
        V_CHECK(t != TYPE_i32 || g_val2.u.i32 == g_val.u.i32, "i32");
        V_CHECK(t != TYPE_i64 || g_val2.u.i64 == g_val.u.i64, "i64");
        V_CANARY(t == TYPE_v128 && w == 3, "v128");
        V_CANARY(t == TYPE_exnref, "exnref");
}

/* ---- the interpreter stack: push then pop with the same types */
#define NP 2
static struct cell g_stk[16];
//@job h_push_pop_vals prop=P27 dfcc=0 unwind=14 unwindset=h_push_pop_vals.3:17 solver=cadical bounded="sequences of at most 2 values (no exception references)"
void h_push_pop_vals(void)
{
        unsigned int i;
        unsigned int j;
        struct val v[NP];
        struct val r[NP];
        for (i = 0; i < NT; i++) {
                g_ty[i] = anytype(false);
        }
        g_rt.ntypes = in_u8();
        V_ASSUME(g_rt.ntypes <= NP);
        g_rt.types = g_ty;
        g_rt.cellidx.cellidxes = NULL;
        for (i = 0; i < NP; i++) {
                for (j = 0; j < 4; j++) {
                        v[i].u.cells[j].x = in_u32();
                        r[i].u.cells[j].x = in_u32();
                }
        }
        for (i = 0; i < 16; i++) {
                g_stk[i].x = in_u32();
        }
        uint32_t h = 3;
        g_ctx.stack.p = g_stk;
        g_ctx.stack.lsize = h;
        g_ctx.stack.psize = 16;
        g_ctx.options.max_stackcells = in_u32();
        V_ASSUME(g_ctx.options.max_stackcells >= h);
        g_ctx.report = &g_ctx.report0;
        g_ctx.mctx = &g_mctx;
        uint32_t w = in_u8();
        V_ASSUME(w < 16);
        uint32_t o = g_stk[w].x;
        int ret = exec_push_vals(&g_ctx, &g_rt, v);
        uint32_t n = sumw(g_rt.ntypes);
        if (ret != 0) {
                V_CHECK(g_ctx.stack.lsize == h && g_stk[w].x == o, "unchanged");
                return;
        }
        V_CHECK(g_ctx.stack.lsize == h + n, "height");
        V_CHECK((w >= h && w < h + n) || g_stk[w].x == o, "nothing else is written");
        exec_pop_vals(&g_ctx, &g_rt, r);
        V_CHECK(g_ctx.stack.lsize == h, "height restored");
        uint32_t k = in_u8();
        uint32_t c = in_u8();
        V_ASSUME(k < g_rt.ntypes && c < width(g_ty[k]));
        V_CHECK(r[k].u.cells[c].x == v[k].u.cells[c].x, "same value");
        V_CANARY(k == 1 && g_ty[0] == TYPE_v128 && g_ty[1] == TYPE_i64, "mixed");
}
