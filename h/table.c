//@family base=all def=FIXED_STACK
//@stub exec_const_expr it fails with any error or stores any value (evaluation itself: P29)
//@trusted realloc of the table's storage returns NULL or storage for the new size with the old contents (C library contract)
/*
 * Tables and indirect calls.
 *
 * A table has any size up to 2^32 - 1.  Only the elements around the ones
 * accessed are materialised; the pointer to the first element is computed
 * from them, so that any access to another element is outside of the object.
 */
#include "cells.h"
static void *vt_realloc(void *p, size_t n);
#define realloc(p, n) vt_realloc(p, n)
#include "type.h"
struct exec_context;
static int vt_const_expr(const struct expr *expr, enum valtype type, struct val *result, struct exec_context *ctx);
#define exec_const_expr(e, t, r, c) vt_const_expr(e, t, r, c)
#include "exec_common.h"
#include "code_imm.h"

#define CSZ 2 /* cells of a reference */
#define WPRE 1
#define WELEMS 4
static struct cell g_win[WELEMS * CSZ], g_win2[WELEMS * CSZ];
static uint64_t g_old[WELEMS], g_old2[WELEMS]; /* ghost */
static struct tableinst g_t, g_t2;
static struct tabletype g_tta[2];
#define g_tt g_tta[0]
#define g_tt2 g_tta[1]
static struct tableinst *g_ts[2];
static uint32_t g_tableidx, g_tableidx2;
static uint32_t g_base, g_base2; /* the element at g_win[0] is g_base - WPRE */
static uint32_t g_k;             /* ghost: an arbitrary element of the window */
static uint32_t g_d, g_s, g_n;
static uint32_t g_size0;

static uint64_t
elem(const struct cell *w, unsigned int i)
{
        return mk64(w[i * CSZ].x, w[i * CSZ + 1].x);
}
static void
setup_table1(struct tableinst *t, struct tabletype *tt, struct cell *win, uint64_t *old, uint32_t base)
{
        tt->et = TYPE_externref; /* funcref: the same representation */
        tt->lim.min = in_u32();
        tt->lim.max = in_u32();
        t->type = tt;
        t->size = in_u32();
        V_ASSUME(t->size >= tt->lim.min && t->size <= tt->lim.max);
        unsigned int i;
        for (i = 0; i < WELEMS; i++) {
                old[i] = in_u64();
                win[i * CSZ].x = (uint32_t)old[i];
                win[i * CSZ + 1].x = (uint32_t)(old[i] >> 32);
        }
        t->cells = win + WPRE * CSZ - (size_t)base * CSZ;
        g_k = in_u32();
        V_ASSUME(g_k < WELEMS);
}
static void
setup_tables(uint32_t tableidx, uint32_t base)
{
        g_tableidx = tableidx;
        g_base = base;
        g_mod.nimportedtables = in_u32();
        g_mod.ntables = in_u32();
        V_ASSUME(g_mod.ntables <= UINT32_MAX - g_mod.nimportedtables);
        V_ASSUME(tableidx < g_mod.ntables + g_mod.nimportedtables);
        /* the type of an imported table: h_module_tabletype (types family) */
        V_ASSUME(tableidx >= g_mod.nimportedtables);
        g_mod.tables = &g_tt - (size_t)(tableidx - g_mod.nimportedtables);
        g_ts[0] = &g_t;
        g_inst.tables.p = g_ts - (size_t)tableidx;
        g_inst.tables.lsize = g_mod.nimportedtables + g_mod.ntables;
        setup_table1(&g_t, &g_tt, g_win, g_old, base);
        g_size0 = g_t.size;
}

static bool
t_same(void)
{
        return g_t.size == g_size0 && g_t.type == &g_tt &&
               g_t.cells == g_win + WPRE * CSZ - (size_t)g_base * CSZ;
}
/* nothing changed in the window except the elements [lo, lo+n) */
static bool
win_only(uint32_t n)
{
        uint32_t k = g_k;
        return k >= WELEMS || (k >= WPRE && k - WPRE < n) || elem(g_win, k) == g_old[k];
}
#define V_ASG_TAB(nst)                                                        \
        V_ASG(ctx->p, ctx->stack.lsize, ctx->trapped, ctx->trap, *ctx->report,\
              __CPROVER_object_upto(ctx->stack.p + g_h0, (nst) * sizeof(struct cell)), \
              __CPROVER_object_whole(g_win), g_t.size, g_t.cells)

static bool
get_ok(int ret)
{
        if (!t_same() || !win_only(0)) {
                return false;
        }
        if (in32(0) >= g_size0) {
                return trapped(ret, TRAP_OUT_OF_BOUNDS_TABLE_ACCESS);
        }
        return done(ret, CSZ, g_pc0) && out64(0) == g_old[WPRE];
}
static int fetch_exec_table_get(const uint8_t *p, struct cell *stack, struct exec_context *ctx)
        V_REQ(!ctx->trapped) V_ASG_TAB(2) V_ENS(get_ok(V_RET));
//@job h_table_get prop=P05 enforce=fetch_exec_table_get replace=v_trap_with_id unwind=13 solver=cadical
void
h_table_get(void)
{
        struct cell *stack = setup_stack(1, 2);
        unsigned int len;
        uint32_t idx = code_imm(0, &len);
        g_pc0 = g_code + len;
        setup_tables(idx, in32(0));
        int ret = fetch_exec_table_get(g_code, stack, &g_ctx);
        V_CHECK(get_ok(ret), "table.get");
        V_CANARY(ret == 0 && in32(0) == UINT32_C(0xc0000000), "huge index");
        V_CANARY(ret == ETOYWASMTRAP, "traps");
}
static bool
set_ok(int ret)
{
        if (!t_same()) {
                return false;
        }
        if (in32(0) >= g_size0) {
                return trapped(ret, TRAP_OUT_OF_BOUNDS_TABLE_ACCESS) && win_only(0);
        }
        return done(ret, 0, g_pc0) && win_only(1) && elem(g_win, WPRE) == in64(1);
}
static int fetch_exec_table_set(const uint8_t *p, struct cell *stack, struct exec_context *ctx)
        V_REQ(!ctx->trapped) V_ASG_TAB(3) V_ENS(set_ok(V_RET));
//@job h_table_set prop=P05 enforce=fetch_exec_table_set replace=v_trap_with_id unwind=13 solver=cadical
void
h_table_set(void)
{
        struct cell *stack = setup_stack(3, 0);
        unsigned int len;
        uint32_t idx = code_imm(0, &len);
        g_pc0 = g_code + len;
        setup_tables(idx, in32(0));
        int ret = fetch_exec_table_set(g_code, stack, &g_ctx);
        V_CHECK(set_ok(ret), "table.set");
        V_CANARY(ret == 0 && in32(0) == UINT32_C(0xc0000000), "huge index");
        V_CANARY(ret == ETOYWASMTRAP, "traps");
}
static bool
size_ok(int ret)
{
        return t_same() && win_only(0) && done(ret, 1, g_pc0) && out32(0) == g_size0;
}
static int fetch_exec_table_size(const uint8_t *p, struct cell *stack, struct exec_context *ctx)
        V_REQ(!ctx->trapped) V_ASG_TAB(1) V_ENS(size_ok(V_RET));
//@job h_table_size prop=P05 enforce=fetch_exec_table_size replace=v_trap_with_id unwind=13 solver=cadical
void
h_table_size(void)
{
        struct cell *stack = setup_stack(0, 1);
        unsigned int len;
        uint32_t idx = code_imm(0, &len);
        g_pc0 = g_code + len;
        setup_tables(idx, 0);
        int ret = fetch_exec_table_size(g_code, stack, &g_ctx);
        V_CHECK(size_ok(ret), "table.size");
        V_CANARY(ret == 0 && out32(0) == UINT32_MAX, "largest");
}
static bool
fill_ok(int ret)
{
        if (!t_same()) {
                return false;
        }
        if ((uint64_t)g_d + g_n > g_size0) {
                return trapped(ret, TRAP_OUT_OF_BOUNDS_TABLE_ACCESS) && win_only(0);
        }
        return done(ret, 0, g_pc0) && win_only(g_n) &&
               !(g_k >= WPRE && g_k - WPRE < g_n && elem(g_win, g_k) != in64(1));
}
static int fetch_exec_table_fill(const uint8_t *p, struct cell *stack, struct exec_context *ctx)
        V_REQ(!ctx->trapped) V_ASG_TAB(4) V_ENS(fill_ok(V_RET));
//@job h_table_fill prop=P05 enforce=fetch_exec_table_fill replace=v_trap_with_id unwind=13 unwindset=fetch_exec_table_fill.0:3 solver=cadical bounded="at most 2 elements filled when in bounds; any length when it traps"
void
h_table_fill(void)
{
        struct cell *stack = setup_stack(4, 0);
        unsigned int len;
        uint32_t idx = code_imm(0, &len);
        g_pc0 = g_code + len;
        g_d = in32(0);
        g_n = in32(3);
        setup_tables(idx, g_d);
        V_ASSUME((uint64_t)g_d + g_n > g_size0 || g_n <= 2);
        int ret = fetch_exec_table_fill(g_code, stack, &g_ctx);
        V_CHECK(fill_ok(ret), "table.fill");
        V_CANARY(ret == 0 && g_n == 2 && g_d == UINT32_C(0xc0000000), "fills");
        V_CANARY(ret == 0 && g_n == 0 && g_d == g_size0, "empty at the end");
        V_CANARY(ret == ETOYWASMTRAP && g_n == 0, "empty beyond the end");
        V_CANARY(ret == ETOYWASMTRAP && g_n == UINT32_MAX, "traps");
}

/* ---- growth */
static bool g_ext_ok;
static struct mem_context g_mctx;
static struct val g_val;
static void *
vt_realloc(void *p, size_t n)
{
        V_CHECK(p == g_t.cells && n == ((size_t)g_size0 + g_n) * CSZ * sizeof(struct cell), "realloc of the table");
        return g_ext_ok ? g_win2 + WPRE * CSZ - (size_t)g_size0 * CSZ : NULL;
}
static size_t g_res0;
static bool g_nores; /* the limit does not allow the growth */
static bool
grow_ok(uint32_t ret)
{
        if (g_t.type != &g_tt || g_t.mctx != &g_mctx) {
                return false;
        }
        uint64_t nsize = (uint64_t)g_size0 + g_n;
        size_t grown = (size_t)g_n * CSZ * sizeof(struct cell);
        if (g_n != 0 && (nsize > g_tt.lim.max || !g_ext_ok || g_nores)) {
                return ret == UINT32_MAX && t_same() && win_only(0) && g_mctx.allocated == g_res0;
        }
        if (g_mctx.allocated != g_res0 + grown) {
                return false;
        }
        if (ret != g_size0 || g_t.size != nsize || !win_only(0)) {
                return false;
        }
        if (g_n == 0) {
                return t_same();
        }
        return g_t.cells == g_win2 + WPRE * CSZ - (size_t)g_size0 * CSZ &&
               elem(g_win2, g_k) == (g_k >= WPRE && g_k - WPRE < g_n ? mk64(g_val.u.cells[0].x, g_val.u.cells[1].x)
                                                                     : g_old2[g_k]);
}
static void
setup_grow(void)
{
        unsigned int i;
        g_t.mctx = &g_mctx;
        for (i = 0; i < WELEMS; i++) {
                g_old2[i] = in_u64();
                g_win2[i * CSZ].x = (uint32_t)g_old2[i];
                g_win2[i * CSZ + 1].x = (uint32_t)(g_old2[i] >> 32);
        }
        g_ext_ok = in_bool();
        g_mctx.parent = NULL;
        g_mctx.limit = in_u64();
        g_res0 = in_u64();
        g_mctx.peak = in_u64();
        g_mctx.allocated = g_res0;
        V_ASSUME(g_res0 <= g_mctx.limit);
        g_nores = g_mctx.limit - g_res0 < (size_t)g_n * CSZ * sizeof(struct cell);
        /* the storage of an empty table is not allocated */
        V_ASSUME(g_size0 > 0);
        V_ASSUME(g_n <= 2 || !g_ext_ok || (uint64_t)g_size0 + g_n > g_tt.lim.max);
}
//@job h_table_grow prop=P05 enforce=table_grow dfcc=0 unwind=13 unwindset=table_grow.0:3,mem_reserve_one.0:2,mem_reserve_one.1:2 solver=cadical bounded="at most 2 elements added when the growth succeeds; any number when it fails"
void
h_table_grow(void)
{
        setup_stack(0, 0);
        setup_tables(in_u32(), 0);
        g_n = in_u32();
        setup_grow();
        g_val.u.cells[0].x = in_u32();
        g_val.u.cells[1].x = in_u32();
        uint32_t ret = table_grow(&g_t, &g_val, g_n);
        V_CHECK(grow_ok(ret), "table_grow");
        V_CANARY(ret == UINT32_C(0xc0000000) && g_n == 2, "grown");
        V_CANARY(ret == UINT32_MAX && g_n == 1, "fails");
        V_CANARY(ret == UINT32_MAX && g_n == UINT32_MAX, "fails2");
        V_CANARY(ret != UINT32_MAX && g_n == 0, "by zero");
}
static bool
insn_grow_ok(int ret)
{
        return done(ret, 1, g_pc0) && grow_ok(out32(0));
}
//@job h_insn_table_grow prop=P05 enforce=fetch_exec_table_grow dfcc=0 unwind=13 unwindset=table_grow.0:3,mem_reserve_one.0:2,mem_reserve_one.1:2 solver=cadical bounded="at most 2 elements added when the growth succeeds; any number when it fails"
void
h_insn_table_grow(void)
{
        struct cell *stack = setup_stack(3, 1);
        unsigned int len;
        uint32_t idx = code_imm(0, &len);
        g_pc0 = g_code + len;
        setup_tables(idx, 0);
        g_n = in32(2);
        setup_grow();
        g_val.u.cells[0].x = in32(0);
        g_val.u.cells[1].x = in32(1);
        int ret = fetch_exec_table_grow(g_code, stack, &g_ctx);
        V_CHECK(insn_grow_ok(ret), "table.grow");
        V_CANARY(ret == 0 && out32(0) == UINT32_C(0xc0000000) && g_n == 2, "grown");
        V_CANARY(ret == 0 && out32(0) == UINT32_MAX, "fails");
}

/* ---- copies */
static bool
copy_ok(int ret, bool two)
{
        /* one table: source elements start at g_s - g_d + WPRE of the same window */
        const uint64_t *osrc = two ? g_old2 : g_old;
        uint32_t ssize = two ? g_t2.size : g_size0;
        if (!t_same()) {
                return false;
        }
        if (two && elem(g_win2, g_k) != g_old2[g_k]) {
                return false;
        }
        if ((uint64_t)g_d + g_n > g_size0 || (uint64_t)g_s + g_n > ssize) {
                return trapped(ret, TRAP_OUT_OF_BOUNDS_TABLE_ACCESS) && win_only(0);
        }
        uint32_t d0 = g_d - g_base + WPRE;
        uint32_t s0 = g_s - (two ? g_base2 : g_base) + WPRE;
        if (!done(ret, 0, g_pc0)) {
                return false;
        }
        if (g_k >= d0 && g_k - d0 < g_n) {
                return elem(g_win, g_k) == osrc[s0 + (g_k - d0)];
        }
        return elem(g_win, g_k) == g_old[g_k];
}
//@job h_table_copy_same prop=P05 enforce=fetch_exec_table_copy dfcc=0 unwind=13 solver=cadical bounded="at most 2 elements moved by at most 2 when in bounds; any length when it traps"
void
h_table_copy_same(void)
{
        struct cell *stack = setup_stack(3, 0);
        unsigned int len;
        uint32_t idx = code_imm(0, &len);
        uint32_t idx2 = code_imm(len, &len);
        V_ASSUME(idx == idx2);
        g_pc0 = g_code + len;
        g_d = in32(0);
        g_s = in32(1);
        g_n = in32(2);
        uint32_t base = g_d < g_s ? g_d : g_s;
        setup_tables(idx, base);
        bool oob = (uint64_t)g_d + g_n > g_size0 || (uint64_t)g_s + g_n > g_size0;
        V_ASSUME(oob || (g_n <= 2 && g_d - base <= 1 && g_s - base <= 1));
        int ret = fetch_exec_table_copy(g_code, stack, &g_ctx);
        V_CHECK(copy_ok(ret, false), "table.copy");
        V_CANARY(ret == 0 && g_n == 2 && g_d == UINT32_C(0xc0000000) && g_s == g_d + 1, "down");
        V_CANARY(ret == 0 && g_n == 2 && g_s == UINT32_C(0xc0000000) && g_d == g_s + 1, "up");
        V_CANARY(ret == ETOYWASMTRAP && g_n == 0, "traps");
}
static void
setup_two(uint32_t idx, uint32_t idx2)
{
        g_base2 = g_s;
        uint32_t lo = idx < idx2 ? idx : idx2;
        V_ASSUME(idx - lo <= 1 && idx2 - lo <= 1 && idx != idx2);
        setup_tables(idx, g_d);
        V_ASSUME(idx2 < g_mod.ntables + g_mod.nimportedtables && idx2 >= g_mod.nimportedtables);
        g_mod.tables = g_tta - (size_t)(lo - g_mod.nimportedtables);
        g_tableidx2 = idx2;
        g_ts[idx - lo] = &g_t;
        g_ts[idx2 - lo] = &g_t2;
        g_inst.tables.p = g_ts - (size_t)lo;
        setup_table1(&g_t2, &g_tt2, g_win2, g_old2, g_s);
}
//@job h_table_copy_two prop=P05 enforce=fetch_exec_table_copy dfcc=0 unwind=13 solver=cadical bounded="two tables with adjacent indices, at most 2 elements when in bounds; any length when it traps"
void
h_table_copy_two(void)
{
        struct cell *stack = setup_stack(3, 0);
        unsigned int len;
        uint32_t idx = code_imm(0, &len);
        uint32_t idx2 = code_imm(len, &len);
        g_pc0 = g_code + len;
        g_d = in32(0);
        g_s = in32(1);
        g_n = in32(2);
        setup_two(idx, idx2);
        V_ASSUME((uint64_t)g_d + g_n > g_size0 || (uint64_t)g_s + g_n > g_t2.size || g_n <= 2);
        int ret = fetch_exec_table_copy(g_code, stack, &g_ctx);
        V_CHECK(copy_ok(ret, true), "table.copy");
        V_CANARY(ret == 0 && g_n == 2 && g_d == UINT32_C(0xc0000000), "copies");
        V_CANARY(ret == ETOYWASMTRAP && g_n == 0, "traps");
}

/* ---- element segments */
static uint32_t g_bits[1], g_bits0;
static struct element g_elem[2];
static uint32_t g_elemidx;
static uint32_t g_funcidxs[4];
static struct expr g_exprs[2];
static struct funcinst *g_funcs[2];
static struct funcinst g_func, g_func2;
static uint64_t g_cv[2]; /* values of the expressions */
static int g_cret[2];
static bool g_running;
static int
vt_const_expr(const struct expr *expr, enum valtype type, struct val *result, struct exec_context *ctx)
{
        unsigned int i = expr == &g_exprs[1];
        V_CHECK(expr == &g_exprs[i] && type == TYPE_externref && ctx == &g_ctx, "exec_const_expr arguments");
        if (g_running) {
                /* the expression runs on the operand stack, which may move */
                static struct cell moved[40];
                V_CHECK(ctx->stack.lsize == g_h0, "the expression is evaluated on top of the remaining operands");
                moved[0] = ctx->stack.p[0];
                ctx->stack.p = moved;
        }
        if (g_cret[i] == 0) {
                result->u.i64 = g_cv[i];
        }
        return g_cret[i];
}
static bool
edropped(void)
{
        return (g_bits0 >> (g_elemidx % 32)) & 1;
}
static void
setup_elem(uint32_t elemidx, bool funcs)
{
        g_elemidx = elemidx;
        g_mod.nelems = in_u32();
        V_ASSUME(elemidx < g_mod.nelems);
        g_elem[0].init_size = in_u32();
        g_elem[0].type = TYPE_externref;
        g_elem[0].funcs = NULL;
        g_elem[0].init_exprs = NULL;
        g_funcidxs[0] = in_u32();
        V_ASSUME(g_funcidxs[0] < UINT32_MAX);
        g_funcidxs[1] = g_funcidxs[0] + 1;
        g_funcidxs[2] = g_funcidxs[0];
        g_funcidxs[3] = g_funcidxs[1];
        g_funcs[1] = &g_func2;
        g_funcs[0] = &g_func;
        g_inst.funcs.p = g_funcs - (size_t)g_funcidxs[0];
        if (funcs) {
                g_elem[0].funcs = g_funcidxs;
                V_ASSUME(g_s <= 2 || (uint64_t)g_s + g_n > g_elem[0].init_size);
        } else {
                g_elem[0].init_exprs = g_exprs - (size_t)g_s;
        }
        if (funcs) {
                /* a pointer field behind a symbolic element index confuses the verifier */
                V_ASSUME(elemidx < 2);
                g_elem[1] = g_elem[0];
                g_mod.elems = g_elem;
        } else {
                g_mod.elems = g_elem - (size_t)elemidx;
        }
        g_bits[0] = g_bits0 = in_u32();
        g_inst.elem_dropped.data = g_bits - (size_t)(elemidx / 32);
}
static bool
exprs_ok(int ret)
{
        if (g_cret[0] != 0 && g_n > 0) {
                return ret == g_cret[0] && win_only(0);
        }
        if (g_cret[1] != 0 && g_n > 1) {
                return ret == g_cret[1] && win_only(1) && elem(g_win, WPRE) == g_cv[0];
        }
        return ret == 0 && win_only(g_n) && (g_n < 1 || elem(g_win, WPRE) == g_cv[0]) &&
               (g_n < 2 || elem(g_win, WPRE + 1) == g_cv[1]);
}
static bool
init_ok(int ret, bool insn)
{
        if (g_bits[0] != g_bits0 || !t_same()) {
                return false;
        }
        uint64_t seglen = edropped() ? 0 : g_elem[0].init_size;
        bool oseg = (uint64_t)g_s + g_n > seglen;
        bool otab = (uint64_t)g_d + g_n > g_size0;
        if (oseg || otab) {
                return ((oseg && trapped(ret, TRAP_OUT_OF_BOUNDS_ELEMENT_ACCESS)) ||
                        (otab && trapped(ret, TRAP_OUT_OF_BOUNDS_TABLE_ACCESS))) && win_only(0);
        }
        if (g_elem[0].funcs == NULL) {
                return exprs_ok(ret) && !g_ctx.trapped;
        }
        if (insn ? !done(ret, 0, g_pc0) : ret != 0 || g_ctx.trapped) {
                return false;
        }
        return win_only(g_n) && !(g_k >= WPRE && g_k - WPRE < g_n && elem(g_win, g_k) !=
                (uint64_t)(uintptr_t)(((g_s + g_k - WPRE) & 1) ? &g_func2 : &g_func));
}
//@job h_insn_table_init prop=P05 enforce=fetch_exec_table_init dfcc=0 unwind=13 unwindset=table_init.0:3 solver=cadical bounded="segments of function indices 0 and 1, at most 2 elements from an offset of at most 2 when in bounds; any length when it traps"
void
h_insn_table_init(void)
{
        struct cell *stack = setup_stack(3, 0);
        unsigned int len;
        uint32_t elemidx = code_imm(0, &len);
        uint32_t idx = code_imm(len, &len);
        g_pc0 = g_code + len;
        g_d = in32(0);
        g_s = in32(1);
        g_n = in32(2);
        setup_tables(idx, g_d);
        setup_elem(elemidx, true);
        V_ASSUME((uint64_t)g_d + g_n > g_size0 || (uint64_t)g_s + g_n > g_elem[0].init_size || g_n <= 2);
        int ret = fetch_exec_table_init(g_code, stack, &g_ctx);
        V_CHECK(init_ok(ret, true), "table.init");
        V_CANARY(ret == 0 && g_n == 2 && g_d == UINT32_C(0xc0000000) && g_s == 1, "copies");
        V_CANARY(ret == 0 && edropped(), "empty from a dropped segment");
        V_CANARY(ret == ETOYWASMTRAP && g_ctx.trap.trapid == TRAP_OUT_OF_BOUNDS_TABLE_ACCESS && g_n == 0, "traps");
        V_CANARY(ret == ETOYWASMTRAP && g_ctx.trap.trapid == TRAP_OUT_OF_BOUNDS_ELEMENT_ACCESS && g_n == 0, "traps2");
}
//@job h_table_init prop=P05,P29 enforce=table_init dfcc=0 unwind=13 unwindset=table_init.0:3 solver=cadical bounded="segments of function indices 0 and 1, at most 2 elements from an offset of at most 2 when in bounds; any length when it traps"
void
h_table_init(void)
{
        setup_stack(0, 0);
        uint32_t elemidx = in_u32();
        uint32_t idx = in_u32();
        g_d = in_u32();
        g_s = in_u32();
        g_n = in_u32();
        setup_tables(idx, g_d);
        setup_elem(elemidx, true);
        V_ASSUME((uint64_t)g_d + g_n > g_size0 || (uint64_t)g_s + g_n > g_elem[0].init_size || g_n <= 2);
        int ret = table_init(&g_ctx, idx, elemidx, g_d, g_s, g_n);
        V_CHECK(init_ok(ret, false), "table_init");
        V_CANARY(ret == 0 && g_n == 2, "copies");
        V_CANARY(ret == ETOYWASMTRAP, "traps");
}
//@job h_table_init_exprs prop=P05,P29 enforce=table_init dfcc=0 unwind=13 unwindset=table_init.0:3 solver=cadical bounded="at most 2 elements when in bounds; any length when it traps"
void
h_table_init_exprs(void)
{
        setup_stack(0, 0);
        uint32_t elemidx = in_u32();
        uint32_t idx = in_u32();
        g_d = in_u32();
        g_s = in_u32();
        g_n = in_u32();
        setup_tables(idx, g_d);
        setup_elem(elemidx, false);
        unsigned int i;
        for (i = 0; i < 2; i++) {
                g_cv[i] = in_u64();
                g_cret[i] = (int)in_u32();
                V_ASSUME(g_cret[i] != ETOYWASMTRAP);
        }
        V_ASSUME((uint64_t)g_d + g_n > g_size0 || (uint64_t)g_s + g_n > g_elem[0].init_size || g_n <= 2);
        int ret = table_init(&g_ctx, idx, elemidx, g_d, g_s, g_n);
        V_CHECK(init_ok(ret, false), "table_init");
        V_CANARY(ret == 0 && g_n == 2, "copies");
        V_CANARY(ret != 0 && g_n == 2 && ret == g_cret[1] && g_cret[0] == 0, "fails");
        V_CANARY(ret == ETOYWASMTRAP, "traps");
}
//@job h_insn_table_init_exprs prop=P05 enforce=fetch_exec_table_init dfcc=0 unwind=13 unwindset=table_init.0:3 solver=cadical bounded="at most 2 elements when in bounds; any length when it traps"
void
h_insn_table_init_exprs(void)
{
        struct cell *stack = setup_stack(3, 0);
        unsigned int len;
        uint32_t elemidx = code_imm(0, &len);
        uint32_t idx = code_imm(len, &len);
        g_pc0 = g_code + len;
        g_running = true;
        g_d = in32(0);
        g_s = in32(1);
        g_n = in32(2);
        setup_tables(idx, g_d);
        setup_elem(elemidx, false);
        unsigned int i;
        for (i = 0; i < 2; i++) {
                g_cv[i] = in_u64();
                g_cret[i] = in_bool() ? 0 : ENOMEM;
        }
        V_ASSUME((uint64_t)g_d + g_n > g_size0 || (uint64_t)g_s + g_n > g_elem[0].init_size || g_n <= 2);
        int ret = fetch_exec_table_init(g_code, stack, &g_ctx);
        V_CHECK(init_ok(ret, true), "table.init");
        V_CHECK(ret != 0 || done(ret, 0, g_pc0), "the instruction completes");
        V_CANARY(ret == 0 && g_n == 2, "copies");
        V_CANARY(ret == ENOMEM && g_n == 2, "fails");
        V_CANARY(ret == ETOYWASMTRAP, "traps");
}
//@job h_insn_elem_drop prop=P05 enforce=fetch_exec_elem_drop dfcc=0 unwind=13 solver=cadical
void
h_insn_elem_drop(void)
{
        struct cell *stack = setup_stack(0, 0);
        unsigned int len;
        uint32_t elemidx = code_imm(0, &len);
        g_pc0 = g_code + len;
        setup_elem(elemidx, false);
        int ret = fetch_exec_elem_drop(g_code, stack, &g_ctx);
        V_CHECK(done(ret, 0, g_pc0) && g_bits[0] == (g_bits0 | UINT32_C(1) << (g_elemidx % 32)), "elem.drop");
        V_CANARY(ret == 0 && g_elemidx == 70000, "drops");
}

/* ---- indirect calls */
static struct functype g_ft[1], g_hft;
static enum valtype g_ta[4], g_tb[4];
static struct funcinst *g_slot[1];
static bool
types_equal(void)
{
        const struct resulttype *a[2] = {&g_ft[0].parameter, &g_ft[0].result};
        const struct resulttype *b[2] = {&g_hft.parameter, &g_hft.result};
        unsigned int i;
        for (i = 0; i < 2; i++) {
                if (a[i]->ntypes != b[i]->ntypes) {
                        return false;
                }
                if (a[i]->ntypes > 0 && a[i]->types[0] != b[i]->types[0]) {
                        return false;
                }
                if (a[i]->ntypes > 1 && a[i]->types[1] != b[i]->types[1]) {
                        return false;
                }
        }
        return true;
}
static void
setup_rt(struct resulttype *rt, enum valtype *types)
{
        rt->ntypes = in_u32();
        V_ASSUME(rt->ntypes <= 2);
        types[0] = (enum valtype)in_u8();
        types[1] = (enum valtype)in_u8();
        rt->types = types;
}
static bool g_null;
static struct cell *
setup_indirect(void)
{
        struct cell *stack = setup_stack(1, 0);
        unsigned int len;
        uint32_t typeidx = code_imm(0, &len);
        uint32_t idx = code_imm(len, &len);
        g_pc0 = g_code + len;
        setup_tables(idx, in32(0));
        g_tt.et = TYPE_funcref;
        g_null = in_bool();
        g_slot[0] = g_null ? NULL : &g_func;
        g_t.cells = (struct cell *)(g_slot - (size_t)in32(0));
        g_mod.ntypes = in_u32();
        V_ASSUME(typeidx < g_mod.ntypes);
        g_mod.types = g_ft - (size_t)typeidx;
        setup_rt(&g_ft[0].parameter, g_ta);
        setup_rt(&g_ft[0].result, g_ta + 2);
        setup_rt(&g_hft.parameter, g_tb);
        setup_rt(&g_hft.result, g_tb + 2);
        g_func.is_host = true;
        g_func.u.host.type = &g_hft;
        return stack;
}
static bool
indirect_ok(int ret, enum exec_event ev)
{
        if (g_slot[0] != (g_null ? NULL : &g_func) || g_t.size != g_size0) {
                return false;
        }
        if (in32(0) >= g_size0) {
                return trapped(ret, TRAP_CALL_INDIRECT_OUT_OF_BOUNDS_TABLE_ACCESS);
        }
        if (g_null) {
                return trapped(ret, TRAP_CALL_INDIRECT_NULL_FUNCREF);
        }
        if (!types_equal()) {
                return trapped(ret, TRAP_CALL_INDIRECT_FUNCTYPE_MISMATCH);
        }
        if (g_ctx.event != ev || g_ctx.event_u.call.func != &g_func) {
                return false;
        }
        g_ctx.event = EXEC_EVENT_NONE;
        return done(ret, 0, g_pc0);
}
//@job h_call_indirect prop=P06 enforce=fetch_exec_call_indirect,table_get_func,compare_functype dfcc=0 unwind=13 solver=cadical bounded="function types with at most 2 parameters and 2 results; the callee is a host function"
void
h_call_indirect(void)
{
        struct cell *stack = setup_indirect();
        int ret = fetch_exec_call_indirect(g_code, stack, &g_ctx);
        V_CHECK(indirect_ok(ret, EXEC_EVENT_CALL), "call_indirect");
        V_CANARY(ret == 0 && in32(0) == UINT32_C(0xc0000000) && g_ft[0].result.ntypes == 2, "calls");
        V_CANARY(ret == ETOYWASMTRAP && g_ctx.trap.trapid == TRAP_CALL_INDIRECT_FUNCTYPE_MISMATCH, "mismatch");
        V_CANARY(ret == ETOYWASMTRAP && g_ctx.trap.trapid == TRAP_CALL_INDIRECT_NULL_FUNCREF, "null");
}
//@job h_return_call_indirect prop=P06,P12 enforce=fetch_exec_return_call_indirect,table_get_func,compare_functype dfcc=0 unwind=13 solver=cadical bounded="function types with at most 2 parameters and 2 results; the callee is a host function"
void
h_return_call_indirect(void)
{
        struct cell *stack = setup_indirect();
        int ret = fetch_exec_return_call_indirect(g_code, stack, &g_ctx);
        V_CHECK(indirect_ok(ret, EXEC_EVENT_RETURN_CALL), "return_call_indirect");
        V_CANARY(ret == 0 && g_ft[0].result.ntypes == 2, "calls");
        V_CANARY(ret == ETOYWASMTRAP, "traps");
}
