/*
 * Validation of instructions: the operand type stack, the code and the module
 * of the harnesses, and the typing rules in executable form.
 *
 * The operand stack has up to 4 types, any number of them below the base of
 * the current block.  (No instruction here takes more than 3.)
 */
static int read_leb_u32(const uint8_t **pp, const uint8_t *ep, uint32_t *resultp);
static int read_leb_i32(const uint8_t **pp, const uint8_t *ep, uint32_t *resultp);
static int read_leb_i64(const uint8_t **pp, const uint8_t *ep, uint64_t *resultp);
static int read_leb_s(const uint8_t **pp, const uint8_t *ep, unsigned int bits, int64_t *resultp);
static uint32_t read_leb_u32_nocheck(const uint8_t **pp);
static uint32_t read_leb_i32_nocheck(const uint8_t **pp);
static uint64_t read_leb_i64_nocheck(const uint8_t **pp);
static int64_t read_leb_s33_nocheck(const uint8_t **pp);
static const struct tabletype *module_tabletype(const struct module *m, uint32_t idx);
static const struct globaltype *module_globaltype(const struct module *m, uint32_t idx);
static const struct functype *module_functype(const struct module *m, uint32_t idx);
static const struct tagtype *module_tagtype(const struct module *m, uint32_t idx);
static const struct functype *module_tagtype_functype(const struct module *m, const struct tagtype *tt);
static int array_extend(struct mem_context *mctx, void **p, size_t elem_size,
                        uint32_t old_count, uint32_t new_count);
static int read_vec_u32(struct mem_context *mctx, const uint8_t **pp, const uint8_t *ep, uint32_t *countp,
                        uint32_t **resultp);
struct exec_context;
static int vv_table_init(struct exec_context *ectx, uint32_t tableidx, uint32_t elemidx, uint32_t d, uint32_t s,
                         uint32_t n);
#define table_init(a, b, c, d, e, f) vv_table_init(a, b, c, d, e, f)
#include "u_insn.h"
#include "validation.h"
#include "expr.h"

#define NB 24 /* bytes of code */
#define NV 12 /* operand stack window */

static uint8_t g_buf[NB];
static uint64_t g_lv[NB]; /* the number at each position */
static uint8_t g_ll[NB];  /* its length; 0 for a malformed one */
static const uint8_t *g_p0, *g_ep;
static bool g_fixpos; /* the code is at a fixed place */

static enum valtype g_vt[NV], g_vt0[NV];
static uint32_t g_n0, g_h0;
static bool g_unreach;
static struct ctrlframe g_cf[3];
static struct validation_context g_v;
static struct context g_c, g_skip;
static struct module g_mod;
static struct expr_exec_info g_ei;
static struct load_options g_opt;
static struct report g_report;
static struct mem_context g_mctx;
static struct validation_context g_v_saved;
static struct ctrlframe g_cf_saved;
static struct expr_exec_info g_ei_saved;
static uint32_t g_maxcells0, g_hcell;
static struct tabletype g_tt[2];
static struct globaltype g_gt[2];
static struct functype g_ft[2];
static struct tagtype g_tagt[2];
static enum valtype g_locals[2];
static struct type_annotation g_an[4];
static struct jump g_jumps[4];

/*
 * reading numbers
 */
static int
v_leb(const uint8_t **pp, const uint8_t *ep, uint64_t *vp)
{
        const uint8_t *p = *pp;
        if (p >= ep) {
                return EINVAL;
        }
        size_t i = p - g_buf;
        V_CHECK(i < NB, "numbers are read in the code");
        size_t n = g_ll[i];
        if (n == 0 || n > (size_t)(ep - p)) {
                return EINVAL;
        }
        *vp = g_lv[i];
        *pp = p + n;
        return 0;
}
static uint64_t
v_leb_nocheck(const uint8_t **pp)
{
        const uint8_t *p = *pp;
        size_t i = p - g_buf;
        V_CHECK(i < NB && g_ll[i] != 0, "only checked numbers are read without checks");
        *pp = p + g_ll[i];
        return g_lv[i];
}
static int64_t
s33(uint64_t v)
{
        return (v & ((uint64_t)1 << 32)) != 0 ? (int64_t)(v | 0xffffffff00000000) : (int64_t)(v & 0xffffffff);
}
static int
read_leb_u32(const uint8_t **pp, const uint8_t *ep, uint32_t *resultp)
{
        uint64_t v;
        int ret = v_leb(pp, ep, &v);
        if (ret == 0) {
                *resultp = (uint32_t)v;
        }
        return ret;
}
static int
read_leb_i32(const uint8_t **pp, const uint8_t *ep, uint32_t *resultp)
{
        return read_leb_u32(pp, ep, resultp);
}
static int
read_leb_i64(const uint8_t **pp, const uint8_t *ep, uint64_t *resultp)
{
        return v_leb(pp, ep, resultp);
}
static int
read_leb_s(const uint8_t **pp, const uint8_t *ep, unsigned int bits, int64_t *resultp)
{
        uint64_t v;
        V_CHECK(bits == 33, "a block type is a 33-bit number");
        int ret = v_leb(pp, ep, &v);
        if (ret == 0) {
                *resultp = s33(v);
        }
        return ret;
}
static uint32_t
read_leb_u32_nocheck(const uint8_t **pp)
{
        return (uint32_t)v_leb_nocheck(pp);
}
static uint32_t
read_leb_i32_nocheck(const uint8_t **pp)
{
        return (uint32_t)v_leb_nocheck(pp);
}
static uint64_t
read_leb_i64_nocheck(const uint8_t **pp)
{
        return v_leb_nocheck(pp);
}
static int64_t
read_leb_s33_nocheck(const uint8_t **pp)
{
        return s33(v_leb_nocheck(pp));
}

/*
 * the module: types of the things it has
 */
static const struct tabletype *
module_tabletype(const struct module *m, uint32_t idx)
{
        V_CHECK(m == &g_mod && idx < g_mod.nimportedtables + g_mod.ntables, "the table exists");
        return &g_tt[idx & 1];
}
static const struct globaltype *
module_globaltype(const struct module *m, uint32_t idx)
{
        V_CHECK(m == &g_mod && idx < g_mod.nimportedglobals + g_mod.nglobals, "the global exists");
        return &g_gt[idx & 1];
}
static const struct functype *
module_functype(const struct module *m, uint32_t idx)
{
        V_CHECK(m == &g_mod && idx < g_mod.nimportedfuncs + g_mod.nfuncs, "the function exists");
        return &g_ft[idx & 1];
}
static const struct tagtype *
module_tagtype(const struct module *m, uint32_t idx)
{
        V_CHECK(m == &g_mod && idx < g_mod.nimportedtags + g_mod.ntags, "the tag exists");
        return &g_tagt[idx & 1];
}
static const struct functype *
module_tagtype_functype(const struct module *m, const struct tagtype *tt)
{
        V_CHECK(m == &g_mod && tt->typeidx < 2, "the tag type is the module's");
        return &g_ft[tt->typeidx & 1];
}
static bool g_oom;
static int
array_extend(struct mem_context *mctx, void **p, size_t elem_size, uint32_t old_count, uint32_t new_count)
{
        if (g_oom) {
                return ENOMEM;
        }
        V_CHECK(new_count <= 4, "the array grows by what is added");
        if (elem_size == sizeof(g_an[0])) {
                V_CHECK(*p == NULL || *p == (void *)g_an || *p == (void *)g_jumps, "the array is extended");
        }
        if (*p == NULL) {
                *p = p == (void **)&g_ei.jumps ? (void *)g_jumps : (void *)g_an;
        }
        return 0;
}

static int
read_vec_u32(struct mem_context *mctx, const uint8_t **pp, const uint8_t *ep, uint32_t *countp, uint32_t **resultp)
{
        uint32_t n, i;
        int ret = read_leb_u32(pp, ep, &n);
        if (ret != 0) {
                return ret;
        }
        V_ASSUME(n <= 2);
        uint32_t *a = NULL;
        if (n > 0) {
                a = mem_alloc(mctx, n * sizeof(*a));
                V_ASSUME(a != NULL);
        }
        for (i = 0; i < n; i++) {
                ret = read_leb_u32(pp, ep, &a[i]);
                if (ret != 0) {
                        mem_free(mctx, a, n * sizeof(*a));
                        return ret;
                }
        }
        *countp = n;
        *resultp = a;
        return 0;
}

static int
vv_table_init(struct exec_context *ectx, uint32_t tableidx, uint32_t elemidx, uint32_t d, uint32_t s, uint32_t n)
{
        V_CHECK(false, "validators do not execute");
        return EINVAL;
}

static enum valtype
in_valtype(void)
{
        uint8_t k = in_u8();
        V_ASSUME(k < 8);
        return k == 0   ? TYPE_i32
               : k == 1 ? TYPE_i64
               : k == 2 ? TYPE_f32
               : k == 3 ? TYPE_f64
               : k == 4 ? TYPE_v128
               : k == 5 ? TYPE_funcref
               : k == 6 ? TYPE_externref
                        : TYPE_exnref;
}
static bool
s_ref(enum valtype t)
{
        return t == TYPE_funcref || t == TYPE_externref || t == TYPE_exnref;
}
static bool
s_valtype(uint32_t t)
{
        return t == TYPE_i32 || t == TYPE_i64 || t == TYPE_f32 || t == TYPE_f64 || t == TYPE_v128 ||
               s_ref((enum valtype)t);
}
/* number of cells */
static uint32_t
s_csz(enum valtype t)
{
        return t == TYPE_i32 || t == TYPE_f32                                   ? 1
               : t == TYPE_v128                                                 ? 4
               : t == TYPE_exnref                                               ? TOYWASM_EXCEPTION_MAX_CELLS + 2
                                                                                : 2;
}

/*
 * A validation state: nt types on the stack above the window's bottom, the
 * base of the block at any of them.
 * Unknown types are only at the base of a block with unreachable code.
 */
static void
setup_valid(uint32_t maxn)
{
        uint32_t i;
        g_n0 = in_u8();
        g_h0 = in_u8();
        V_ASSUME(g_n0 <= maxn && g_h0 <= g_n0);
        g_unreach = in_bool();
        g_hcell = in_u32();
        g_maxcells0 = in_u32();
        V_ASSUME(g_hcell <= 0x7fffffff);
        uint32_t nc = g_hcell;
        for (i = 0; i < maxn; i++) {
                g_vt[i] = in_valtype();
                if (i >= g_h0 && i < g_n0) {
                        if (i == g_h0 && g_unreach && in_bool()) {
                                g_vt[i] = TYPE_UNKNOWN;
                        } else if (!g_unreach) {
                                nc += s_csz(g_vt[i]);
                        }
                }
                g_vt0[i] = g_vt[i];
        }
        V_ASSUME(g_unreach || g_maxcells0 >= nc);
        g_v.valtypes.p = g_vt;
        g_v.valtypes.lsize = g_n0;
        g_v.valtypes.psize = NV;
        g_v.ncells = nc;
        g_ei.maxcells = g_maxcells0;
        g_v.cframes.p = g_cf;
        g_v.cframes.lsize = 1;
        g_v.cframes.psize = 3;
        g_cf[0].op = FRAME_OP_BLOCK;
        g_cf[0].height = g_h0;
        g_cf[0].height_cell = g_hcell;
        g_cf[0].unreachable = g_unreach;
        g_v.module = &g_mod;
        g_v.ei = &g_ei;
        g_v.report = &g_report;
        g_v.options = &g_opt;
        g_v.mctx = &g_mctx;
        g_c.validation = &g_v;
        g_mod.nimportedmems = in_u32();
        g_mod.nmems = in_u32();
        V_ASSUME(g_mod.nimportedmems <= UINT32_MAX - g_mod.nmems);
        g_mod.bin = g_buf;
}
/* code: the instruction's immediates start at g_p0 */
static void
setup_imm(uint32_t nlebs)
{
        uint32_t i;
        for (i = 0; i < NB; i++) {
                g_buf[i] = in_u8();
                if (nlebs > 0) {
                        g_lv[i] = in_u64();
                        g_ll[i] = in_u8();
                        V_ASSUME(g_ll[i] <= 10);
                }
        }
        uint8_t a = in_u8(), e = in_u8();
        if (g_fixpos) {
                a = 2;
        }
        V_ASSUME(a >= 2 && a <= e && e <= NB);
        g_p0 = &g_buf[a];
        g_ep = &g_buf[e];
        /* annotations made before were for earlier code */
        uint8_t n = in_u8();
        V_ASSUME(n <= 2);
        g_ei.type_annotations.ntypes = n;
        g_ei.type_annotations.default_size = in_u32();
        V_ASSUME(g_ei.type_annotations.default_size <= 6);
        V_ASSUME(n == 0 || g_ei.type_annotations.default_size != 0);
        for (i = 0; i < 2; i++) {
                g_an[i].pc = in_u8();
                g_an[i].size = in_u8();
                V_ASSUME(g_an[i].size > 0 && g_an[i].size <= 6);
        }
        V_ASSUME(g_an[0].pc < a && g_an[1].pc < a && g_an[0].pc < g_an[1].pc);
        g_ei.type_annotations.types = n > 0 ? g_an : NULL;
}

/*
 * the typing rules: s_* simulate the algorithm of the specification's
 * appendix on a copy of the stack.
 */
static bool s_ok; /* valid so far */
static enum valtype s_vt[NV];
static uint32_t s_n, s_h, s_nc, s_max;
static bool s_un;
static const uint8_t *s_p;
static void
s_begin(uint32_t maxn)
{
        uint32_t i;
        s_ok = true;
        for (i = 0; i < maxn; i++) {
                s_vt[i] = g_vt[i];
        }
        s_n = g_n0;
        s_h = g_h0;
        s_nc = g_v.ncells;
        s_max = g_maxcells0;
        s_un = g_unreach;
        s_p = g_p0;
        g_v_saved = g_v;
        g_cf_saved = g_cf[0];
        g_ei_saved = g_ei;
}
static enum valtype
s_pop(enum valtype want)
{
        if (!s_ok) {
                return TYPE_UNKNOWN;
        }
        if (s_n == s_h) {
                if (!s_un) {
                        s_ok = false;
                }
                return TYPE_UNKNOWN;
        }
        enum valtype t = s_vt[--s_n];
        if (want != TYPE_UNKNOWN && t != TYPE_UNKNOWN && want != t && !(want == TYPE_ANYREF && s_ref(t))) {
                s_ok = false;
        }
        if (!s_un) {
                s_nc -= s_csz(t);
        }
        return t;
}
static void
s_push(enum valtype t)
{
        if (!s_ok) {
                return;
        }
        s_vt[s_n++] = t;
        if (!s_un) {
                s_nc += s_csz(t);
                if (s_nc > s_max) {
                        s_max = s_nc;
                }
        }
}
static void
s_require(bool c)
{
        if (!c) {
                s_ok = false;
        }
}
static uint64_t
s_num(void)
{
        uint64_t v = 0;
        if (s_ok && v_leb(&s_p, g_ep, &v) != 0) {
                s_ok = false;
        }
        return v;
}
static uint32_t
s_idx(void)
{
        return (uint32_t)s_num();
}
static uint8_t
s_byte(void)
{
        if (s_ok && s_p >= g_ep) {
                s_ok = false;
        }
        return s_ok ? *s_p++ : 0;
}
static void
s_skip(uint32_t n)
{
        if (s_ok && (size_t)(g_ep - s_p) < n) {
                s_ok = false;
        }
        if (s_ok) {
                s_p += n;
        }
}
/* a memory operand: alignment at most, or exactly, 1 << maxalign */
static void
s_memarg(uint32_t maxalign, bool exact)
{
        uint32_t align = s_idx();
        uint32_t memidx = 0;
        if ((align & 0x40) != 0) {
                align &= ~(uint32_t)0x40;
                memidx = s_idx();
        }
        s_idx();
        s_require(exact ? align == maxalign : align <= maxalign);
        s_require(memidx < g_mod.nimportedmems + g_mod.nmems);
}
static void
s_lane(uint32_t n)
{
        s_require(s_byte() < n);
}
/* (un)reachable: the rest of the block is unreachable */
static void
s_unreachable(void)
{
        s_n = s_h;
        s_nc = g_hcell;
        s_un = true;
}

/*
 * the instruction is accepted iff the rule says so, and the state is as the
 * rule says
 */
static void
check_valid(int ret, const uint8_t *p)
{
        V_CHECK((ret == 0) == s_ok, "accepted if and only if well-typed, with valid immediates");
        V_CHECK(ret == 0 || ret == EINVAL, "otherwise rejected as invalid");
        if (ret == 0 && s_ok) {
                uint8_t i = in_u8();
                V_ASSUME(i < NV);
                V_CHECK(p == s_p, "exactly the immediates are consumed");
                V_CHECK(g_v.valtypes.lsize == s_n, "height of the operand stack");
                V_CHECK(i >= s_n || g_vt[i] == s_vt[i], "types on the operand stack");
                V_CHECK(g_v.ncells == s_nc, "cells on the operand stack");
                V_CHECK(g_ei.maxcells == s_max, "maximum number of cells");
                V_CHECK(g_cf[0].height == g_h0 && g_cf[0].height_cell == g_hcell &&
                                g_cf[0].op == FRAME_OP_BLOCK && g_cf[0].unreachable == s_un,
                        "the block is as before");
                V_CHECK(g_v.cframes.lsize == 1, "the blocks are as before");
                V_CHECK(i <= s_h || i >= s_n || s_vt[i] != TYPE_UNKNOWN, "unknown types only at the base");
        }
}
static void
restore_valid(void)
{
        uint32_t i;
        g_v = g_v_saved;
        g_cf[0] = g_cf_saved;
        g_ei = g_ei_saved;
        for (i = 0; i < 4; i++) {
                g_vt[i] = g_vt0[i];
        }
}
#define RUN(f)                                                                \
        do {                                                                  \
                p = g_p0;                                                     \
                ret = f(&p, g_ep, &g_c);                                      \
        } while (0)
/* an accepted instruction is skipped over to the same place */
#define SKIP(f)                                                               \
        do {                                                                  \
                if (ret == 0) {                                               \
                        sp = g_p0;                                            \
                        V_CHECK(f(&sp, NULL, &g_skip) == 0, "skipping succeeds"); \
                        V_CHECK(sp == s_p, "skipping ends at the same place"); \
                }                                                             \
        } while (0)
