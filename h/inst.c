//@family base=core
//@stub exec_const_expr it fails, or gives any value of the type (h/control.c)
//@stub table_init it fails or succeeds (h/table.c)
//@stub memory_init it fails or succeeds (h/membulk.c)
//@stub elem_drop it is recorded (h/table.c)
//@stub data_drop it is recorded (h/membulk.c)
//@trusted memset (by words and by structures)
//@stub *mem_alloc (P20) it fails, or gives an object that is not in use
//@stub *mem_zalloc (P20) it fails, or gives a cleared object that is not in use
//@stub *mem_calloc (P20) it fails, or gives a cleared object that is not in use
//@stub *mem_extend (P20) it fails, or gives an object that is not in use (only called for empty vectors here)
//@stub *mem_free (P20) the object is given back, with its size
//@stub invoke it returns anything
//@stub *resolve_imports (only in h_instance_create_no_init) it fails, or fills the imported entries (h/types.c)
//@stub *exec_expr_continue it returns anything
//@stub *suspend_parked it is recorded
//@stub *instance_create_no_init (only in h_instance_create) it fails or gives an instance
//@stub *instance_execute_init (only in h_instance_create) it returns anything
//@stub *instance_destroy (only in h_instance_create) it is recorded
//@stub *instance_execute_handle_restart (only in h_instance_create) it gives a result which is not restartable
/*
 * Instantiation.
 */
#define V_N_resolve_imports real_resolve_imports
#define V_N_exec_expr_continue real_exec_expr_continue
#define V_N_suspend_parked real_suspend_parked
#define V_N_instance_create_no_init real_instance_create_no_init
#define V_N_instance_execute_init real_instance_execute_init
#define V_N_instance_destroy real_instance_destroy
#define V_N_instance_execute_handle_restart real_instance_execute_handle_restart
#define V_N_mem_alloc real_mem_alloc
#define V_N_mem_zalloc real_mem_zalloc
#define V_N_mem_calloc real_mem_calloc
#define V_N_mem_extend real_mem_extend
#define V_N_mem_free real_mem_free
#include "verif.h"
#include "type.h"
#include "exec_context.h"
#include "instance.h"
static int vi_const_expr(const struct expr *expr, enum valtype type, struct val *result, struct exec_context *ctx);
static int vi_table_init(struct exec_context *ectx, uint32_t tableidx, uint32_t elemidx, uint32_t d, uint32_t s, uint32_t n);
static int vi_memory_init(struct exec_context *ectx, uint32_t memidx, uint32_t dataidx, uint32_t d, uint32_t s, uint32_t n);
static void vi_elem_drop(struct exec_context *ectx, uint32_t elemidx);
static void vi_data_drop(struct exec_context *ectx, uint32_t dataidx);
static int vi_invoke(const struct funcinst *finst, const struct resulttype *p, const struct resulttype *r, struct exec_context *ctx);
#define exec_const_expr(a, b, c, d) vi_const_expr(a, b, c, d)
#define table_init(a, b, c, d, e, f) vi_table_init(a, b, c, d, e, f)
#define memory_init(a, b, c, d, e, f) vi_memory_init(a, b, c, d, e, f)
#define elem_drop(a, b) vi_elem_drop(a, b)
#define data_drop(a, b) vi_data_drop(a, b)
#define invoke(a, b, c, d) vi_invoke(a, b, c, d)
/* clear memory by words or by a structure */
static const struct exec_context vi_zero_ctx;
static void *
vi_memset(void *p, int c, size_t n)
{
        V_CHECK(c == 0, "memory is cleared");
        if (n == sizeof(struct exec_context)) {
                *(struct exec_context *)p = vi_zero_ctx;
        } else if (n == sizeof(struct exec_options)) {
                *(struct exec_options *)p = vi_zero_ctx.options;
        } else {
                size_t i;
                V_CHECK(n % sizeof(void *) == 0, "words");
                for (i = 0; i < n / sizeof(void *); i++) {
                        ((void **)p)[i] = NULL;
                }
        }
        return p;
}
#undef memset
#define memset(a, b, c) vi_memset(a, b, c)
static int resolve_imports(struct instance *inst, const struct import_object *imports, struct report *report);
static int exec_expr_continue(struct exec_context *ctx);
static void suspend_parked(struct cluster *c);
static int instance_create_no_init(struct mem_context *mctx, const struct module *m, struct instance **instp,
                        const struct import_object *imports, struct report *report);
static int instance_execute_init(struct exec_context *ctx);
static void instance_destroy(struct instance *inst);
static int instance_execute_handle_restart(struct exec_context *ctx, int exec_ret);
static void *mem_alloc(struct mem_context *ctx, size_t sz);
static void *mem_zalloc(struct mem_context *ctx, size_t sz);
static void *mem_calloc(struct mem_context *ctx, size_t a, size_t b);
static void *mem_extend(struct mem_context *ctx, void *p, size_t oldsz, size_t newsz);
static void mem_free(struct mem_context *ctx, void *p, size_t sz);
#include "u_core.h"

static struct exec_context g_ctx;
static struct instance g_inst;
static struct module g_m;
static struct mem_context g_mctx;
static struct report g_report;

/*
 * Allocations: objects of the types in use, each with the number of bytes
 * allocated from it.  Bit i of g_fails says if the i-th allocation fails.
 */
static size_t g_sz_inst, g_sz_f, g_sz_m, g_sz_g, g_sz_t, g_sz_x, g_sz_v[5], g_sz_c[3];
static struct instance g_o_inst;
static struct funcinst g_o_f;
static struct meminst g_o_m;
static struct globalinst g_o_g;
static struct tableinst g_o_t;
static struct taginst g_o_x;
static void *g_o_v[5][2];
static uint32_t g_o_c[3][8];
static uint32_t g_fails;
static unsigned int g_nalloc, g_nv, g_ncal;
static size_t g_live;

static bool g_want_t; /* a table instance is as large as a function instance */
static bool
fails(void)
{
        V_CHECK(g_nalloc < 32, "number of allocations");
        return (g_fails >> g_nalloc++) & 1;
}
static void *
vi_take(void *p, size_t *szp, size_t sz)
{
        V_CHECK(*szp == 0, "not in use");
        *szp = sz;
        g_live += sz;
        return p;
}
static void *
mem_zalloc(struct mem_context *ctx, size_t sz)
{
        V_CHECK(ctx == &g_mctx && sz > 0, "memory context");
        if (fails()) {
                return NULL;
        }
        if (sz == sizeof(g_o_inst)) {
                static const struct instance zero;
                g_o_inst = zero;
                return vi_take(&g_o_inst, &g_sz_inst, sz);
        }
        if (sz == sizeof(g_o_m)) {
                static const struct meminst zero;
                g_o_m = zero;
                return vi_take(&g_o_m, &g_sz_m, sz);
        }
        if (sz == sizeof(g_o_t) && g_sz_t == 0 && g_want_t) {
                static const struct tableinst zero;
                g_o_t = zero;
                return vi_take(&g_o_t, &g_sz_t, sz);
        }
        if (sz == sizeof(g_o_x)) {
                static const struct taginst zero;
                g_o_x = zero;
                return vi_take(&g_o_x, &g_sz_x, sz);
        }
        V_CHECK(sz == sizeof(g_o_f), "a known type");
        static const struct funcinst zero;
        g_o_f = zero;
        return vi_take(&g_o_f, &g_sz_f, sz);
}
static void *
mem_alloc(struct mem_context *ctx, size_t sz)
{
        V_CHECK(ctx == &g_mctx && sz == sizeof(g_o_g), "a known type");
        return fails() ? NULL : vi_take(&g_o_g, &g_sz_g, sz);
}
static void *
mem_calloc(struct mem_context *ctx, size_t a, size_t b)
{
        V_CHECK(ctx == &g_mctx && a > 0 && b > 0 && a * b <= sizeof(g_o_c[0]) && g_ncal < 3, "size");
        if (fails()) {
                return NULL;
        }
        unsigned int i, k = g_ncal++;
        for (i = 0; i < 8; i++) {
                g_o_c[k][i] = i < a * b / 4 ? 0 : UINT32_MAX;
        }
        return vi_take(&g_o_c[k][0], &g_sz_c[k], a * b);
}
static void *
mem_extend(struct mem_context *ctx, void *p, size_t oldsz, size_t newsz)
{
        V_CHECK(ctx == &g_mctx && p == NULL && oldsz == 0 && newsz > 0 && newsz <= sizeof(g_o_v[0]) && g_nv < 5, "size");
        if (fails()) {
                return NULL;
        }
        unsigned int k = g_nv++;
        return vi_take(&g_o_v[k][0], &g_sz_v[k], newsz);
}
static void
mem_free(struct mem_context *ctx, void *p, size_t sz)
{
        unsigned int i;
        if (p == NULL) {
                return;
        }
        size_t *szp = p == &g_o_inst ? &g_sz_inst : p == &g_o_f ? &g_sz_f : p == &g_o_m ? &g_sz_m : p == &g_o_g ? &g_sz_g : p == &g_o_t ? &g_sz_t : p == &g_o_x ? &g_sz_x : NULL;
        for (i = 0; i < 5; i++) {
                if (p == &g_o_v[i][0]) {
                        szp = &g_sz_v[i];
                }
        }
        for (i = 0; i < 3; i++) {
                if (p == &g_o_c[i][0]) {
                        szp = &g_sz_c[i];
                }
        }
        V_CHECK(ctx == &g_mctx && szp != NULL && *szp == sz && sz > 0, "an object in use is given back, with its size");
        *szp = 0;
        g_live -= sz;
}

static void
setup(void)
{
        g_fails = in_u32();
        g_nalloc = g_nv = g_ncal = 0;
        g_live = 0;
        g_mctx.parent = NULL;
        g_mctx.allocated = g_mctx.peak = 0;
        g_mctx.limit = SIZE_MAX;
        g_inst.module = &g_m;
        g_inst.mctx = &g_mctx;
        g_ctx.instance = &g_inst;
}

/* ---- initialization: the calls are compared with the list of expected ones */
enum { CONST_EXPR, TABLE_INIT, ELEM_DROP, MEMORY_INIT, DATA_DROP, INVOKE };
#define NG 2
#define NE 2
#define ND 2
#define NEV (NG + 3 * NE + 3 * ND + 1)
static struct event {
        int kind;
        const void *ptr;
        uint32_t a, b, n;
        int ret;
        uint32_t val;
} g_ev[NEV];
static unsigned int g_nev, g_at;
static int g_result;

static int
event(int kind, const void *ptr, uint32_t a, uint32_t b, uint32_t d, uint32_t n, uint32_t *val)
{
        V_CHECK(g_at < g_nev && g_result == 0, "a call after the last one");
        const struct event *e = &g_ev[g_at];
        V_CHECK(e->kind == kind && e->ptr == ptr && e->a == a && e->b == b && e->n == n, "the next call");
        if (kind == TABLE_INIT || kind == MEMORY_INIT) {
                V_CHECK(d == g_ev[g_at - 1].val, "offset");
        }
        if (val != NULL) {
                *val = e->val;
        }
        g_result = e->ret;
        g_at++;
        return e->ret;
}
static int
vi_const_expr(const struct expr *expr, enum valtype type, struct val *result, struct exec_context *ctx)
{
        V_CHECK(ctx == &g_ctx, "context");
        return event(CONST_EXPR, expr, (uint32_t)type, 0, 0, 0, &result->u.i32);
}
static int
vi_table_init(struct exec_context *ctx, uint32_t tableidx, uint32_t elemidx, uint32_t d, uint32_t s, uint32_t n)
{
        V_CHECK(ctx == &g_ctx && s == 0, "from the beginning");
        return event(TABLE_INIT, NULL, tableidx, elemidx, d, n, NULL);
}
static int
vi_memory_init(struct exec_context *ctx, uint32_t memidx, uint32_t dataidx, uint32_t d, uint32_t s, uint32_t n)
{
        V_CHECK(ctx == &g_ctx && s == 0, "from the beginning");
        return event(MEMORY_INIT, NULL, memidx, dataidx, d, n, NULL);
}
static void
vi_elem_drop(struct exec_context *ctx, uint32_t i)
{
        V_CHECK(ctx == &g_ctx, "context");
        event(ELEM_DROP, NULL, i, 0, 0, 0, NULL);
}
static void
vi_data_drop(struct exec_context *ctx, uint32_t i)
{
        V_CHECK(ctx == &g_ctx, "context");
        event(DATA_DROP, NULL, i, 0, 0, 0, NULL);
}
static int
vi_invoke(const struct funcinst *finst, const struct resulttype *p, const struct resulttype *r, struct exec_context *ctx)
{
        V_CHECK(ctx == &g_ctx && p == NULL && r == NULL, "start function arguments");
        return event(INVOKE, finst, 0, 0, 0, 0, NULL);
}
static void
expect(int kind, const void *ptr, uint32_t a, uint32_t b, uint32_t n, bool mayfail)
{
        struct event *e = &g_ev[g_nev++];
        e->kind = kind;
        e->ptr = ptr;
        e->a = a;
        e->b = b;
        e->n = n;
        e->ret = mayfail ? (int)in_u32() : 0;
        e->val = in_u32();
}
static struct global g_globals[NG];
static struct globaltype g_gt[NG];
static struct globalinst g_gi[NG], *g_gip[NG + 1];
static struct element g_elems[NE];
static struct data g_datas[ND];
static struct funcinst g_f[1], *g_fp[1];

static void
init_case(uint32_t ng, uint32_t ne, uint32_t nd)
{
        unsigned int i;
        setup();
        g_m.nglobals = ng;
        g_m.nimportedglobals = 1;
        g_m.globals = g_globals;
        g_inst.globals.p = g_gip;
        g_inst.globals.lsize = ng + 1;
        g_nev = g_at = 0;
        g_result = 0;
        for (i = 0; i < ng; i++) {
                g_gt[i].t = in_bool() ? TYPE_i32 : TYPE_funcref;
                g_gi[i].type = &g_gt[i];
                g_gip[i + 1] = &g_gi[i];
                expect(CONST_EXPR, &g_globals[i].init, (uint32_t)g_gt[i].t, 0, 0, true);
        }
        g_m.nelems = ne;
        g_m.elems = g_elems;
        uint32_t modes = in_u32();
        V_ASSUME(modes < 9);
        for (i = 0; i < ne; i++) {
                uint32_t m = i == 0 ? modes % 3 : modes / 3;
                g_elems[i].mode = m == 0 ? ELEM_MODE_ACTIVE : m == 1 ? ELEM_MODE_PASSIVE : ELEM_MODE_DECLARATIVE;
                g_elems[i].table = in_u32();
                g_elems[i].init_size = in_u32();
                if (m == 0) {
                        expect(CONST_EXPR, &g_elems[i].offset, (uint32_t)TYPE_i32, 0, 0, true);
                        expect(TABLE_INIT, NULL, g_elems[i].table, i, g_elems[i].init_size, true);
                }
                if (m != 1) {
                        expect(ELEM_DROP, NULL, i, 0, 0, false);
                }
        }
        g_m.ndatas = nd;
        g_m.datas = g_datas;
        for (i = 0; i < nd; i++) {
                bool active = in_bool();
                g_datas[i].mode = active ? DATA_MODE_ACTIVE : DATA_MODE_PASSIVE;
                g_datas[i].memory = in_u32();
                g_datas[i].init_size = in_u32();
                if (active) {
                        expect(CONST_EXPR, &g_datas[i].offset, (uint32_t)TYPE_i32, 0, 0, true);
                        expect(MEMORY_INIT, NULL, g_datas[i].memory, i, g_datas[i].init_size, true);
                        expect(DATA_DROP, NULL, i, 0, 0, false);
                }
        }
        g_m.has_start = in_bool();
        g_m.start = in_u32();
        g_m.nimportedfuncs = in_u32();
        g_m.nfuncs = in_u32();
        V_ASSUME(g_m.nfuncs <= UINT32_MAX - g_m.nimportedfuncs && g_m.start < g_m.nimportedfuncs + g_m.nfuncs);
        g_inst.funcs.p = g_fp - (size_t)g_m.start;
        g_inst.funcs.lsize = g_m.nimportedfuncs + g_m.nfuncs;
        g_fp[0] = &g_f[0];
        if (g_m.has_start) {
                expect(INVOKE, &g_f[0], 0, 0, 0, true);
        }
        int ret = real_instance_execute_init(&g_ctx);
        V_CHECK(ret == g_result && (ret != 0 || g_at == g_nev), "everything is initialized, in order");
        for (i = 0; i < ng; i++) {
                V_CHECK(ret != 0 || g_gi[i].val.u.i32 == g_ev[i].val, "global value");
        }
        V_CANARY(ret == 0 && g_nev == ng + 3 * ne + 3 * nd + 1, "ok");
        V_CANARY(ret != 0 && g_at == g_nev, "start function fails");
        V_CANARY(ret != 0 && g_at == 1, "the first fails");
}
//@job h_execute_init_globals prop=P29 enforce=instance_execute_init dfcc=0 unwind=16 bounded="2 globals, 1 element segment, 1 data segment"
void h_execute_init_globals(void) { init_case(2, 1, 1); }
//@job h_execute_init_elems prop=P29,P05 enforce=instance_execute_init dfcc=0 unwind=16 bounded="2 element segments, 1 data segment"
void h_execute_init_elems(void) { init_case(0, 2, 1); }
//@job h_execute_init_datas prop=P29,P03 enforce=instance_execute_init dfcc=0 unwind=16 bounded="1 element segment, 2 data segments"
void h_execute_init_datas(void) { init_case(0, 1, 2); }

/* ---- restarts */
static unsigned int g_nc, g_ns;
static int g_rets[3];
static struct cluster *g_cl;
static int
exec_expr_continue(struct exec_context *ctx)
{
        V_CHECK(ctx == &g_ctx && g_nc < 3 && g_ns == g_nc + 1, "continue");
        return g_rets[g_nc++];
}
static void
suspend_parked(struct cluster *c)
{
        V_CHECK(c == g_cl && g_ns == g_nc, "parked");
        g_ns++;
}
//@job h_handle_restart prop=P28,P29 enforce=instance_execute_handle_restart,instance_execute_handle_restart_once,instance_execute_continue dfcc=0 unwind=5 bounded="at most 3 restarts"
void
h_handle_restart(void)
{
        unsigned int i, n = 0;
        setup();
        g_nc = g_ns = 0;
        for (i = 0; i < 3; i++) {
                g_rets[i] = (int)in_u32();
        }
        V_ASSUME(!IS_RESTARTABLE(g_rets[2]));
        static struct cluster *cl;
        g_ctx.cluster = g_cl = cl;
        int r0 = (int)in_u32();
        bool once = in_bool();
        int want = r0;
        while (IS_RESTARTABLE(want) && (!once || n == 0)) {
                want = g_rets[n++];
        }
        int ret = once ? instance_execute_handle_restart_once(&g_ctx, r0) : real_instance_execute_handle_restart(&g_ctx, r0);
        V_CHECK(ret == want && g_nc == n && g_ns == n, "restarts");
        V_CANARY(ret == 0 && n == 3, "three");
        V_CANARY(once && IS_RESTARTABLE(ret), "once");
        V_CANARY(ret == ETOYWASMTRAP && n == 0, "a trap");
}

/* ---- creation */
static bool g_real_create; /* the real destroy is used */
static int g_r1, g_r2, g_r3;
static unsigned int g_ndestroy;
static struct instance *g_created;
static const struct import_object *g_imports;
static int
instance_create_no_init(struct mem_context *mctx, const struct module *m, struct instance **instp,
                        const struct import_object *imports, struct report *report)
{
        V_CHECK(mctx == &g_mctx && m == &g_m && imports == g_imports && report == &g_report, "instance_create_no_init arguments");
        if (g_r1 == 0) {
                *instp = &g_inst;
        }
        return g_r1;
}
static int
instance_execute_init(struct exec_context *ctx)
{
        V_CHECK(ctx->instance == &g_inst && ctx->report == &g_report && ctx->mctx == &g_mctx && !ctx->trapped &&
                ctx->event == EXEC_EVENT_NONE && ctx->frames.lsize == 0 && ctx->stack.lsize == 0, "a fresh context");
        return g_r2;
}
static int
instance_execute_handle_restart(struct exec_context *ctx, int ret)
{
        V_CHECK(ret == g_r2 && ctx->instance == &g_inst, "the result of the initialization");
        return g_r3;
}
static void
instance_destroy(struct instance *inst)
{
        if (g_real_create) {
                real_instance_destroy(inst);
                return;
        }
        V_CHECK(inst == &g_inst, "the instance is destroyed");
        g_ndestroy++;
}
//@job h_instance_create prop=P29 enforce=instance_create,exec_context_init,exec_context_clear dfcc=0 unwind=16
void
h_instance_create(void)
{
        setup();
        g_real_create = false;
        g_ndestroy = 0;
        g_r1 = (int)in_u32();
        g_r2 = (int)in_u32();
        g_r3 = (int)in_u32();
        struct instance *inst = NULL;
        int ret = instance_create(&g_mctx, &g_m, &inst, g_imports, &g_report);
        V_CHECK(ret == (g_r1 != 0 ? g_r1 : g_r3), "instance_create");
        V_CHECK(inst == (ret == 0 ? &g_inst : NULL), "the instance");
        V_CHECK(g_ndestroy == (g_r1 == 0 && g_r3 != 0), "a failed instance is destroyed");
        V_CHECK(g_live == 0, "the context is released");
        V_CANARY(ret == 0, "ok");
        V_CANARY(ret != 0 && g_r1 == 0, "fail");
}

#define NI 1 /* imported */
#define NDEF 1 /* defined */
static struct funcinst g_if;
static struct meminst g_im;
static struct globalinst g_ig;
static struct tableinst g_it;
static struct taginst g_itag;
static struct import g_ims[5];
static struct memtype g_mt[NDEF];
static struct tabletype g_tt[NDEF];
static struct tagtype g_tagt[NDEF];
static struct functype g_ft[1];
static struct func g_fn[NDEF];
static int
resolve_imports(struct instance *inst, const struct import_object *imports, struct report *report)
{
        V_CHECK(inst->module == &g_m && imports == g_imports && report == &g_report, "resolve_imports arguments");
        V_CHECK(inst->funcs.lsize == g_m.nimportedfuncs + g_m.nfuncs && inst->mems.lsize == g_m.nimportedmems + g_m.nmems &&
                inst->globals.lsize == g_m.nimportedglobals + g_m.nglobals && inst->tables.lsize == g_m.nimportedtables + g_m.ntables &&
                inst->tags.lsize == g_m.nimportedtags + g_m.ntags, "index spaces");
        if (g_m.nimportedfuncs > 0) VEC_ELEM(inst->funcs, 0) = &g_if;
        if (g_m.nimportedmems > 0) VEC_ELEM(inst->mems, 0) = &g_im;
        if (g_m.nimportedglobals > 0) VEC_ELEM(inst->globals, 0) = &g_ig;
        if (g_m.nimportedtables > 0) VEC_ELEM(inst->tables, 0) = &g_it;
        if (g_m.nimportedtags > 0) VEC_ELEM(inst->tags, 0) = &g_itag;
        return g_r1;
}
static void
create_case(unsigned int fi, unsigned int mi, unsigned int gi, unsigned int ti, unsigned int xi,
            unsigned int fd, unsigned int md, unsigned int gd, unsigned int td, unsigned int xd)
{
        setup();
        g_real_create = true;
        g_r1 = (int)in_u32();
        g_want_t = td > 0;
        g_m.nimportedfuncs = fi;
        g_m.nfuncs = fd;
        g_m.funcs = g_fn;
        g_m.nimportedmems = mi;
        g_m.nmems = md;
        g_m.mems = g_mt;
        g_m.nimportedglobals = gi;
        g_m.nglobals = gd;
        g_m.globals = g_globals;
        g_m.nimportedtables = ti;
        g_m.ntables = td;
        g_m.tables = g_tt;
        g_m.nimportedtags = xi;
        g_m.ntags = xd;
        g_m.tags = g_tagt;
        g_m.types = g_ft;
        g_m.ntypes = 1;
        g_tagt[0].typeidx = 0;
        g_m.nimports = 0;
        g_mt[0].lim.min = in_u32();
        g_mt[0].flags = 0;
        g_mt[0].page_shift = 16;
        g_tt[0].et = TYPE_externref;
        g_tt[0].lim.min = 2;
        g_m.ndatas = 3;
        g_m.nelems = 33;
        struct instance *inst = NULL;
        int ret = real_instance_create_no_init(&g_mctx, &g_m, &inst, g_imports, &g_report);
        V_CHECK(g_r1 == 0 ? ret == 0 || ret == ENOMEM : ret != 0, "instance_create_no_init");
        if (ret == 0) {
                V_CHECK(inst->module == &g_m && inst->mctx == &g_mctx, "module");
                V_CHECK(fi == 0 || VEC_ELEM(inst->funcs, 0) == &g_if, "imported function");
                V_CHECK(mi == 0 || VEC_ELEM(inst->mems, 0) == &g_im, "imported memory");
                V_CHECK(gi == 0 || VEC_ELEM(inst->globals, 0) == &g_ig, "imported global");
                V_CHECK(ti == 0 || VEC_ELEM(inst->tables, 0) == &g_it, "imported table");
                V_CHECK(xi == 0 || VEC_ELEM(inst->tags, 0) == &g_itag, "imported tag");
                if (fd > 0) {
                        const struct funcinst *f = VEC_ELEM(inst->funcs, fi);
                        V_CHECK(!f->is_host && f->u.wasm.instance == inst && f->u.wasm.funcidx == fi, "function");
                }
                if (md > 0) {
                        const struct meminst *m = VEC_ELEM(inst->mems, mi);
                        V_CHECK(m->type == &g_mt[0] && m->size_in_pages == g_mt[0].lim.min && m->allocated == 0, "memory");
                }
                if (gd > 0) {
                        V_CHECK(VEC_ELEM(inst->globals, gi)->type == &g_globals[0].type, "global");
                }
                if (td > 0) {
                        const struct tableinst *t = VEC_ELEM(inst->tables, ti);
                        V_CHECK(t->type == &g_tt[0] && t->size == g_tt[0].lim.min && (t->cells != NULL) == (t->size > 0), "table");
                        V_CHECK(t->size == 0 || (t->cells[0].x == 0 && t->cells[1].x == 0 && t->cells[2].x == 0 && t->cells[3].x == 0), "null references");
                }
                if (xd > 0) {
                        V_CHECK(VEC_ELEM(inst->tags, xi)->type == &g_ft[0], "tag");
                }
                V_CHECK(g_m.ndatas == 0 || !bitmap_test(&inst->data_dropped, 2), "no data segment is dropped");
                V_CHECK(g_m.nelems == 0 || (!bitmap_test(&inst->elem_dropped, 0) && !bitmap_test(&inst->elem_dropped, 32)), "no element segment is dropped");
                real_instance_destroy(inst);
        } else {
                V_CHECK(inst == NULL, "no instance");
        }
        V_CHECK(g_live == 0, "everything is released");
        V_CANARY(ret == 0, "ok");
        V_CANARY(ret == ENOMEM && g_r1 == 0, "no memory");
        V_CANARY(ret != 0 && ret == g_r1, "fail");
}
//@job h_create_func_mem prop=P29,P20,P18 enforce=instance_create_no_init,instance_destroy dfcc=0 unwind=10 solver=cadical unwindset=mem_reserve_one.0:2,mem_reserve_one.1:2 bounded="one imported and one defined function and memory"
void h_create_func_mem(void) { create_case(1, 1, 0, 0, 0, 1, 1, 0, 0, 0); }
//@job h_create_global_table prop=P29,P20,P18,P05 enforce=instance_create_no_init,instance_destroy,global_instance_create,table_instance_create,table_instance_destroy dfcc=0 unwind=10 solver=cadical unwindset=mem_reserve_one.0:2,mem_reserve_one.1:2 bounded="one imported and one defined global and table"
void h_create_global_table(void) { create_case(0, 0, 1, 1, 0, 0, 0, 1, 1, 0); }
//@job h_create_tag_func prop=P29,P20,P18,P13 enforce=instance_create_no_init,instance_destroy,tag_instance_create dfcc=0 unwind=10 solver=cadical unwindset=mem_reserve_one.0:2,mem_reserve_one.1:2 bounded="one imported and one defined tag, one defined function"
void h_create_tag_func(void) { create_case(0, 0, 0, 0, 1, 1, 0, 0, 0, 1); }
