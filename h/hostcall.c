//@family base=core fptr=do_host_call.function_pointer_call.1/v_host
//@stub *resulttype_cellsize (P27) it is a function of the type
//@stub *_vec_prealloc (P32) it fails, or makes room, possibly at another address
//@trusted memcpy and memset (as loops over words)
/*
 * Calls of host functions.  (The only host function is v_host; that it is
 * the one called is an obligation.)
 */
#include "branch.c"

static int g_h_ret;
static unsigned int g_h_n;
static struct host_instance *g_h_inst;
static const struct cell *g_h_p;
static int
v_host(struct exec_context *ctx, struct host_instance *hi, const struct functype *ft, const struct cell *params,
       struct cell *results)
{
        unsigned int i;
        V_CHECK(ctx == &g_ctx && hi == g_h_inst && ft == &g_ft2, "host function called");
        V_CHECK(params == results, "results in place of the parameters");
        V_CHECK(params >= g_ctx.stack.p && params + g_np2 == g_ctx.stack.p + g_ctx.stack.lsize, "parameters");
        V_CHECK(g_ctx.stack.lsize == g_lsize, "the parameters are on the stack");
        V_CHECK(!(g_w < g_lsize && g_ctx.stack.p[g_w].x != g_old[g_w]), "values");
        uint32_t base = (uint32_t)(params - g_ctx.stack.p);
        V_CHECK(g_nr2 <= g_ctx.stack.psize - base, "room for the results");
        g_h_n++;
        g_h_p = params;
        if (g_h_ret == 0) {
                for (i = 0; i < NS + 6; i++) {
                        if (i < g_nr2) {
                                results[i].x = 0x5a5a0000 + i;
                        }
                }
        }
        return g_h_ret;
}
//@job h_host_call prop=P12,P28 enforce=do_call,do_host_call,stack_prealloc,funcinst_functype dfcc=0 unwind=17 solver=cadical bounded="an operand stack of up to 13 cells (larger ones: the allocation fails)"
void
h_host_call(void)
{
        setup();
        V_ASSUME(g_np2 <= g_lsize);
        g_fi.is_host = true;
        static struct host_instance *dummy;
        g_h_inst = (struct host_instance *)&dummy;
        g_fi.u.host.instance = g_h_inst;
        g_fi.u.host.type = &g_ft2;
        g_fi.u.host.func = v_host;
        g_h_ret = (int)in_u32();
        g_ctx.restarts.lsize = 0;
        /* the context of a host function which returns ETOYWASMTRAP is trapped; not used here */
        int ret = do_call(&g_ctx, &g_fi);
        uint32_t base = g_lsize - g_np2;
        V_CHECK(g_ctx.p == g_code && control_is(g_nframes, g_nlabels, g_locsize), "control stack");
        V_CHECK(g_ctx.instance == &g_inst, "instance");
        if (g_h_n == 0) {
                V_CHECK(ret != 0 && g_nr2 > g_np2 && g_ctx.stack.lsize == g_lsize, "no room for the results");
                V_CHECK(!g_ctx.trapped ||
                                ((uint64_t)base + g_nr2 > g_ctx.options.max_stackcells && trap_is(ret, TRAP_TOO_MANY_STACKCELLS)),
                        "limit of cells");
                V_CANARY(g_ctx.trapped, "too many cells");
        } else {
                V_CHECK(!g_ctx.trapped && g_h_n == 1 && ret == g_h_ret, "result of the host function");
                V_CHECK(g_nr2 <= g_np2 || (uint64_t)base + g_nr2 <= g_ctx.options.max_stackcells, "limit of cells");
                if (ret == 0) {
                        V_CHECK(g_ctx.stack.lsize == base + g_nr2, "operand stack");
                        V_CHECK(!(g_w >= base && g_w < base + g_nr2 && g_ctx.stack.p[g_w].x != 0x5a5a0000 + g_w - base), "results");
                } else {
                        V_CHECK(g_ctx.stack.lsize == g_lsize, "the parameters are kept");
                        V_CHECK(!(g_w < g_lsize && g_ctx.stack.p[g_w].x != g_old[g_w]), "parameters");
                }
                V_CHECK(!(g_w < base && g_ctx.stack.p[g_w].x != g_old[g_w]), "operands");
                V_CANARY(ret == 0 && g_nr2 > g_np2 && g_ctx.stack.p == g_cells2, "more results");
                V_CANARY(ret == ETOYWASMRESTART, "restart");
        }
}
