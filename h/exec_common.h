/* operand-stack harness shared by all instruction contracts */
#pragma once
#include "verif.h"
#include "u_all.h"

static struct exec_context g_ctx;
static struct instance g_inst;
static struct module g_mod;
static struct report g_report;
static uint32_t g_h0;    /* cells below the operands */
static uint32_t g_nin;   /* operand cells */
static uint32_t g_w;     /* ghost: an arbitrary cell below the operands */
static uint32_t g_wv;    /* ghost: its value */
static const uint8_t *g_pc0;
static uint32_t g_in[24]; /* ghost: the operand cells */

static uint64_t
mk64(uint32_t lo, uint32_t hi)
{
        return (uint64_t)lo | (uint64_t)hi << 32;
}
static uint32_t in32(unsigned int i) { return g_in[i]; }
static uint64_t in64(unsigned int i) { return mk64(g_in[i], g_in[i + 1]); }
static uint32_t out32(unsigned int i) { return g_ctx.stack.p[g_h0 + i].x; }
static uint64_t out64(unsigned int i) { return mk64(out32(i), out32(i + 1)); }
static float
asf32(uint32_t x)
{
        union { uint32_t i; float f; } u;
        u.i = x;
        return u.f;
}
static double
asf64(uint64_t x)
{
        union { uint64_t i; double f; } u;
        u.i = x;
        return u.f;
}
static uint32_t
f32as(float x)
{
        union { uint32_t i; float f; } u;
        u.f = x;
        return u.i;
}
static uint64_t
f64as(double x)
{
        union { uint64_t i; double f; } u;
        u.f = x;
        return u.i;
}
static bool isnan32(uint32_t x) { return (x & 0x7fffffff) > 0x7f800000; }
static bool isnan64(uint64_t x) { return (x & 0x7fffffffffffffff) > 0x7ff0000000000000; }

/* contract of the trap constructor; vtrap is enforced in its own job */
int v_trap_with_id(struct exec_context *ctx, enum trapid id)
        V_REQ(!ctx->trapped) V_ASG(ctx->trapped, ctx->trap, *ctx->report)
        V_ENS(ctx->trapped && ctx->trap.trapid == id && V_RET == ETOYWASMTRAP);

#if !defined(MAXPSIZE)
#define MAXPSIZE (1 << 26)
#endif

static struct cell *
setup_stack(uint32_t nin, uint32_t nout)
{
        uint32_t need = nin > nout ? nin : nout;
#if defined(FIXED_STACK)
        g_h0 = 1;
        g_ctx.stack.psize = need + 2;
        static struct cell cells[40];
        g_ctx.stack.p = cells;
#else
        uint32_t psize = in_u32();
        g_h0 = in_u32();
        V_ASSUME(psize <= MAXPSIZE && g_h0 <= psize && psize - g_h0 >= need && psize > 0);
        g_ctx.stack.psize = psize;
        g_ctx.stack.p = malloc(psize * sizeof(struct cell));
        V_ASSUME(g_ctx.stack.p != NULL);
#endif
        g_nin = nin;
        g_w = in_u32();
        if (g_w < g_h0) {
                g_wv = in_u32();
                g_ctx.stack.p[g_w].x = g_wv;
        }
        unsigned int i;
        for (i = 0; i < nin; i++) {
                g_in[i] = in_u32();
                g_ctx.stack.p[g_h0 + i].x = g_in[i];
        }
        /* not maintained by the instruction handlers; arbitrary */
        g_ctx.stack.lsize = g_h0 + nin;
        g_ctx.trapped = false;
        g_ctx.report = &g_report;
        g_ctx.event = EXEC_EVENT_NONE;
        g_ctx.instance = &g_inst;
        g_inst.module = &g_mod;
        return g_ctx.stack.p + g_h0 + nin;
}

static bool
ctx_same(void)
{
        return g_ctx.instance == &g_inst && g_inst.module == &g_mod &&
               g_ctx.event == EXEC_EVENT_NONE && g_ctx.report == &g_report &&
               !(g_w < g_h0 && g_ctx.stack.p[g_w].x != g_wv);
}

/* the instruction completed, leaving nout cells instead of the operands */
static bool
done(int ret, uint32_t nout, const uint8_t *pc)
{
        return ret == 0 && !g_ctx.trapped && ctx_same() &&
               g_ctx.stack.lsize == g_h0 + nout && g_ctx.p == pc;
}

static bool
trapped(int ret, enum trapid id)
{
        return ret == ETOYWASMTRAP && g_ctx.trapped &&
               g_ctx.trap.trapid == id && ctx_same();
}

#define V_ASG_INSN(ncells)                                                    \
        V_ASG(ctx->p, ctx->stack.lsize, ctx->trapped, ctx->trap,              \
              *ctx->report, __CPROVER_object_upto(ctx->stack.p + g_h0,        \
                                        (ncells) * sizeof(struct cell)))
