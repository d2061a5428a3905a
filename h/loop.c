//@family base=core fptr=restart_insn.function_pointer_call.1/v_fetch_exec
//@stub *do_call (only in h_exec_loop*) it fails, or changes the context (jobs h_wasm_call, h_host_call)
//@stub *do_return_call (only in h_exec_loop*) it fails, or changes the context (job h_return_call)
//@stub *do_branch (only in h_exec_loop*) it changes the context (jobs h_branch*)
//@stub *do_exception (only in h_exec_loop*) it fails, or changes the context (job h_exception)
//@stub *check_interrupt (only in h_exec_loop*) it gives any result (job h_check_interrupt)
//@stub *timespec_now it fails, or gives any time (P24)
//@stub *adjust_check_interval (only in h_exec_loop*) it gives any interval other than 0 (job h_adjust_check_interval)
//@stub *frame_enter it fails, or enters the frame (job h_frame_enter)
//@stub *exec_expr_continue (only in h_exec_const_expr) it gives any result; 0 with the results on the stack (jobs h_exec_loop*)
//@stub fetch_exec_next_insn it fails, or changes the context and may set an event (instructions: h/control.c and others)
/*
 * The main loop of the interpreter: events, restarts, interrupts and traps.
 */
#define V_N_do_call real_do_call
#define V_N_do_return_call real_do_return_call
#define V_N_do_branch real_do_branch
#define V_N_do_exception real_do_exception
#define V_N_check_interrupt real_check_interrupt
#define V_N_timespec_now real_timespec_now
#define V_N_adjust_check_interval real_adjust_check_interval
#define V_N_frame_enter real_frame_enter
#define V_N_exec_expr_continue real_exec_expr_continue
#include "cells.h"
#include "verif.h"
#include "type.h"
#include "exec_context.h"
#include "instance.h"
#include "timeutil.h"
static int do_call(struct exec_context *ctx, const struct funcinst *finst);
static int do_return_call(struct exec_context *ctx, const struct funcinst *finst);
static void do_branch(struct exec_context *ctx, uint32_t labelidx, bool goto_else);
static int do_exception(struct exec_context *ctx);
static int check_interrupt(struct exec_context *ctx);
static int timespec_now(clockid_t id, struct timespec *ts);
static void adjust_check_interval(struct exec_context *ctx, const struct timespec *now, const struct timespec *last);
static int frame_enter(struct exec_context *ctx, struct instance *inst, uint32_t funcidx,
                       const struct expr_exec_info *ei, const struct localtype *localtype,
                       const struct resulttype *paramtype, uint32_t nresults, const struct cell *params);
static int exec_expr_continue(struct exec_context *ctx);
#include "u_core.h"

static struct exec_context g_ctx;
static struct instance g_inst;
static struct module g_mod;
static struct report g_report;
static struct mem_context g_mctx;
static struct funcinst g_fi[2];
static struct restart_info g_restarts[2];
static uint8_t g_code[8];
static struct cell g_cells[8];
static struct funcframe g_frames[4];

/*
 * What the loop has to do next.
 */
enum todo { DO_FETCH, DO_CALL, DO_RETURN_CALL, DO_BRANCH, DO_EXCEPTION, DO_RESTART, DO_LEAVE };
static enum todo g_todo;
static int g_ret; /* for DO_LEAVE */
static unsigned int g_steps;
static uint32_t g_since, g_interval; /* the instructions since the last interrupt check */
static bool g_event_call; /* the event to keep, on DO_LEAVE */
static uint8_t g_nfetch, g_nhost, g_nint;
static const struct funcinst *g_func;
static uint32_t g_br_idx;
static bool g_br_else;
static uint32_t g_bottom, g_nrestarts, g_sp;
#define NSTEP 4

static bool g_nest; /* an expression in the middle of a function: h_const_expr_nested */
static uint32_t g_nframes, g_nspd;
static void
leave(int ret)
{
        g_todo = DO_LEAVE;
        g_ret = ret;
}
/* nothing is pending */
static void
next(void)
{
        if (g_ctx.frames.lsize != g_ctx.bottom) {
                g_todo = DO_FETCH;
        } else if (g_nrestarts == 0) {
                leave(0);
        } else {
                /* back to the host function */
                const struct restart_hostfunc *hf;
                g_nrestarts--;
                hf = &g_restarts[g_nrestarts].restart_u.hostfunc;
                g_todo = DO_CALL;
                g_func = hf->func;
                g_bottom = hf->saved_bottom;
                g_sp -= hf->stack_adj;
                g_nhost++;
        }
}
static void
pending(enum exec_event ev)
{
        g_ctx.event = ev;
        switch (ev) {
        case EXEC_EVENT_CALL:
                g_todo = DO_CALL;
                g_ctx.event_u.call.func = g_func = in_bool() ? &g_fi[0] : &g_fi[1];
                break;
        case EXEC_EVENT_RETURN_CALL:
                g_todo = DO_RETURN_CALL;
                g_ctx.event_u.call.func = g_func = in_bool() ? &g_fi[0] : &g_fi[1];
                break;
        case EXEC_EVENT_EXCEPTION:
                g_todo = DO_EXCEPTION;
                break;
        case EXEC_EVENT_BRANCH:
                g_todo = DO_BRANCH;
                g_ctx.event_u.branch.index = g_br_idx = in_u32();
                g_ctx.event_u.branch.goto_else = g_br_else = in_bool();
                break;
        default:
                V_ASSUME(ev == EXEC_EVENT_NONE);
                next();
                break;
        }
}
/* any control and operand stack */
static void
change(void)
{
        g_ctx.frames.lsize = in_u8();
        g_ctx.stack.lsize = g_sp = in_u8();
        uint32_t pc = in_u8();
        V_ASSUME(g_ctx.frames.lsize <= 4 && g_ctx.stack.lsize <= 8 && pc < 8);
        V_ASSUME(g_ctx.frames.lsize >= g_ctx.bottom);
        V_ASSUME(g_nrestarts == 0 || g_ctx.frames.lsize > g_ctx.bottom ||
                 g_restarts[g_nrestarts - 1].restart_u.hostfunc.stack_adj <= g_sp);
        g_ctx.p = g_code + pc;
}
static bool
same(void)
{
        return g_ctx.bottom == g_bottom && g_ctx.restarts.lsize == g_nrestarts && g_ctx.stack.lsize == g_sp &&
               g_ctx.instance == &g_inst;
}
/* a call or an exception: true if it is to fail */
static bool
fails(int *retp)
{
        V_CHECK(same(), "state for the event");
        g_steps++;
        int ret = g_steps >= NSTEP ? EIO : (int)in_u32();
        *retp = ret;
        if (ret != 0) {
                leave(ret);
                return true;
        }
        change();
        next();
        return false;
}
static int
do_call(struct exec_context *ctx, const struct funcinst *fi)
{
        int ret;
        V_CHECK(!g_nest, "nothing but the expression is executed");
        V_CHECK(ctx == &g_ctx && g_todo == DO_CALL && fi == g_func, "call");
        if (fails(&ret)) {
                g_event_call = true;
        }
        return ret;
}
static int
do_return_call(struct exec_context *ctx, const struct funcinst *fi)
{
        int ret;
        V_CHECK(ctx == &g_ctx && g_todo == DO_RETURN_CALL && fi == g_func, "tail call");
        if (fails(&ret)) {
                /* restarted as a call: the frame of the caller has gone */
                g_event_call = IS_RESTARTABLE(ret);
        }
        return ret;
}
static int
do_exception(struct exec_context *ctx)
{
        int ret;
        V_CHECK(ctx == &g_ctx && g_todo == DO_EXCEPTION, "exception");
        fails(&ret);
        return ret;
}
static void
do_branch(struct exec_context *ctx, uint32_t labelidx, bool goto_else)
{
        if (g_nest) {
                g_ctx.frames.lsize--;
                return;
        }
        V_CHECK(ctx == &g_ctx && g_todo == DO_BRANCH && labelidx == g_br_idx && goto_else == g_br_else, "branch");
        V_CHECK(same(), "state for the branch");
        change();
        next();
}
static int
executed(void)
{
        g_steps++;
        int ret = g_steps >= NSTEP ? EIO : (int)in_u32();
        if (ret != 0) {
                g_ctx.event = IS_RESTARTABLE(ret) ? EXEC_EVENT_RESTART_INSN : EXEC_EVENT_NONE;
                leave(ret);
                return ret;
        }
        g_ctx.stack.lsize = g_sp = in_u8();
        uint32_t pc = in_u8();
        V_ASSUME(g_sp <= 8 && pc < 8);
        g_ctx.p = g_code + pc;
        pending((enum exec_event)in_u8());
        return 0;
}
int
fetch_exec_next_insn(const uint8_t *p, struct cell *stack, struct exec_context *ctx)
{
        if (g_nest) {
                V_CHECK(g_ctx.frames.lsize == g_nframes + 1, "only the expression is executed");
                V_CHECK(p == g_ctx.p && stack == g_cells + g_ctx.stack.lsize, "state for the instruction");
                g_nfetch++;
                if (g_nfetch == 1) {
                        g_cells[g_ctx.stack.lsize].x = g_nspd;
                        g_ctx.stack.lsize++;
                } else {
                        g_ctx.event = EXEC_EVENT_BRANCH;
                }
                return 0;
        }
        V_CHECK(ctx == &g_ctx && g_todo == DO_FETCH, "instruction");
        V_CHECK(p == g_ctx.p && stack == g_cells + g_sp && g_ctx.event == EXEC_EVENT_NONE && same(),
                "state for the instruction");
        g_since++;
        V_CHECK(g_since <= g_interval, "interrupts are checked in time");
        g_nfetch++;
        return executed();
}
static int
v_fetch_exec(const uint8_t *p, struct cell *stack, struct exec_context *ctx)
{
        V_CHECK(ctx == &g_ctx && g_todo == DO_RESTART, "restarted instruction");
        V_CHECK(p == g_ctx.p && stack == g_cells + g_sp && g_ctx.event == EXEC_EVENT_NONE && same(),
                "state for the restarted instruction");
        return executed();
}
static bool g_stub_interrupt;
static int
check_interrupt(struct exec_context *ctx)
{
        if (!g_stub_interrupt) {
                return real_check_interrupt(ctx);
        }
        V_CHECK(g_todo == DO_FETCH && same() && g_ctx.event == EXEC_EVENT_NONE, "interrupt check between instructions");
        int ret = (int)in_u32();
        if (ret != 0) {
                leave(ret);
        }
        g_since = 0;
        g_interval = g_ctx.check_interval;
        g_nint++;
        return ret;
}
static int
timespec_now(clockid_t id, struct timespec *ts)
{
        int ret = (int)in_u32();
        V_ASSUME(ret >= 0);
        if (ret != 0) {
                leave(ret);
                return ret;
        }
        ts->tv_sec = (time_t)in_u32();
        ts->tv_nsec = (long)in_u32();
        V_ASSUME(ts->tv_nsec < 1000000000);
        return 0;
}
static bool g_stub_adjust;
static void
adjust_check_interval(struct exec_context *ctx, const struct timespec *now, const struct timespec *last)
{
        if (!g_stub_adjust) {
                real_adjust_check_interval(ctx, now, last);
                return;
        }
        g_ctx.check_interval = in_u32();
        V_ASSUME(g_ctx.check_interval != 0);
}
static void
setup(void)
{
        unsigned int i;
        g_ctx.instance = &g_inst;
        g_inst.module = &g_mod;
        g_mod.bin = g_code;
        g_ctx.mctx = &g_mctx;
        g_ctx.report = &g_report;
        g_ctx.trapped = false;
        g_ctx.stack.p = g_cells;
        g_ctx.stack.psize = 8;
        g_ctx.frames.p = g_frames;
        g_ctx.frames.psize = 4;
        g_ctx.check_interval = in_u32();
        g_ctx.restarts.p = g_restarts;
        g_ctx.restarts.psize = 2;
        g_ctx.options.max_frames = in_u32();
        g_ctx.options.max_stackcells = in_u32();
        for (i = 0; i < 2; i++) {
                g_restarts[i].restart_type = RESTART_HOSTFUNC;
                struct restart_hostfunc *hf = &g_restarts[i].restart_u.hostfunc;
                hf->func = in_bool() ? &g_fi[0] : &g_fi[1];
                hf->saved_bottom = in_u8();
                hf->stack_adj = in_u8();
        }
}
static void
loop(enum exec_event ev)
{
        setup();
        g_stub_interrupt = g_stub_adjust = true;
        V_ASSUME(g_ctx.check_interval != 0);
        g_interval = g_ctx.check_interval;
        g_ctx.restarts.lsize = g_nrestarts = in_u8();
        V_ASSUME(g_nrestarts <= 2);
        g_ctx.bottom = g_bottom = in_u8();
        V_ASSUME(g_bottom <= 4);
        V_ASSUME(g_nrestarts < 1 || g_restarts[0].restart_u.hostfunc.saved_bottom <= g_bottom);
        V_ASSUME(g_nrestarts < 2 || (g_restarts[1].restart_u.hostfunc.saved_bottom <= g_bottom &&
                                     g_restarts[0].restart_u.hostfunc.saved_bottom <= g_restarts[1].restart_u.hostfunc.saved_bottom));
        change();
        if (ev == EXEC_EVENT_RESTART_INSN) {
                V_ASSUME(g_ctx.frames.lsize > g_bottom);
                g_ctx.event = ev;
                g_todo = DO_RESTART;
                g_ctx.event_u.restart_insn.fetch_exec = v_fetch_exec;
        } else {
                V_ASSUME(g_ctx.frames.lsize > 0 || (ev != EXEC_EVENT_BRANCH && ev != EXEC_EVENT_RETURN_CALL));
                pending(ev);
        }
        bool nested = g_nrestarts == 2;
        int ret = real_exec_expr_continue(&g_ctx);
        V_CHECK(g_todo == DO_LEAVE, "the loop ends only when there is nothing to do, or on an error");
        V_CHECK(ret == g_ret, "result of the loop");
        V_CHECK(!g_ctx.trapped && g_ctx.report == &g_report, "context");
        V_CHECK(!g_event_call || g_ctx.event == EXEC_EVENT_CALL || !IS_RESTARTABLE(ret), "the call can be restarted");
        V_CHECK(!IS_RESTARTABLE(ret) || !g_event_call || g_ctx.event_u.call.func == g_func, "callee of the restarted call");
        V_CHECK(ret != 0 || (g_ctx.frames.lsize == g_ctx.bottom && g_ctx.restarts.lsize == 0), "finished");
        V_CANARY(ret == 0 && g_nfetch == 2 && g_nint == 1, "ends after two instructions");
        V_CANARY(nested && ret == 0 && g_nhost == 2, "returns to two host functions");
        V_CANARY(IS_RESTARTABLE(ret) && g_nfetch == 1, "restart");
}
#define LOOPJOB(n, ev) void h_exec_loop_##n(void) { loop(ev); }
//@job h_exec_loop_none prop=P28,P11,P12 enforce=exec_expr_continue,return_to_hostfunc dfcc=0 unwind=12 solver=cadical bounded="at most 4 instructions and calls in a row; two nested host functions"
LOOPJOB(none, EXEC_EVENT_NONE)
//@job h_exec_loop_call prop=P28,P12 enforce=exec_expr_continue,return_to_hostfunc dfcc=0 unwind=12 solver=cadical bounded="at most 4 instructions and calls in a row; two nested host functions"
LOOPJOB(call, EXEC_EVENT_CALL)
//@job h_exec_loop_return_call prop=P28,P12 enforce=exec_expr_continue,return_to_hostfunc dfcc=0 unwind=12 solver=cadical bounded="at most 4 instructions and calls in a row; two nested host functions"
LOOPJOB(return_call, EXEC_EVENT_RETURN_CALL)
//@job h_exec_loop_branch prop=P28,P11 enforce=exec_expr_continue,return_to_hostfunc dfcc=0 unwind=12 solver=cadical bounded="at most 4 instructions and calls in a row; two nested host functions"
LOOPJOB(branch, EXEC_EVENT_BRANCH)
//@job h_exec_loop_exception prop=P28,P13 enforce=exec_expr_continue,return_to_hostfunc dfcc=0 unwind=12 solver=cadical bounded="at most 4 instructions and calls in a row; two nested host functions"
LOOPJOB(exception, EXEC_EVENT_EXCEPTION)
//@job h_exec_loop_restart prop=P28 enforce=exec_expr_continue,restart_insn,return_to_hostfunc dfcc=0 unwind=12 solver=cadical bounded="at most 4 instructions and calls in a row; two nested host functions"
LOOPJOB(restart, EXEC_EVENT_RESTART_INSN)

/* ---- interrupts */
static atomic_uint g_intr;
static struct cluster g_cl;
//@job h_check_interrupt prop=P28 enforce=check_interrupt,cluster_check_interrupt,suspend_check_interrupt dfcc=0
void
h_check_interrupt(void)
{
        setup();
        g_ctx.event = EXEC_EVENT_NONE;
        bool has = in_bool(), cl = in_bool();
        uint32_t v = in_u32(), exit = in_u32();
        unsigned int cnt = in_u32(), delay = in_u32();
        g_intr = v;
        g_cl.interrupt = exit;
        g_cl.suspend_state = (enum suspend_state)in_u8();
        bool stop = g_cl.suspend_state == SUSPEND_STATE_STOPPING;
        g_ctx.intrp = has ? &g_intr : NULL;
        g_ctx.cluster = cl ? &g_cl : NULL;
        g_ctx.user_intr_delay_count = cnt;
        g_ctx.user_intr_delay = delay;
        int ret = real_check_interrupt(&g_ctx);
        bool requested = has && v != 0;
        if (requested && cnt >= delay) {
                V_CHECK(ret == ETOYWASMUSERINTERRUPT && !g_ctx.trapped, "an interrupt is delivered");
                V_CHECK(g_ctx.user_intr_delay_count == 0, "the next one is delayed as well");
                V_CANARY(cl && exit != 0, "interrupt");
                return;
        }
        V_CHECK(g_ctx.user_intr_delay_count == (requested ? cnt + 1 : cnt), "delay");
        V_CHECK(ret != ETOYWASMUSERINTERRUPT, "no interrupt which wasn't requested");
        if (cl && exit != 0) {
                V_CHECK(ret == ETOYWASMTRAP && g_ctx.trapped && g_ctx.trap.trapid == TRAP_VOLUNTARY_THREAD_EXIT, "exit of the threads");
                V_CANARY(true, "exit");
                return;
        }
        V_CHECK(!g_ctx.trapped, "no trap");
        if (cl && stop) {
                V_CHECK(ret == ETOYWASMRESTART, "suspended threads");
                V_CANARY(true, "suspend");
                return;
        }
        /* (it restarts now and then for the test of restarts.) */
        V_CHECK(ret == 0 || ret == ETOYWASMRESTART, "nothing to do");
        V_CANARY(ret == 0 && requested, "delayed");
        V_CANARY(ret == 0 && cl && !requested, "nothing to do");
}
//@job h_adjust_check_interval prop=P28 enforce=adjust_check_interval,check_interrupt_interval_ms dfcc=0 unwind=3 solver=cadical
void
h_adjust_check_interval(void)
{
        setup();
        uint32_t old = g_ctx.check_interval;
        V_ASSUME(old != 0);
        g_ctx.cluster = in_bool() ? &g_cl : NULL;
        g_cl.nrunners = in_u32();
        V_ASSUME(g_cl.nrunners <= 1000000);
        struct timespec now, last;
        now.tv_sec = in_u32();
        last.tv_sec = in_u32();
        now.tv_nsec = in_u32();
        last.tv_nsec = in_u32();
        V_ASSUME(now.tv_nsec < 1000000000 && last.tv_nsec < 1000000000);
        V_ASSUME(last.tv_sec < now.tv_sec || (last.tv_sec == now.tv_sec && last.tv_nsec <= now.tv_nsec));
        real_adjust_check_interval(&g_ctx, &now, &last);
        uint32_t v = g_ctx.check_interval;
        V_CHECK(v != 0, "interrupts are still checked");
        V_CHECK(now.tv_sec - last.tv_sec < 30 || v < old || old == 1, "a long interval gets shorter");
        V_CHECK(v >= old / 2, "not by more than a half");
        V_CANARY(v < old, "shorter");
        V_CANARY(v > old, "longer");
        V_CANARY(old == 1 && v == 1, "shortest");
}

/* ---- traps */
//@job h_trap prop=P28 enforce=trap_with_id,vtrap,host_func_trap dfcc=0
void
h_trap(void)
{
        setup();
        enum trapid id = (enum trapid)in_u8();
        bool host = in_bool();
        int ret = host ? v_host_func_trap(&g_ctx) : v_trap_with_id(&g_ctx, id);
        V_CHECK(ret == ETOYWASMTRAP && !IS_RESTARTABLE(ret), "a trap isn't restartable");
        V_CHECK(g_ctx.trapped && g_ctx.trap.trapid == (host ? TRAP_MISC : id), "trap");
        V_CANARY(host, "trap from a host function");
        V_CANARY(!host && id == TRAP_DIV_BY_ZERO, "trap");
}

/* ---- calls between host and wasm */
static struct functype g_ft;
static enum valtype g_ty[2], g_ty2[2];
//@job h_invoke prop=P28,P12,P29 enforce=invoke,compare_resulttype dfcc=0 unwind=5 bounded="types of at most 2 elements"
void
h_invoke(void)
{
        unsigned int i;
        setup();
        static enum valtype pt[2], rt[2];
        struct resulttype p, r;
        p.ntypes = in_u8();
        r.ntypes = in_u8();
        g_ft.parameter.ntypes = in_u8();
        g_ft.result.ntypes = in_u8();
        V_ASSUME(p.ntypes <= 2 && r.ntypes <= 2 && g_ft.parameter.ntypes <= 2 && g_ft.result.ntypes <= 2);
        p.types = pt;
        r.types = rt;
        g_ft.parameter.types = g_ty;
        g_ft.result.types = g_ty2;
        p.cellidx.cellidxes = r.cellidx.cellidxes = NULL;
        bool same = p.ntypes == g_ft.parameter.ntypes && r.ntypes == g_ft.result.ntypes;
        for (i = 0; i < 2; i++) {
                pt[i] = in_bool() ? TYPE_i32 : TYPE_i64;
                rt[i] = in_bool() ? TYPE_i32 : TYPE_f64;
                g_ty[i] = in_bool() ? TYPE_i32 : TYPE_i64;
                g_ty2[i] = in_bool() ? TYPE_i32 : TYPE_f64;
                if (i < p.ntypes && pt[i] != g_ty[i]) {
                        same = false;
                }
                if (i < r.ntypes && rt[i] != g_ty2[i]) {
                        same = false;
                }
        }
        g_fi[0].is_host = true;
        g_fi[0].u.host.type = &g_ft;
        g_ctx.stack.lsize = in_u8();
        V_ASSUME(g_ctx.stack.lsize <= 8 && g_ctx.stack.lsize >= 4);
        uint32_t sp = g_ctx.stack.lsize;
        g_ctx.event = EXEC_EVENT_NONE;
        bool check = in_bool();
        int ret = invoke(&g_fi[0], check ? &p : NULL, check ? &r : NULL, &g_ctx);
        V_CHECK(!g_ctx.trapped && g_ctx.stack.lsize == sp, "context");
        if (check && !same) {
                V_CHECK(ret == EINVAL && g_ctx.event == EXEC_EVENT_NONE, "type mismatch");
                V_CANARY(p.ntypes == 2 && g_ft.parameter.ntypes == 2 && r.ntypes == g_ft.result.ntypes, "mismatch");
                return;
        }
        V_CHECK(ret == ETOYWASMRESTART && g_ctx.event == EXEC_EVENT_CALL && g_ctx.event_u.call.func == &g_fi[0], "call");
        V_CANARY(check && p.ntypes == 2, "call");
        V_CANARY(!check, "call without check");
}
//@job h_schedule_call_from_hostfunc prop=P28,P12 enforce=schedule_call_from_hostfunc dfcc=0 unwind=5 bounded="results of at most 2 elements"
void
h_schedule_call_from_hostfunc(void)
{
        setup();
        unsigned int i;
        uint32_t n = 0;
        g_ft.result.ntypes = in_u8();
        V_ASSUME(g_ft.result.ntypes <= 2);
        g_ft.result.types = g_ty2;
        g_ft.result.cellidx.cellidxes = NULL;
        for (i = 0; i < 2; i++) {
                g_ty2[i] = in_bool() ? TYPE_i32 : TYPE_f64;
                if (i < g_ft.result.ntypes) {
                        n += g_ty2[i] == TYPE_i32 ? 1 : 2;
                }
        }
        g_fi[0].is_host = g_fi[1].is_host = true;
        g_fi[1].u.host.type = &g_ft;
        g_ctx.event = EXEC_EVENT_CALL;
        g_ctx.event_u.call.func = &g_fi[0];
        g_ctx.frames.lsize = in_u8();
        g_ctx.bottom = in_u8();
        V_ASSUME(g_ctx.bottom <= g_ctx.frames.lsize && g_ctx.frames.lsize <= 4);
        g_ctx.restarts.lsize = in_u8();
        V_ASSUME(g_ctx.restarts.lsize < 2);
        uint32_t bottom = g_ctx.bottom, nframes = g_ctx.frames.lsize, nr = g_ctx.restarts.lsize;
        int ret = schedule_call_from_hostfunc(&g_ctx, &g_restarts[nr], &g_fi[1]);
        const struct restart_hostfunc *hf = &g_restarts[nr].restart_u.hostfunc;
        V_CHECK(ret == ETOYWASMRESTART && g_ctx.event == EXEC_EVENT_CALL && g_ctx.event_u.call.func == &g_fi[1], "callee");
        V_CHECK(g_ctx.restarts.lsize == nr + 1 && g_restarts[nr].restart_type == RESTART_HOSTFUNC, "restart record");
        V_CHECK(hf->func == &g_fi[0] && hf->saved_bottom == bottom && hf->stack_adj == n, "caller to be restarted");
        V_CHECK(g_ctx.bottom == nframes && g_ctx.frames.lsize == nframes, "the callee ends at the current frame");
        V_CANARY(n == 4 && nr == 1 && nframes > bottom, "call");
}

/* ---- expressions */
static int g_e_ret;
static uint32_t g_e_n, g_e_nres;
static const struct expr *g_e;
static struct expr g_expr;
static int g_c_rets[3];
static unsigned int g_c_n;
static bool g_const;
static int
frame_enter(struct exec_context *ctx, struct instance *inst, uint32_t funcidx, const struct expr_exec_info *ei,
            const struct localtype *localtype, const struct resulttype *paramtype, uint32_t nresults,
            const struct cell *params)
{
        V_CHECK(ctx == &g_ctx && inst == &g_inst && funcidx == FUNCIDX_INVALID && ei == &g_expr.ei, "frame of the expression");
        V_CHECK(localtype->nlocals == 0 && paramtype->ntypes == 0 && params == NULL, "no locals");
        g_e_n++;
        g_e_nres = nresults;
        if (g_e_ret == 0) {
                g_ctx.frames.lsize++;
        }
        return g_e_ret;
}
static uint32_t g_v[6];
static int
exec_expr_continue(struct exec_context *ctx)
{
        unsigned int i;
        if (!g_const) {
                return real_exec_expr_continue(ctx);
        }
        V_CHECK(ctx == &g_ctx && g_e_n == 1 && g_c_n < 3, "execution of the expression");
        V_CHECK(g_c_n == 0 || IS_RESTARTABLE(g_c_rets[g_c_n - 1]), "executed again only for a restart");
        V_CHECK(g_c_n != 0 || g_ctx.p == g_code + 3, "start of the expression");
        int ret = g_c_rets[g_c_n++];
        if (ret == 0) {
                g_ctx.frames.lsize--;
                for (i = 0; i < 6; i++) {
                        if (i < g_e_nres) {
                                g_cells[g_ctx.stack.lsize + i].x = g_v[i];
                        }
                }
                g_ctx.stack.lsize += g_e_nres;
        }
        return ret;
}
//@job h_exec_const_expr prop=P29,P28 enforce=exec_const_expr,exec_expr,exec_pop_vals,vals_from_cells dfcc=0 unwind=8 bounded="at most 2 restarts"
void
h_exec_const_expr(void)
{
        unsigned int i;
        setup();
        g_const = true;
        g_ctx.frames.lsize = in_u8();
        g_ctx.stack.lsize = in_u8();
        V_ASSUME(g_ctx.frames.lsize < 4 && g_ctx.stack.lsize <= 2);
        uint32_t nframes = g_ctx.frames.lsize, sp = g_ctx.stack.lsize;
        g_e_ret = (int)in_u32();
        V_ASSUME(!IS_RESTARTABLE(g_e_ret));
        for (i = 0; i < 3; i++) {
                g_c_rets[i] = (int)in_u32();
        }
        V_ASSUME(!IS_RESTARTABLE(g_c_rets[0]) || !IS_RESTARTABLE(g_c_rets[1]) || !IS_RESTARTABLE(g_c_rets[2]));
        for (i = 0; i < 6; i++) {
                g_v[i] = in_u32();
        }
        g_expr.start = g_code + 3;
        static const enum valtype types[] = {TYPE_i32, TYPE_i64, TYPE_f32, TYPE_f64, TYPE_funcref, TYPE_externref, TYPE_v128};
        static const uint32_t widths[] = {1, 2, 1, 2, 2, 2, 4};
        uint32_t t = in_u8();
        V_ASSUME(t < 7);
        struct val v;
        int ret = exec_const_expr(&g_expr, types[t], &v, &g_ctx);
        V_CHECK(g_e_n == 1 && g_e_nres == widths[t], "frame of the expression");
        if (g_e_ret != 0) {
                V_CHECK(ret == g_e_ret && g_c_n == 0, "no frame");
                V_CANARY(true, "no frame");
                return;
        }
        V_CHECK(ret == g_c_rets[g_c_n - 1] && !IS_RESTARTABLE(ret), "executed until it ends");
        if (ret == 0) {
                V_CHECK(g_ctx.frames.lsize == nframes && g_ctx.stack.lsize == sp, "stacks");
                uint32_t w = in_u32();
                V_CHECK(!(w < widths[t] && v.u.cells[w].x != g_v[w]), "value");
                V_CANARY(g_c_n == 3 && t == 6, "value after restarts");
        }
        V_CANARY(ret != 0, "failure");
}

//@job h_const_expr_nested prop=P05,P29,P28 enforce=exec_const_expr,exec_expr,exec_expr_continue dfcc=0 unwind=6 unwindset=exec_expr_continue.0:5,real_exec_expr_continue.0:5 solver=cadical about="an expression of one instruction, evaluated in the middle of a function, possibly one called by a host function"
void
h_const_expr_nested(void)
{
        setup();
        g_nest = true;
        V_ASSUME(g_ctx.check_interval > 4);
        g_ctx.frames.lsize = g_nframes = in_u8();
        g_ctx.bottom = in_u8();
        g_ctx.restarts.lsize = in_u8();
        V_ASSUME(g_nframes <= 3 && g_ctx.bottom <= g_nframes && g_ctx.restarts.lsize <= 2);
        V_ASSUME(g_nframes > 0 || g_ctx.restarts.lsize == 0);
        g_ctx.stack.lsize = in_u8();
        V_ASSUME(g_ctx.stack.lsize <= 2);
        uint32_t sp = g_ctx.stack.lsize, bottom = g_ctx.bottom, nr = g_ctx.restarts.lsize;
        g_nspd = in_u32();
        g_expr.start = g_code + 3;
        struct val v;
        int ret = exec_const_expr(&g_expr, TYPE_i32, &v, &g_ctx);
        V_CHECK(ret == 0 && v.u.i32 == g_nspd && g_nfetch == 2, "value of the expression");
        V_CHECK(g_ctx.frames.lsize == g_nframes && g_ctx.stack.lsize == sp && g_ctx.bottom == bottom &&
                        g_ctx.restarts.lsize == nr && g_ctx.event == EXEC_EVENT_NONE,
                "back in the middle of the function");
        V_CANARY(g_nframes == 2 && bottom == 1 && nr == 1, "in a function called by a host function");
        V_CANARY(g_nframes == 1 && bottom == 0 && nr == 0, "in a function");
}
