//@family base=all def=FIXED_STACK
//@trusted memcpy and memset (as loops over words)
/*
 * Execution of control, parametric, variable, reference and constant
 * instructions.
 */
#include "cells.h"
static void *
vw_memset(void *p, int c, size_t n)
{
        size_t i;
        for (i = 0; i < n / 4; i++) {
                ((uint32_t *)p)[i] = c == 0 ? 0 : in_u32();
        }
        return p;
}
#undef memset
#define memset(a, b, c) vw_memset(a, b, c)
#include "exec_common.h"
#include "code_imm.h"

static struct label g_labels[4];
static struct funcframe g_frames[2];
static uint32_t g_nlabels, g_wl;
static struct label g_wlv;
static struct cell *g_sp;

/* the opcode is at the position 2 */
static const uint8_t *
setup(uint32_t nin, uint32_t nout)
{
        g_sp = setup_stack(nin, nout);
        g_mod.bin = g_code;
        unsigned int i;
        for (i = 0; i < 4; i++) {
                g_labels[i].pc = in_u32();
                g_labels[i].height = in_u32();
        }
        g_ctx.labels.p = g_labels;
        g_ctx.labels.psize = 4;
        g_ctx.labels.lsize = g_nlabels = in_u32();
        V_ASSUME(g_nlabels < 4);
        g_ctx.frames.p = g_frames;
        g_ctx.frames.psize = 2;
        g_ctx.frames.lsize = in_u32();
        V_ASSUME(g_ctx.frames.lsize >= 1 && g_ctx.frames.lsize <= 2);
        for (i = 0; i < 2; i++) {
                g_frames[i].labelidx = in_u32();
                V_ASSUME(g_frames[i].labelidx <= g_nlabels);
        }
        V_ASSUME(g_frames[0].labelidx <= g_frames[1].labelidx);
        g_wl = in_u32();
        V_ASSUME(g_wl < 4);
        g_wlv = g_labels[g_wl];
        return g_code + 3;
}
static uint32_t
own_labels(void)
{
        return g_nlabels - g_frames[g_ctx.frames.lsize - 1].labelidx;
}
/* the state besides the event, the operand stack and the position */
static bool
rest_same(uint32_t nlabels)
{
        return g_ctx.instance == &g_inst && !g_ctx.trapped && g_ctx.labels.lsize == nlabels &&
               !(g_wl < nlabels && g_wl < g_nlabels &&
                 (g_labels[g_wl].pc != g_wlv.pc || g_labels[g_wl].height != g_wlv.height)) &&
               !(g_w < g_h0 && g_ctx.stack.p[g_w].x != g_wv) &&
               !(g_w < g_nin && g_ctx.stack.lsize > g_h0 + g_w && g_ctx.stack.p[g_h0 + g_w].x != g_in[g_w]);
}
static bool
branches(int ret, uint32_t idx, bool goto_else, uint32_t nout, uint32_t nlabels)
{
        return ret == 0 && g_ctx.event == EXEC_EVENT_BRANCH && g_ctx.event_u.branch.index == idx &&
               g_ctx.event_u.branch.goto_else == goto_else && g_ctx.stack.lsize == g_h0 + nout && rest_same(nlabels);
}
static bool
goes_on(int ret, uint32_t nout, const uint8_t *pc, uint32_t nlabels)
{
        return ret == 0 && g_ctx.event == EXEC_EVENT_NONE && g_ctx.stack.lsize == g_h0 + nout && g_ctx.p == pc &&
               rest_same(nlabels);
}
static bool
pushed_label(uint32_t nout)
{
        return g_labels[g_nlabels].pc == 2 && g_labels[g_nlabels].height == g_h0 + nout;
}

//@job h_block prop=P11 enforce=fetch_exec_block,push_label dfcc=0 unwind=7
void
h_block(void)
{
        const uint8_t *p = setup(2, 2);
        unsigned int next;
        code_imm(3, &next);
        int ret = fetch_exec_block(p, g_sp, &g_ctx);
        V_CHECK(goes_on(ret, 2, g_code + next, g_nlabels + 1) && pushed_label(2), "block");
        V_CANARY(g_nlabels == 2 && next == 5, "block");
}
//@job h_loop prop=P11 enforce=fetch_exec_loop,push_label dfcc=0 unwind=7
void
h_loop(void)
{
        const uint8_t *p = setup(2, 2);
        unsigned int next;
        code_imm(3, &next);
        int ret = fetch_exec_loop(p, g_sp, &g_ctx);
        V_CHECK(goes_on(ret, 2, g_code + next, g_nlabels + 1) && pushed_label(2), "loop");
        V_CANARY(g_nlabels == 2 && next == 5, "loop");
}
//@job h_if prop=P11 enforce=fetch_exec_if,push_label,schedule_goto_else dfcc=0 unwind=7
void
h_if(void)
{
        const uint8_t *p = setup(2, 2);
        unsigned int next;
        code_imm(3, &next);
        int ret = fetch_exec_if(p, g_sp, &g_ctx);
        if (in32(1) != 0) {
                V_CHECK(goes_on(ret, 1, g_code + next, g_nlabels + 1) && pushed_label(1), "if");
                V_CANARY(in32(1) == 0x80000000, "if");
        } else {
                V_CHECK(branches(ret, 0, true, 1, g_nlabels + 1) && pushed_label(1), "if to else");
                V_CANARY(true, "if to else");
        }
}
//@job h_else prop=P11 enforce=fetch_exec_else,schedule_br dfcc=0 unwind=7
void
h_else(void)
{
        const uint8_t *p = setup(2, 2);
        int ret = fetch_exec_else(p, g_sp, &g_ctx);
        V_CHECK(branches(ret, 0, false, 2, g_nlabels), "else leaves the block");
        V_CANARY(true, "else");
}
//@job h_end prop=P11,P12 enforce=fetch_exec_end,schedule_return dfcc=0 unwind=7
void
h_end(void)
{
        const uint8_t *p = setup(2, 2);
        int ret = fetch_exec_end(p, g_sp, &g_ctx);
        if (own_labels() != 0) {
                V_CHECK(goes_on(ret, 2, p, g_nlabels - 1), "end of a block");
                V_CANARY(g_ctx.frames.lsize == 2 && g_frames[1].labelidx > 0, "end of a block");
        } else {
                V_CHECK(branches(ret, 0, false, 2, g_nlabels), "end of a function");
                V_CANARY(g_nlabels == 2, "end of a function");
        }
}
//@job h_br prop=P11 enforce=fetch_exec_br,schedule_br dfcc=0 unwind=7
void
h_br(void)
{
        const uint8_t *p = setup(2, 2);
        unsigned int next;
        uint32_t idx = code_imm(3, &next);
        int ret = fetch_exec_br(p, g_sp, &g_ctx);
        V_CHECK(branches(ret, idx, false, 2, g_nlabels), "branch");
        V_CANARY(idx > 70000, "br");
}
//@job h_br_if prop=P11 enforce=fetch_exec_br_if,schedule_br dfcc=0 unwind=7
void
h_br_if(void)
{
        const uint8_t *p = setup(2, 2);
        unsigned int next;
        uint32_t idx = code_imm(3, &next);
        int ret = fetch_exec_br_if(p, g_sp, &g_ctx);
        if (in32(1) != 0) {
                V_CHECK(branches(ret, idx, false, 1, g_nlabels), "branch if not zero");
                V_CANARY(in32(1) == 0x80000000, "br_if");
        } else {
                V_CHECK(goes_on(ret, 1, g_code + next, g_nlabels), "no branch if zero");
                V_CANARY(next == 5, "br_if goes on");
        }
}
//@job h_return prop=P11,P12 enforce=fetch_exec_return,schedule_return dfcc=0 unwind=7
void
h_return(void)
{
        const uint8_t *p = setup(2, 2);
        int ret = fetch_exec_return(p, g_sp, &g_ctx);
        V_CHECK(branches(ret, own_labels(), false, 2, g_nlabels), "return leaves all blocks of the function");
        V_CANARY(own_labels() == 1 && g_nlabels == 3, "return");
}
//@job h_unreachable prop=P11,P28 enforce=fetch_exec_unreachable dfcc=0 unwind=7
void
h_unreachable(void)
{
        const uint8_t *p = setup(2, 2);
        int ret = fetch_exec_unreachable(p, g_sp, &g_ctx);
        V_CHECK(trapped(ret, TRAP_UNREACHABLE), "unreachable");
        V_CANARY(true, "unreachable");
}
//@job h_nop prop=P11 enforce=fetch_exec_nop dfcc=0 unwind=7
void
h_nop(void)
{
        const uint8_t *p = setup(2, 2);
        int ret = fetch_exec_nop(p, g_sp, &g_ctx);
        V_CHECK(goes_on(ret, 2, p, g_nlabels), "nop");
        V_CANARY(true, "nop");
}

/* ---- calls */
static struct funcinst g_func;
static struct funcinst *g_two[2];
static uint32_t
setup_call(unsigned int *nextp)
{
        uint32_t idx = code_imm(3, nextp);
        g_mod.nimportedfuncs = in_u32();
        g_mod.nfuncs = in_u32();
        V_ASSUME((uint64_t)g_mod.nimportedfuncs + g_mod.nfuncs <= UINT32_MAX);
        V_ASSUME(idx < g_mod.nimportedfuncs + g_mod.nfuncs); /* validated */
        g_two[0] = &g_func;
        g_inst.funcs.p = g_two - idx;
        g_inst.funcs.lsize = g_inst.funcs.psize = g_mod.nimportedfuncs + g_mod.nfuncs;
        return idx;
}
static bool
calls(int ret, enum exec_event ev, const uint8_t *pc)
{
        return ret == 0 && g_ctx.event == ev && g_ctx.event_u.call.func == &g_func && g_ctx.p == pc &&
               g_ctx.stack.lsize == g_h0 + 2 && rest_same(g_nlabels);
}
//@job h_call prop=P12 enforce=fetch_exec_call,schedule_call dfcc=0 unwind=7 solver=cadical
void
h_call(void)
{
        const uint8_t *p = setup(2, 2);
        unsigned int next;
        uint32_t idx = setup_call(&next);
        int ret = fetch_exec_call(p, g_sp, &g_ctx);
        V_CHECK(calls(ret, EXEC_EVENT_CALL, g_code + next), "call");
        V_CANARY(idx > 1000, "call");
}
//@job h_insn_return_call prop=P12 enforce=fetch_exec_return_call,schedule_return_call dfcc=0 unwind=7 solver=cadical
void
h_insn_return_call(void)
{
        const uint8_t *p = setup(2, 2);
        unsigned int next;
        uint32_t idx = setup_call(&next);
        int ret = fetch_exec_return_call(p, g_sp, &g_ctx);
        V_CHECK(calls(ret, EXEC_EVENT_RETURN_CALL, g_code + next), "return_call");
        V_CANARY(idx > 1000, "return_call");
}
//@job h_ref_func prop=P12,P05 enforce=fetch_exec_ref_func dfcc=0 unwind=10 solver=cadical
void
h_ref_func(void)
{
        const uint8_t *p = setup(2, 4);
        unsigned int next;
        uint32_t idx = setup_call(&next);
        int ret = fetch_exec_ref_func(p, g_sp, &g_ctx);
        V_CHECK(goes_on(ret, 4, g_code + next, g_nlabels), "ref.func");
        V_CHECK(out64(2) == (uint64_t)(uintptr_t)&g_func, "reference to the function");
        V_CANARY(idx > 1000, "ref.func");
}

/* ---- exceptions */
static struct taginst g_tag;
static struct taginst *g_ptags[1];
static struct tagtype g_tt[1];
static struct functype g_fts[1];
static uint16_t g_cidx[5];
static enum valtype g_pty[4];
//@job h_throw prop=P13 enforce=fetch_exec_throw,push_exception,schedule_exception dfcc=0 unwind=10 solver=cadical bounded="tags with parameters of type i32; at most 4 cells is the limit of the implementation"
void
h_throw(void)
{
        uint32_t csz = in_u8();
        V_ASSUME(csz <= 4);
        const uint8_t *p = setup(csz, 6);
        unsigned int next, i;
        uint32_t idx = code_imm(3, &next);
        g_mod.nimportedtags = 0;
        g_mod.ntags = in_u32();
        V_ASSUME(idx < g_mod.ntags);
        g_mod.tags = g_tt - idx;
        g_tt[0].typeidx = 0;
        g_mod.ntypes = 1;
        g_mod.types = g_fts;
        g_fts[0].parameter.ntypes = csz;
        g_fts[0].parameter.types = g_pty;
        for (i = 0; i < 4; i++) {
                g_pty[i] = TYPE_i32;
        }
        for (i = 0; i < 5; i++) {
                g_cidx[i] = (uint16_t)i;
        }
        g_fts[0].parameter.cellidx.cellidxes = in_bool() ? g_cidx : NULL;
        g_ptags[0] = &g_tag;
        g_inst.tags.p = g_ptags - idx;
        g_inst.tags.lsize = g_mod.ntags;
        int ret = fetch_exec_throw(p, g_sp, &g_ctx);
        V_CHECK(ret == 0 && g_ctx.event == EXEC_EVENT_EXCEPTION, "throw");
        V_CHECK(g_ctx.stack.lsize == g_h0 + 6 && rest_same(g_nlabels), "parameters are part of the exception");
        V_CHECK(out64(4) == (uint64_t)(uintptr_t)&g_tag, "tag of the exception");
        V_CANARY(csz == 4 && idx > 1000, "throw");
        V_CANARY(csz == 0, "throw without parameters");
}
//@job h_throw_ref prop=P13 enforce=fetch_exec_throw_ref,schedule_exception dfcc=0 unwind=10
void
h_throw_ref(void)
{
        const uint8_t *p = setup(7, 7);
        int ret = fetch_exec_throw_ref(p, g_sp, &g_ctx);
        V_CHECK(ret == 0 && g_ctx.event == EXEC_EVENT_EXCEPTION, "throw_ref");
        V_CHECK(g_ctx.stack.lsize == g_h0 + 7 && rest_same(g_nlabels), "exception on the stack");
        V_CANARY(true, "throw_ref");
}
//@job h_try_table prop=P11,P13 enforce=fetch_exec_try_table,push_label dfcc=0 unwind=7 bounded="at most 2 catch clauses with immediates of one byte"
void
h_try_table(void)
{
        const uint8_t *p = setup(2, 2);
        unsigned int next, i;
        code_imm(3, &next);
        uint8_t n = in_u8();
        V_ASSUME(n <= 2);
        g_code[next++] = n;
        for (i = 0; i < 2; i++) {
                uint8_t op = in_u8();
                V_ASSUME(op <= 3);
                if (i < n) {
                        g_code[next++] = op;
                        if (op < 2) {
                                g_code[next++] = in_u8() & 0x7f;
                        }
                        g_code[next++] = in_u8() & 0x7f;
                }
        }
        int ret = fetch_exec_try_table(p, g_sp, &g_ctx);
        V_CHECK(goes_on(ret, 2, g_code + next, g_nlabels + 1) && pushed_label(2), "try_table");
        V_CANARY(n == 2 && next == 12, "try_table");
}

/* ---- parametric */
static struct type_annotation g_an[3];
static struct expr_exec_info g_ei;
static uint32_t
annotation(uint32_t pc)
{
        uint32_t sz = g_ei.type_annotations.default_size;
        if (g_ei.type_annotations.ntypes > 0 && pc >= g_an[0].pc) {
                sz = g_an[0].size;
        }
        if (g_ei.type_annotations.ntypes > 1 && pc >= g_an[1].pc) {
                sz = g_an[1].size;
        }
        if (g_ei.type_annotations.ntypes > 2 && pc >= g_an[2].pc) {
                sz = g_an[2].size;
        }
        return sz;
}
static void
setup_annotations(void)
{
        unsigned int i;
        g_ei.type_annotations.default_size = in_u8();
        V_ASSUME(g_ei.type_annotations.default_size != 0);
        g_ei.type_annotations.ntypes = in_u8();
        V_ASSUME(g_ei.type_annotations.ntypes <= 3);
        g_ei.type_annotations.types = g_an;
        for (i = 0; i < 3; i++) {
                g_an[i].pc = in_u32();
                g_an[i].size = in_u8();
                V_ASSUME(g_an[i].size != 0);
                V_ASSUME(i == 0 || g_an[i].pc > g_an[i - 1].pc);
        }
        g_ctx.ei = &g_ei;
}
//@job h_find_type_annotation prop=P11,P27 enforce=find_type_annotation dfcc=0 unwind=7 bounded="at most 3 annotations"
void
h_find_type_annotation(void)
{
        setup(0, 1);
        setup_annotations();
        uint32_t pc = in_u32();
        V_ASSUME(pc < 24);
        V_CHECK(find_type_annotation(&g_ctx, g_code + pc) == annotation(pc), "annotation in effect at the position");
        V_CANARY(g_ei.type_annotations.ntypes == 3 && g_an[1].pc == pc, "annotation");
        V_CANARY(g_ei.type_annotations.ntypes == 3 && g_an[0].pc > pc, "default");
}
/* csz: the width of the operand */
static uint32_t
setup_poly(void)
{
        setup_annotations();
        uint32_t csz = annotation(3);
        V_ASSUME(csz == 1 || csz == 2 || csz == 4 || csz == 6);
        return csz;
}
static uint32_t
width(void)
{
        uint32_t csz = in_u8();
        V_ASSUME(csz == 1 || csz == 2 || csz == 4 || csz == 6);
        return csz;
}
//@job h_drop prop=P11 enforce=fetch_exec_drop,find_type_annotation dfcc=0 unwind=10
void
h_drop(void)
{
        uint32_t csz = width();
        const uint8_t *p = setup(csz + 1, csz + 1);
        V_ASSUME(setup_poly() == csz);
        int ret = fetch_exec_drop(p, g_sp, &g_ctx);
        V_CHECK(goes_on(ret, 1, p, g_nlabels), "drop");
        V_CANARY(csz == 6, "drop");
}
static void
check_select(int ret, uint32_t csz, const uint8_t *p)
{
        /* (below: 1 cell; v1, v2, the condition.) */
        bool first = in32(1 + 2 * csz) != 0;
        V_CHECK(ret == 0 && g_ctx.event == EXEC_EVENT_NONE && g_ctx.p == p && g_ctx.stack.lsize == g_h0 + 1 + csz, "select");
        V_CHECK(out32(0) == in32(0) && ctx_same() && g_ctx.labels.lsize == g_nlabels, "rest of the stack");
        uint32_t w = in_u32();
        V_CHECK(!(w < csz && out32(1 + w) != in32(1 + (first ? 0 : csz) + w)), "selected value");
        V_CANARY(csz == 4 && first, "select first");
        V_CANARY(csz == 2 && !first, "select second");
}
//@job h_select prop=P11 enforce=fetch_exec_select,find_type_annotation dfcc=0 unwind=16
void
h_select(void)
{
        uint32_t csz = width();
        V_ASSUME(csz <= 4); /* numbers and vectors */
        const uint8_t *p = setup(2 + 2 * csz, 2 + 2 * csz);
        V_ASSUME(setup_poly() == csz);
        check_select(fetch_exec_select(p, g_sp, &g_ctx), csz, p);
}
static uint8_t
type_of_width(uint32_t csz)
{
        uint8_t t = in_u8();
        V_ASSUME(csz == 1   ? t == TYPE_i32 || t == TYPE_f32
                 : csz == 2 ? t == TYPE_i64 || t == TYPE_f64 || t == TYPE_funcref || t == TYPE_externref
                 : csz == 4 ? t == TYPE_v128 : t == TYPE_exnref);
        return t;
}
//@job h_select_t prop=P11 enforce=fetch_exec_select_t dfcc=0 unwind=16
void
h_select_t(void)
{
        uint32_t csz = width();
        const uint8_t *p = setup(2 + 2 * csz, 2 + 2 * csz);
        g_code[3] = 1;
        g_code[4] = type_of_width(csz);
        check_select(fetch_exec_select_t(p, g_sp, &g_ctx), csz, p + 2);
}

/* ---- variables */
static struct cell g_locals[8];
static uint32_t g_oldlocals[8];
static uint16_t g_lidx[2];
/* a local variable with the index in the code, at cidx for csz cells */
static uint32_t
setup_locals(uint32_t csz, unsigned int *nextp)
{
        unsigned int i;
        uint32_t idx = code_imm(3, nextp);
        struct local_info_fast *f = &g_ctx.local_u.fast;
        g_ctx.fast = true;
        f->nparams = in_u32();
        f->paramcsz = in_u8();
        V_ASSUME(f->paramcsz <= 8);
        g_lidx[0] = in_u8();
        g_lidx[1] = (uint16_t)(g_lidx[0] + csz);
        uint32_t cidx = g_lidx[0];
        static uint16_t other;
        if (idx < f->nparams) {
                f->paramtype_cellidxes = g_lidx - idx;
                f->localtype_cellidxes = &other;
        } else {
                f->paramtype_cellidxes = &other;
                f->localtype_cellidxes = g_lidx - (idx - f->nparams);
                cidx += f->paramcsz;
        }
        V_ASSUME(cidx + csz <= 8);
        for (i = 0; i < 8; i++) {
                g_locals[i].x = g_oldlocals[i] = in_u32();
        }
        g_ctx.current_locals = g_locals;
        return cidx;
}
static bool
locals_are(uint32_t w, uint32_t cidx, uint32_t csz, uint32_t from)
{
        if (w >= 8) {
                return true;
        }
        return g_locals[w].x == (w >= cidx && w - cidx < csz ? g_in[from + w - cidx] : g_oldlocals[w]);
}
//@job h_local_get prop=P12 enforce=fetch_exec_local_get,local_get,local_getptr dfcc=0 unwind=10 solver=cadical
void
h_local_get(void)
{
        uint32_t csz = width();
        const uint8_t *p = setup(1, 1 + csz);
        unsigned int next;
        uint32_t cidx = setup_locals(csz, &next);
        int ret = fetch_exec_local_get(p, g_sp, &g_ctx);
        uint32_t w = in_u32();
        V_CHECK(goes_on(ret, 1 + csz, g_code + next, g_nlabels), "local.get");
        V_CHECK(!(w < csz && out32(1 + w) != g_oldlocals[cidx + w]), "value of the variable");
        V_CHECK(locals_are(w, 0, 0, 0), "variables are not changed");
        V_CANARY(csz == 4 && cidx == 2 && g_ctx.local_u.fast.nparams == 0, "local.get");
        V_CANARY(csz == 2 && g_ctx.local_u.fast.nparams > 100000, "local.get of a parameter");
}
//@job h_local_set prop=P12 enforce=fetch_exec_local_set,local_set,local_getptr dfcc=0 unwind=10 solver=cadical
void
h_local_set(void)
{
        uint32_t csz = width();
        const uint8_t *p = setup(1 + csz, 1 + csz);
        unsigned int next;
        uint32_t cidx = setup_locals(csz, &next);
        int ret = fetch_exec_local_set(p, g_sp, &g_ctx);
        V_CHECK(goes_on(ret, 1, g_code + next, g_nlabels), "local.set");
        V_CHECK(locals_are(in_u32(), cidx, csz, 1), "only the variable is set");
        V_CANARY(csz == 4 && cidx == 2 && g_ctx.local_u.fast.nparams == 0, "local.set");
}
//@job h_local_tee prop=P12 enforce=fetch_exec_local_tee,local_set,local_getptr dfcc=0 unwind=10 solver=cadical
void
h_local_tee(void)
{
        uint32_t csz = width();
        const uint8_t *p = setup(1 + csz, 1 + csz);
        unsigned int next;
        uint32_t cidx = setup_locals(csz, &next);
        int ret = fetch_exec_local_tee(p, g_sp, &g_ctx);
        V_CHECK(goes_on(ret, 1 + csz, g_code + next, g_nlabels), "local.tee");
        V_CHECK(locals_are(in_u32(), cidx, csz, 1), "only the variable is set");
        V_CANARY(csz == 4 && cidx == 2 && g_ctx.local_u.fast.nparams == 0, "local.tee");
}
static struct globalinst g_global;
static struct globalinst *g_pglobal[1];
static struct globaltype g_gt[1];
static void
setup_global(uint32_t csz, unsigned int *nextp)
{
        uint32_t idx = code_imm(3, nextp);
        g_mod.nimportedglobals = 0;
        g_mod.nglobals = in_u32();
        V_ASSUME(idx < g_mod.nglobals);
        static struct global gl;
        gl.type.t = (enum valtype)type_of_width(csz);
        gl.type.mut = GLOBAL_VAR;
        g_mod.globals = &gl - idx;
        g_pglobal[0] = &g_global;
        g_global.type = &gl.type;
        g_inst.globals.p = g_pglobal - idx;
        g_inst.globals.lsize = g_mod.nglobals;
}
//@job h_global_get prop=P12 enforce=fetch_exec_global_get,global_get dfcc=0 unwind=10 solver=cadical
void
h_global_get(void)
{
        uint32_t csz = width();
        const uint8_t *p = setup(1, 1 + csz);
        unsigned int next, i;
        setup_global(csz, &next);
        uint32_t v[6];
        for (i = 0; i < 6; i++) {
                v[i] = in_u32();
                g_global.val.u.cells[i].x = v[i];
        }
        int ret = fetch_exec_global_get(p, g_sp, &g_ctx);
        uint32_t w = in_u32();
        V_CHECK(goes_on(ret, 1 + csz, g_code + next, g_nlabels), "global.get");
        V_CHECK(!(w < csz && out32(1 + w) != v[w]), "value of the global");
        V_CHECK(!(w < csz && g_global.val.u.cells[w].x != v[w]), "the global is not changed");
        V_CANARY(csz == 4, "global.get");
}
//@job h_global_set prop=P12 enforce=fetch_exec_global_set,global_set dfcc=0 unwind=10 solver=cadical
void
h_global_set(void)
{
        uint32_t csz = width();
        const uint8_t *p = setup(1 + csz, 1 + csz);
        unsigned int next;
        setup_global(csz, &next);
        int ret = fetch_exec_global_set(p, g_sp, &g_ctx);
        uint32_t w = in_u32();
        V_CHECK(goes_on(ret, 1, g_code + next, g_nlabels), "global.set");
        V_CHECK(!(w < csz && g_global.val.u.cells[w].x != in32(1 + w)), "the global is set");
        V_CANARY(csz == 4, "global.set");
}

/* ---- references and constants */
//@job h_ref_null prop=P05 enforce=fetch_exec_ref_null dfcc=0 unwind=10
void
h_ref_null(void)
{
        uint32_t csz = in_bool() ? 2 : 6;
        const uint8_t *p = setup(1, 1 + csz);
        g_code[3] = type_of_width(csz);
        V_ASSUME(g_code[3] != TYPE_i64 && g_code[3] != TYPE_f64);
        int ret = fetch_exec_ref_null(p, g_sp, &g_ctx);
        uint32_t w = in_u32();
        V_CHECK(goes_on(ret, 1 + csz, p + 1, g_nlabels), "ref.null");
        V_CHECK(!(w < csz && out32(1 + w) != 0), "null");
        V_CANARY(csz == 6, "ref.null exn");
        V_CANARY(g_code[3] == TYPE_externref, "ref.null extern");
}
//@job h_ref_is_null prop=P05 enforce=fetch_exec_ref_is_null dfcc=0 unwind=10
void
h_ref_is_null(void)
{
        uint32_t csz = in_bool() ? 2 : 6;
        const uint8_t *p = setup(1 + csz, 1 + csz);
        V_ASSUME(setup_poly() == csz);
        int ret = fetch_exec_ref_is_null(p, g_sp, &g_ctx);
        /* an exception is null if it has no tag */
        bool null = csz == 2 ? in64(1) == 0 : in64(5) == 0;
        V_CHECK(ret == 0 && g_ctx.event == EXEC_EVENT_NONE && g_ctx.p == p && g_ctx.stack.lsize == g_h0 + 2, "ref.is_null");
        V_CHECK(out32(0) == in32(0) && ctx_same() && g_ctx.labels.lsize == g_nlabels, "rest of the stack");
        V_CHECK(out32(1) == (null ? 1 : 0), "whether it is null");
        V_CANARY(csz == 2 && !null && in32(1) == 0, "ref.is_null, not null");
        V_CANARY(csz == 6 && null, "ref.is_null, null exception");
}
