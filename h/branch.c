//@family base=core
//@stub *read_leb_u32_nocheck it reads a number at the position; value and length are functions of the position (P16)
//@stub *read_leb_s33_nocheck it reads a number at the position; value and length are functions of the position (P16)
//@stub *read_insn_nocheck (only in h_skip_expr) it reads an instruction at the position; the opcode and the length are functions of the position
//@stub *resulttype_cellsize (P27) it is a function of the type
//@stub *localtype_cellsize (P27) it is a function of the type
//@stub *_vec_prealloc (P32) it fails, or makes room, possibly at another address
//@stub *taginst_functype the type of a tag which exists
//@stub *cached_block_exit (only in h_exception*) it gives the branch target of the block (jobs h_branch*)
//@stub *find_catch (only in h_exception) it finds nothing, or a handler (job h_find_catch)
//@stub *frame_enter (only in h_*_call) it fails, or enters the frame (job h_frame_enter)
//@trusted memcpy and memset (as loops over words)
/*
 * Branches, calls and exceptions in the interpreter core.
 */
#define V_N_read_leb_u32_nocheck real_read_leb_u32_nocheck
#define V_N_read_leb_s33_nocheck real_read_leb_s33_nocheck
#define V_N_read_insn_nocheck real_read_insn_nocheck
#define V_N_resulttype_cellsize real_resulttype_cellsize
#define V_N_localtype_cellsize real_localtype_cellsize
#define V_N__vec_prealloc real__vec_prealloc
#define V_N_taginst_functype real_taginst_functype
#define V_N_cached_block_exit real_cached_block_exit
#define V_N_find_catch real_find_catch
#define V_N_frame_enter real_frame_enter
#include "cells.h"
#include "verif.h"
#include "type.h"
#include "exec_context.h"
#include "instance.h"
static void *vb_zero(void *p, int c, size_t n);
#undef memset
#define memset(a, b, c) vb_zero(a, b, c)
static uint32_t read_leb_u32_nocheck(const uint8_t **pp);
static int64_t read_leb_s33_nocheck(const uint8_t **pp);
static uint32_t read_insn_nocheck(const uint8_t **pp);
static uint32_t resulttype_cellsize(const struct resulttype *rt);
static uint32_t localtype_cellsize(const struct localtype *lt);
static int _vec_prealloc(struct mem_context *mctx, void *vec, size_t elem_size, uint32_t count);
static const struct functype *taginst_functype(const struct taginst *ti);
static bool cached_block_exit(struct exec_context *ctx, uint32_t blockpc, bool goto_else,
                              uint32_t *param_arityp, uint32_t *arityp);
static int find_catch(const struct exec_context *ctx, const struct taginst *taginst,
                      uint32_t *frameidxp, uint32_t *labelidxp, bool *allp);
static int frame_enter(struct exec_context *ctx, struct instance *inst, uint32_t funcidx,
                       const struct expr_exec_info *ei, const struct localtype *localtype,
                       const struct resulttype *paramtype, uint32_t nresults, const struct cell *params);
#include "u_core.h"

static struct exec_context g_ctx;
static struct instance g_inst, g_inst2; /* the current one, and the one of the caller or callee */
static struct module g_mod, g_mod2;
static struct report g_report;
static struct mem_context g_mctx;

static void *
vb_zero(void *p, int c, size_t n)
{
        size_t i;
        V_CHECK(c == 0, "memory is cleared");
        if (n == sizeof(g_ctx.cache)) {
                static const struct jump_cache zero;
                for (i = 0; i < ARRAYCOUNT(g_ctx.cache); i++) {
                        ((struct jump_cache *)p)[i] = zero;
                }
        } else {
                for (i = 0; i < n / 4; i++) {
                        ((uint32_t *)p)[i] = 0;
                }
        }
        return p;
}

/*
 * The code: NC bytes, with the number at each position.
 */
#define NC 16
static uint8_t g_code[NC];
static uint32_t g_nu[NC];
static int64_t g_ns[NC];
static uint8_t g_nl[NC];
static uint32_t g_iop[NC]; /* opcodes, for h_skip_expr */
static void
setup_code(void)
{
        unsigned int i;
        for (i = 0; i < NC; i++) {
                g_code[i] = in_u8();
                g_nu[i] = in_u32();
                g_ns[i] = (int64_t)in_u64();
                g_nl[i] = in_u8();
                V_ASSUME(g_nl[i] >= 1 && g_nl[i] <= 5);
                V_ASSUME(g_ns[i] >= -((int64_t)1 << 32) && g_ns[i] <= (int64_t)UINT32_MAX);
        }
}
static unsigned int
pos_of(const uint8_t *p)
{
        V_CHECK(p >= g_code && p < g_code + NC, "position in the code");
        return (unsigned int)(p - g_code);
}
static uint32_t
read_leb_u32_nocheck(const uint8_t **pp)
{
        unsigned int i = pos_of(*pp);
        *pp += g_nl[i];
        return g_nu[i];
}
static int64_t
read_leb_s33_nocheck(const uint8_t **pp)
{
        unsigned int i = pos_of(*pp);
        *pp += g_nl[i];
        return g_ns[i];
}
static uint32_t
read_insn_nocheck(const uint8_t **pp)
{
        unsigned int i = pos_of(*pp);
        *pp += g_nl[i];
        return g_iop[i];
}

/* types */
static struct functype g_ft, g_ft2; /* ft2: of the function which is called or returned to */
static struct functype g_tagft;
static struct localtype g_lt;
static uint32_t g_np, g_nr, g_np2, g_nr2, g_nlocals, g_tagcsz;
static uint32_t
resulttype_cellsize(const struct resulttype *rt)
{
        if (rt == &g_ft.parameter) {
                return g_np;
        }
        if (rt == &g_ft.result) {
                return g_nr;
        }
        if (rt == &g_ft2.parameter) {
                return g_np2;
        }
        if (rt == &g_ft2.result) {
                return g_nr2;
        }
        V_CHECK(rt == &g_tagft.parameter, "a type in use");
        return g_tagcsz;
}
static struct func g_f[1], g_f2[1];
static uint32_t
localtype_cellsize(const struct localtype *lt)
{
        V_CHECK(lt == &g_lt || lt == &g_f[0].localtype || lt == &g_f2[0].localtype, "a local type in use");
        return g_nlocals;
}

/* stacks */
#define NS 7
static struct cell g_cells[NS], g_cells2[NS + 6];
static uint32_t g_old[NS];
static struct label g_labels[4], g_labels2[6];
static struct label g_oldlabels[4];
static struct funcframe g_frames[3], g_frames2[4], g_oldframes[3];
static struct cell g_locals[6], g_locals2[12];
static uint32_t g_oldlocals[6];
static uint32_t g_lsize, g_nlabels, g_nframes, g_locsize;
static uint32_t g_w;
static uint8_t g_allocfails, g_allocmoves;
static unsigned int g_nalloc;

static int
_vec_prealloc(struct mem_context *mctx, void *vec, size_t elem_size, uint32_t count)
{
        unsigned int i;
        bool fail = (g_allocfails >> g_nalloc) & 1;
        bool move = (g_allocmoves >> g_nalloc) & 1;
        V_CHECK(mctx == &g_mctx, "memory context");
        g_nalloc++;
        if (fail) {
                return ENOMEM;
        }
        if (vec == &g_ctx.frames) {
                V_CHECK(elem_size == sizeof(struct funcframe), "size of a frame");
                if (count > 4 - g_ctx.frames.lsize) {
                        return ENOMEM;
                }
                if (move || count > g_ctx.frames.psize - g_ctx.frames.lsize) {
                        for (i = 0; i < 3; i++) {
                                g_frames2[i] = g_frames[i];
                        }
                        g_ctx.frames.p = g_frames2;
                        g_ctx.frames.psize = 4;
                }
        } else if (vec == &g_ctx.labels) {
                V_CHECK(elem_size == sizeof(struct label), "size of a label");
                if (count > 6 - g_ctx.labels.lsize) {
                        return ENOMEM;
                }
                if (move || count > g_ctx.labels.psize - g_ctx.labels.lsize) {
                        for (i = 0; i < 4; i++) {
                                g_labels2[i] = g_labels[i];
                        }
                        g_ctx.labels.p = g_labels2;
                        g_ctx.labels.psize = 6;
                }
        } else if (vec == &g_ctx.stack) {
                V_CHECK(elem_size == sizeof(struct cell), "size of a cell");
                V_CHECK(g_ctx.stack.p == g_cells, "the stack is extended once");
                if (count > NS + 6 - g_ctx.stack.lsize) {
                        return ENOMEM;
                }
                if (move || count > g_ctx.stack.psize - g_ctx.stack.lsize) {
                        /* (only the elements in use are kept.) */
                        for (i = 0; i < NS; i++) {
                                if (i < g_ctx.stack.lsize) {
                                        g_cells2[i] = g_cells[i];
                                } else {
                                        g_cells2[i].x = in_u32();
                                }
                                g_cells[i].x = in_u32();
                        }
                        g_ctx.stack.p = g_cells2;
                        g_ctx.stack.psize = NS + 6;
                }
        } else {
                V_CHECK(vec == &g_ctx.locals, "a stack of the context");
                V_CHECK(elem_size == sizeof(struct cell), "size of a cell");
                if (count > 12 - g_ctx.locals.lsize) {
                        return ENOMEM;
                }
                if (move || count > g_ctx.locals.psize - g_ctx.locals.lsize) {
                        for (i = 0; i < 6; i++) {
                                g_locals2[i] = g_locals[i];
                        }
                        g_ctx.locals.p = g_locals2;
                        g_ctx.locals.psize = 12;
                }
        }
        return 0;
}

static uint32_t g_tyidx[1], g_tyidx2[1];
static uint16_t g_cidx[4];
static void
setup_func(struct instance *inst, struct module *m, struct func *f, struct functype *ft, uint32_t *ti)
{
        inst->module = m;
        m->bin = g_code;
        m->nimportedfuncs = 1;
        m->nfuncs = 1;
        m->funcs = f;
        m->functypeidxes = ti;
        m->ntypes = 1;
        m->types = ft;
        ti[0] = 0;
        f->localtype.cellidx.cellidxes = in_bool() ? g_cidx : NULL;
        ft->parameter.cellidx.cellidxes = in_bool() ? g_cidx + 2 : NULL;
        ft->parameter.ntypes = in_u32();
}
/* the current frame (the last one) belongs to g_inst */
static void
setup(void)
{
        unsigned int i;
        g_ctx.mctx = &g_mctx;
        g_ctx.report = &g_report;
        g_ctx.trapped = false;
        g_ctx.event = EXEC_EVENT_NONE;
        g_ctx.instance = &g_inst;
        setup_func(&g_inst, &g_mod, g_f, &g_ft, g_tyidx);
        setup_func(&g_inst2, &g_mod2, g_f2, &g_ft2, g_tyidx2);
        if (in_bool()) {
                g_inst2.module = &g_mod; /* another instance of the same module */
                g_mod.nfuncs = 1;
        }
        g_np = in_u32();
        g_nr = in_u32();
        g_np2 = in_u32();
        g_nr2 = in_u32();
        g_nlocals = in_u32();
        g_ctx.options.max_frames = in_u32();
        g_ctx.options.max_stackcells = in_u32();
        g_ctx.stack.p = g_cells;
        g_ctx.stack.psize = NS;
        g_ctx.stack.lsize = g_lsize = in_u32();
        V_ASSUME(g_lsize <= NS && g_lsize <= g_ctx.options.max_stackcells);
        g_w = in_u32();
        for (i = 0; i < NS; i++) {
                g_cells[i].x = g_old[i] = in_u32();
        }
        g_ctx.labels.p = g_labels;
        g_ctx.labels.psize = 4;
        g_ctx.labels.lsize = g_nlabels = in_u32();
        V_ASSUME(g_nlabels <= 4);
        for (i = 0; i < 4; i++) {
                g_labels[i].pc = in_u32();
                g_labels[i].height = in_u32();
                g_oldlabels[i] = g_labels[i];
        }
        g_ctx.frames.p = g_frames;
        g_ctx.frames.psize = 3;
        g_ctx.frames.lsize = g_nframes = in_u32();
        V_ASSUME(g_nframes <= 3 && g_nframes <= g_ctx.options.max_frames);
        for (i = 0; i < 3; i++) {
                g_frames[i].instance = i + 1 == g_nframes ? &g_inst : &g_inst2;
                g_frames[i].funcidx = 1;
                g_frames[i].labelidx = in_u32();
                g_frames[i].localidx = in_u32();
                g_frames[i].callerpc = in_u32();
                g_frames[i].height = in_u32();
                g_frames[i].nresults = i + 1 == g_nframes || g_inst2.module == &g_mod ? g_nr : g_nr2;
                V_ASSUME(g_frames[i].labelidx <= g_nlabels);
                V_ASSUME(i == 0 || g_frames[i].labelidx >= g_frames[i - 1].labelidx);
                g_oldframes[i] = g_frames[i];
        }
        g_ctx.locals.p = g_locals;
        g_ctx.locals.psize = 6;
        g_ctx.locals.lsize = g_locsize = in_u32();
        V_ASSUME(g_locsize <= 6);
        for (i = 0; i < 3; i++) {
                V_ASSUME(g_frames[i].localidx <= g_locsize);
                V_ASSUME(i == 0 || g_frames[i].localidx >= g_frames[i - 1].localidx);
        }
        for (i = 0; i < 6; i++) {
                g_locals[i].x = g_oldlocals[i] = in_u32();
        }
        g_allocfails = in_u8();
        g_allocmoves = in_u8();
        if (g_nframes > 0) {
                g_ctx.ei = &g_f[0].e.ei;
                g_ctx.current_locals = &g_locals[g_frames[g_nframes - 1].localidx];
        }
        g_ctx.bottom = 0;
        g_ctx.p = g_code;
}
/* the values on the operand stack: below the height, those from there, nothing else */
static bool
stack_is(uint32_t height, uint32_t arity)
{
        return g_ctx.stack.lsize == height + arity &&
               !(g_w < height && g_ctx.stack.p[g_w].x != g_old[g_w]) &&
               !(g_w >= height && g_w < height + arity &&
                 g_ctx.stack.p[g_w].x != g_old[g_lsize - arity + (g_w - height)]);
}
static bool
same_label(const struct label *a, const struct label *b)
{
        return a->pc == b->pc && a->height == b->height;
}
/* the n first frames, labels and locals are as before */
static bool
frame_is_old(uint32_t i)
{
        const struct funcframe *a = &g_ctx.frames.p[i], *b = &g_oldframes[i];
        return a->instance == b->instance && a->funcidx == b->funcidx && a->labelidx == b->labelidx &&
               a->localidx == b->localidx && a->callerpc == b->callerpc && a->height == b->height &&
               a->nresults == b->nresults;
}
static bool
control_is(uint32_t nframes, uint32_t nlabels, uint32_t nlocals)
{
        uint32_t i = g_w;
        return g_ctx.frames.lsize == nframes && g_ctx.labels.lsize == nlabels && g_ctx.locals.lsize == nlocals &&
               !(i < nframes && i < g_nframes && !frame_is_old(i)) &&
               !(i < nlabels && i < g_nlabels && !same_label(&g_ctx.labels.p[i], &g_oldlabels[i])) &&
               !(i < nlocals && i < g_locsize && g_ctx.locals.p[i].x != g_oldlocals[i]);
}
static bool
quiet(void)
{
        return !g_ctx.trapped && g_ctx.report == &g_report && g_ctx.mctx == &g_mctx && g_ctx.bottom == 0;
}
static bool
trap_is(int ret, enum trapid id)
{
        return ret == ETOYWASMTRAP && g_ctx.trapped && g_ctx.trap.trapid == id;
}
/* what is derived from the frame of the given function */
static bool
current_is(struct instance *inst, const struct func *f, const struct functype *ft, uint32_t localidx)
{
        bool fast = ft->parameter.cellidx.cellidxes != NULL && f->localtype.cellidx.cellidxes != NULL;
        return g_ctx.instance == inst && g_ctx.ei == &f->e.ei && g_ctx.current_locals == g_ctx.locals.p + localidx &&
               g_ctx.fast == fast &&
               (fast ? g_ctx.local_u.fast.nparams == ft->parameter.ntypes &&
                               g_ctx.local_u.fast.paramcsz == resulttype_cellsize(&ft->parameter) &&
                               g_ctx.local_u.fast.paramtype_cellidxes == ft->parameter.cellidx.cellidxes &&
                               g_ctx.local_u.fast.localtype_cellidxes == f->localtype.cellidx.cellidxes
                     : g_ctx.local_u.slow.paramtype == &ft->parameter && g_ctx.local_u.slow.localtype == &f->localtype);
}
static bool
cache_is_empty(void)
{
        unsigned int i;
        bool ok = true;
        for (i = 0; i < ARRAYCOUNT(g_ctx.cache); i++) {
                ok = ok && g_ctx.cache[i].key == 0;
        }
        return ok;
}

//@job h_rewind_stack prop=P11,P12 enforce=rewind_stack,cells_move dfcc=0 unwind=17 bounded="an operand stack of up to 7 cells"
void
h_rewind_stack(void)
{
        setup();
        uint32_t height = in_u32(), arity = in_u32();
        V_ASSUME(height <= g_lsize && arity <= g_lsize - height);
        rewind_stack(&g_ctx, height, arity);
        V_CHECK(stack_is(height, arity) && quiet() && g_ctx.stack.p == g_cells, "rewind_stack");
        V_CHECK(control_is(g_nframes, g_nlabels, g_locsize), "control stack");
        V_CANARY(arity > 2 && height > 1 && height + arity + 1 < g_lsize && height + arity > g_lsize - arity, "overlap");
        V_CANARY(height + arity == g_lsize, "nothing to do");
}

/*
 * branch targets
 */
static struct jump g_jumps[4];
static struct jump_cache g_oldcache[4];
static uint32_t g_bpc, g_target, g_elsepc;
static uint8_t g_op;
static int64_t g_blocktype;
static uint32_t g_bp, g_br; /* the cells of the parameters and the results of the block */
static bool g_goto_else;
static void
setup_block(void)
{
        g_bpc = in_u32();
        V_ASSUME(g_bpc >= 1 && g_bpc < NC - 1);
        g_op = g_code[g_bpc];
        V_ASSUME(g_op == 0x02 || g_op == 0x03 || g_op == 0x04 || g_op == 0x1f);
        g_blocktype = g_ns[g_bpc + 1];
        if (g_blocktype >= 0) {
                /* a type index */
                g_mod.types = &g_ft - (size_t)g_blocktype;
                g_mod.ntypes = in_u32();
                V_ASSUME(g_blocktype < g_mod.ntypes);
                g_bp = g_np;
                g_br = g_nr;
        } else {
                g_bp = 0;
                uint8_t b = (uint8_t)(g_blocktype + 0x80);
                V_ASSUME(g_blocktype >= -64);
                V_ASSUME(b == 0x40 || b == 0x7f || b == 0x7e || b == 0x7d || b == 0x7c || b == 0x7b ||
                         b == 0x70 || b == 0x6f || b == 0x69);
                g_br = b == 0x40 ? 0 : b == 0x7f || b == 0x7d ? 1 : b == 0x7b ? 4 : b == 0x69 ? 6 : 2;
        }
        g_target = in_u32();
        g_elsepc = in_u32();
        V_ASSUME(g_target > g_bpc && (g_elsepc == 0 || g_elsepc > g_bpc));
}
static void
setup_jumps(void)
{
        unsigned int i, n = in_u32(), ji = in_u32();
        V_ASSUME(n >= 1 && n <= 4 && ji < n);
        for (i = 0; i < 4; i++) {
                g_jumps[i].pc = in_u32();
                g_jumps[i].targetpc = in_u32();
        }
        for (i = 1; i < n; i++) {
                V_ASSUME(g_jumps[i].pc > g_jumps[i - 1].pc);
        }
        if (g_op != 0x03) {
                V_ASSUME(g_jumps[ji].pc == g_bpc && g_jumps[ji].targetpc == g_target);
        }
        if (g_op == 0x04) {
                V_ASSUME(ji + 1 < n);
                V_ASSUME(g_jumps[ji + 1].pc == g_bpc + 1 && g_jumps[ji + 1].targetpc == g_elsepc);
        }
        g_f[0].e.ei.njumps = n;
        g_f[0].e.ei.jumps = g_jumps;
}
static bool
stays(void)
{
        return g_goto_else && g_elsepc != 0;
}
static const uint8_t *
target(void)
{
        return g_code + (stays() ? g_elsepc : g_op == 0x03 ? g_bpc : g_target);
}
/* the entries for the block are right */
static bool
cache_ok(const struct jump_cache *c)
{
        return c->key != g_bpc + (g_goto_else ? 1 : 0) ||
               (c->target == target() && c->stay_in_block == stays() &&
                (stays() ? c->param_arity == 0 && c->arity == 0
                         : c->param_arity == g_bp && c->arity == (g_op == 0x03 ? g_bp : g_br)));
}
static void
setup_cache(void)
{
        unsigned int i;
        for (i = 0; i < 4; i++) {
                g_ctx.cache[i].key = in_u32();
                g_ctx.cache[i].param_arity = in_u32();
                g_ctx.cache[i].arity = in_u32();
                g_ctx.cache[i].stay_in_block = in_bool();
                g_ctx.cache[i].target = g_code + in_u32();
                V_ASSUME(cache_ok(&g_ctx.cache[i]));
                g_oldcache[i] = g_ctx.cache[i];
        }
}
static bool
cache_kept(void)
{
        unsigned int i;
        bool ok = true;
        for (i = 0; i < 4; i++) {
                const struct jump_cache *a = &g_ctx.cache[i], *b = &g_oldcache[i];
                ok = ok && cache_ok(a) &&
                     (a->key == g_bpc + (g_goto_else ? 1 : 0) || a->key == 0 ||
                      (a->key == b->key && a->param_arity == b->param_arity && a->arity == b->arity &&
                       a->stay_in_block == b->stay_in_block && a->target == b->target));
        }
        return ok;
}
static void
branch_label(void)
{
        uint32_t labelidx = in_u32();
        V_ASSUME(g_nframes > 0);
        uint32_t fl = g_frames[g_nframes - 1].labelidx;
        V_ASSUME(labelidx < g_nlabels - fl);
        struct label *l = &g_labels[g_nlabels - 1 - labelidx];
        V_ASSUME(l->pc == g_bpc);
        g_goto_else = in_bool();
        V_ASSUME(!g_goto_else || (labelidx == 0 && g_op == 0x04));
        uint32_t n = g_op == 0x03 ? g_bp : g_br;
        V_ASSUME(l->height >= g_bp && l->height <= g_lsize);
        uint32_t height = l->height - g_bp;
        /* (the validator has seen the values of the label.) */
        V_ASSUME(n <= g_lsize - height);
        V_ASSUME(!(g_goto_else && g_elsepc == 0) || g_bp == g_br);
        setup_cache();
        do_branch(&g_ctx, labelidx, g_goto_else);
        V_CHECK(quiet() && g_ctx.stack.p == g_cells && g_ctx.instance == &g_inst, "context");
        V_CHECK(g_ctx.p == target(), "branch target");
        V_CHECK(cache_kept(), "branch cache");
        if (stays()) {
                V_CHECK(stack_is(g_lsize, 0) && control_is(g_nframes, g_nlabels, g_locsize), "jump to the else part");
        } else {
                V_CHECK(stack_is(height, n), "operand stack after a branch");
                V_CHECK(control_is(g_nframes, g_nlabels - labelidx - 1, g_locsize), "control stack after a branch");
        }
        V_CANARY(g_goto_else && g_elsepc == 0, "if without else");
        V_CANARY(stays(), "else");
        V_CANARY(g_op == 0x03 && g_bp > 0 && labelidx > 0, "loop");
        V_CANARY(g_op == 0x02 && g_blocktype < 0 && n > 1 && height + n < g_lsize, "block");
}
//@job h_branch_table prop=P11 enforce=do_branch,branch_to_label,cached_block_exit,block_exit,jump_lookup,jump_table_lookup,get_arity_for_blocktype,jump_cache2_lookup,jump_cache2_store dfcc=0 unwind=17 solver=cadical bounded="an operand stack of up to 7 cells, 4 labels, 4 jump table entries, 16 bytes of code"
void
h_branch_table(void)
{
        setup();
        setup_code();
        setup_block();
        setup_jumps();
        branch_label();
}

/* return from a function */
//@job h_branch_return prop=P11,P12 enforce=do_branch,frame_exit,set_current_frame,frame_locals dfcc=0 unwind=17 solver=cadical bounded="an operand stack of up to 7 cells, 3 frames, 4 labels"
void
h_branch_return(void)
{
        setup();
        setup_code();
        V_ASSUME(g_nframes > 0);
        struct funcframe *f = &g_frames[g_nframes - 1];
        V_ASSUME(f->height <= g_lsize && g_nr <= g_lsize - f->height);
        unsigned int i;
        for (i = 0; i < 4; i++) {
                g_ctx.cache[i].key = in_u32();
        }
        const uint8_t *pc0 = g_ctx.p;
        do_branch(&g_ctx, g_nlabels - f->labelidx, false);
        V_CHECK(quiet() && g_ctx.stack.p == g_cells, "context");
        const struct funcframe *of = &g_oldframes[g_nframes - 1];
        V_CHECK(stack_is(of->height, g_nr), "results of a function");
        V_CHECK(control_is(g_nframes - 1, of->labelidx, of->localidx), "control stack after a return");
        if (g_nframes > 1) {
                bool samemod = g_inst2.module == &g_mod;
                V_CHECK(g_ctx.p == g_code + of->callerpc, "return address");
                V_CHECK(current_is(&g_inst2, samemod ? &g_f[0] : &g_f2[0], samemod ? &g_ft : &g_ft2,
                                   g_oldframes[g_nframes - 2].localidx), "frame of the caller");
                V_CHECK(samemod || cache_is_empty(), "branch cache of another module");
                V_CANARY(!samemod && g_ctx.fast, "return to another module");
        } else {
                V_CHECK(g_ctx.p == pc0, "position");
                V_CANARY(g_nr > 1 && of->height + g_nr < g_lsize, "return from the last frame");
        }
}

/*
 * exceptions
 */
static bool g_stub_exit;
static uint32_t g_x_pa, g_x_ar, g_x_target, g_x_pc; /* of the block exited */
static unsigned int g_x_n;
static bool
cached_block_exit(struct exec_context *ctx, uint32_t blockpc, bool goto_else,
                  uint32_t *param_arityp, uint32_t *arityp)
{
        if (!g_stub_exit) {
                return real_cached_block_exit(ctx, blockpc, goto_else, param_arityp, arityp);
        }
        V_CHECK(ctx == &g_ctx && !goto_else, "exit from a block");
        V_CHECK(ctx->instance == ctx->frames.p[ctx->frames.lsize - 1].instance, "instance of the block");
        g_x_n++;
        g_x_pc = blockpc;
        *param_arityp = g_x_pa;
        *arityp = g_x_ar;
        ctx->p = g_code + g_x_target;
        return false;
}

/*
 * structured control flow, from the instructions: the position after the
 * matching end, and the one after the else of the outermost block.
 */
#define NINSN 6
static bool
find_end(uint32_t pos, uint32_t *endp, uint32_t *elsep)
{
        unsigned int i, level = 0;
        *elsep = 0;
        for (i = 0; i < NINSN; i++) {
                if (pos >= NC) {
                        return false;
                }
                uint32_t op = g_iop[pos];
                pos += g_nl[pos];
                if (op == 0x02 || op == 0x03 || op == 0x04 || op == 0x1f) {
                        level++;
                } else if (op == 0x05) {
                        if (level == 1 && *elsep == 0) {
                                *elsep = pos;
                        }
                } else if (op == 0x0b) {
                        level--;
                        if (level == 0) {
                                *endp = pos;
                                return true;
                        }
                }
        }
        return false;
}
static void
setup_insns(void)
{
        unsigned int i;
        for (i = 0; i < NC; i++) {
                g_iop[i] = in_u32();
        }
}
//@job h_skip_expr prop=P11 enforce=skip_expr dfcc=0 unwind=17 solver=cadical unwindset=skip_expr.0:8 bounded="blocks of up to 6 instructions in 16 bytes"
void
h_skip_expr(void)
{
        setup_code();
        setup_insns();
        uint32_t pos = in_u32(), end, elsepos;
        V_ASSUME(pos < NC);
        g_op = g_code[pos];
        bool goto_else = in_bool();
        V_ASSUME(g_op == g_iop[pos]);
        V_ASSUME(g_op == 0x04 || (!goto_else && (g_op == 0x02 || g_op == 0x03 || g_op == 0x1f)));
        bool ok = find_end(pos, &end, &elsepos);
        V_ASSUME(ok);
        const uint8_t *p = g_code + pos;
        bool in_block = skip_expr(&p, goto_else);
        V_CHECK(in_block == (goto_else && elsepos != 0), "kind of the jump");
        V_CHECK(p == g_code + (in_block ? elsepos : end), "position after a block");
        V_CANARY(in_block, "else");
        V_CANARY(goto_else && !in_block, "no else");
        V_CANARY(!goto_else && end > pos + 8, "block");
}
//@job h_branch_notable prop=P11 enforce=do_branch,block_exit,skip_expr dfcc=0 unwind=17 solver=cadical unwindset=skip_expr.0:8 bounded="an operand stack of up to 7 cells, 4 labels, blocks of up to 6 instructions in 16 bytes"
void
h_branch_notable(void)
{
        setup();
        setup_code();
        setup_insns();
        setup_block();
        V_ASSUME(g_iop[g_bpc] == g_op);
        uint32_t end, elsepos;
        bool ok = find_end(g_bpc, &end, &elsepos);
        V_ASSUME(g_op == 0x03 || (ok && g_target == end));
        V_ASSUME(g_op != 0x04 || g_elsepc == elsepos);
        g_f[0].e.ei.njumps = 0;
        g_f[0].e.ei.jumps = NULL;
        branch_label();
}

/*
 * calls
 */
static struct cell g_params[4];
static struct expr_exec_info *
setup_callee(struct func *f)
{
        f->e.ei.maxlabels = in_u32();
        f->e.ei.maxcells = in_u32();
        V_ASSUME(f->e.ei.maxlabels >= 1);
        return &f->e.ei;
}
/* a call of g_inst2's function, with the parameters from the given cells */
static void
check_entered(int ret, uint32_t lsize, uint32_t params, const struct cell *pp, const struct expr_exec_info *ei,
              uint32_t max0)
{
        uint32_t np = g_inst2.module == &g_mod ? g_np : g_np2, nr = g_inst2.module == &g_mod ? g_nr : g_nr2;
        bool samemod = g_inst2.module == &g_mod;
        if (ret != 0) {
                /* the limits */
                V_CHECK(ret != ETOYWASMTRAP || g_ctx.trap.trapid == TRAP_TOO_MANY_FRAMES ||
                                g_ctx.trap.trapid == TRAP_TOO_MANY_STACKCELLS, "trap of a call");
                V_CHECK((ret == ETOYWASMTRAP) == g_ctx.trapped, "trap");
                V_CHECK(ret != ETOYWASMTRAP || g_ctx.trap.trapid != TRAP_TOO_MANY_FRAMES ||
                                g_nframes == g_ctx.options.max_frames, "too many frames");
                V_CHECK(ret != ETOYWASMTRAP || g_ctx.trap.trapid != TRAP_TOO_MANY_STACKCELLS ||
                                (uint64_t)lsize + np + g_nlocals + ei->maxcells > max0, "too many cells");
                V_CHECK(control_is(g_nframes, g_nlabels, g_locsize), "control stack after a failure");
                V_CANARY(ret == ETOYWASMTRAP && g_ctx.trap.trapid == TRAP_TOO_MANY_FRAMES, "too many frames");
                V_CANARY(ret == ETOYWASMTRAP && g_ctx.trap.trapid == TRAP_TOO_MANY_STACKCELLS, "too many cells");
                return;
        }
        V_CHECK(quiet(), "context");
        V_CHECK(g_nframes < g_ctx.options.max_frames, "limit of frames");
        V_CHECK((uint64_t)lsize + ei->maxcells <= max0, "limit of cells");
        V_CHECK(g_ctx.stack.psize <= NS + 6 && g_ctx.stack.psize - lsize >= ei->maxcells, "room for the operands");
        V_CHECK(g_ctx.stack.lsize == lsize, "operand stack");
        V_CHECK(!(g_w < lsize && g_ctx.stack.p[g_w].x != g_old[g_w]), "operands of the caller");
        V_CHECK(control_is(g_nframes + 1, g_nlabels, g_locsize + np + g_nlocals), "control stack after a call");
        V_CHECK(g_ctx.frames.psize > g_nframes, "room for the frame");
        V_CHECK(ei->maxlabels - 1 <= g_ctx.labels.psize - g_nlabels, "room for the labels");
        const struct funcframe *f = &g_ctx.frames.p[g_nframes];
        V_CHECK(f->instance == &g_inst2 && f->funcidx == 1 && f->labelidx == g_nlabels && f->localidx == g_locsize &&
                        f->height == lsize && f->nresults == nr, "frame");
        V_CHECK(current_is(&g_inst2, samemod ? &g_f[0] : &g_f2[0], samemod ? &g_ft : &g_ft2, g_locsize), "frame in use");
        V_CHECK(samemod || cache_is_empty(), "branch cache of another module");
        uint32_t i = g_w;
        V_CHECK(!(i < np && g_ctx.current_locals[i].x != (pp == NULL ? g_old[params + i] : pp[i].x)), "parameters");
        V_CHECK(!(i >= np && i < np + g_nlocals && g_ctx.current_locals[i].x != 0), "locals");
        V_CANARY(np > 1 && g_nlocals > 1 && g_ctx.locals.p == g_locals2 && g_ctx.stack.p == g_cells2, "moved");
        V_CANARY(g_nframes == 0, "first frame");
        V_CANARY(!samemod && g_nframes > 1, "another module");
}
//@job h_frame_enter prop=P12 enforce=frame_enter,set_current_frame,stack_prealloc,cells_zero,cells_copy dfcc=0 unwind=17 solver=cadical bounded="an operand stack of up to 13 cells, 4 frames, 6 labels, 12 cells of locals (larger ones: the allocation fails)"
void
h_frame_enter(void)
{
        setup();
        setup_code();
        bool samemod = g_inst2.module == &g_mod;
        const struct expr_exec_info *ei = setup_callee(samemod ? g_f : g_f2);
        uint32_t np = samemod ? g_np : g_np2;
        unsigned int i;
        V_ASSUME(np <= 4);
        for (i = 0; i < 4; i++) {
                g_params[i].x = in_u32();
                g_ctx.cache[i].key = in_u32();
        }
        uint32_t pc = in_u32();
        V_ASSUME(pc < NC);
        g_ctx.p = g_code + pc;
        /* the parameters can be on the operand stack, just above its top */
        bool onstack = in_bool();
        V_ASSUME(!onstack || np <= NS - g_lsize);
        int ret = (real_frame_enter)(&g_ctx, &g_inst2, 1, ei, &g_lt, samemod ? &g_ft.parameter : &g_ft2.parameter,
                              samemod ? g_nr : g_nr2, onstack ? &g_cells[g_lsize] : g_params);
        check_entered(ret, g_lsize, g_lsize, onstack ? NULL : g_params, ei, g_ctx.options.max_stackcells);
        V_CANARY(ret == 0 && onstack && np > 1 && g_ctx.stack.p == g_cells2, "parameters on the stack");
        V_CHECK(ret != 0 || g_nframes == 0 || g_ctx.frames.p[g_nframes].callerpc == pc, "return address");
        V_CHECK(g_ctx.p == g_code + pc && g_ctx.stack.lsize == g_lsize, "position");
}


static struct funcinst g_fi;
static struct funcinst *g_funcs2[2];
/* what frame_enter was called with */
static int g_e_ret;
static unsigned int g_e_n;
static uint32_t g_e_lsize;
static struct funcframe *g_e_frame;
static int
frame_enter(struct exec_context *ctx, struct instance *inst, uint32_t funcidx, const struct expr_exec_info *ei,
            const struct localtype *localtype, const struct resulttype *paramtype, uint32_t nresults,
            const struct cell *params)
{
        bool samemod = g_inst2.module == &g_mod;
        const struct func *f = samemod ? g_f : g_f2;
        V_CHECK(ctx == &g_ctx && inst == &g_inst2 && funcidx == 1 && ei == &f->e.ei && localtype == &f->localtype &&
                        paramtype == (samemod ? &g_ft.parameter : &g_ft2.parameter) &&
                        nresults == (samemod ? g_nr : g_nr2), "function called");
        V_CHECK(params == g_ctx.stack.p + g_ctx.stack.lsize, "parameters");
        g_e_n++;
        g_e_lsize = g_ctx.stack.lsize;
        return g_e_ret;
}
static void
setup_fi(void)
{
        g_funcs2[1] = &g_fi;
        g_inst2.funcs.p = g_funcs2;
        g_inst2.funcs.lsize = 2;
        g_fi.is_host = false;
        g_fi.u.wasm.instance = &g_inst2;
        g_fi.u.wasm.funcidx = 1;
        g_e_ret = (int)in_u32();
}
//@job h_wasm_call prop=P12 enforce=do_call,do_wasm_call,funcinst_func,funcinst_functype,module_functype dfcc=0 unwind=17 bounded="an operand stack of up to 7 cells, 3 frames, 4 labels"
void
h_wasm_call(void)
{
        setup();
        setup_code();
        bool samemod = g_inst2.module == &g_mod;
        struct func *f = samemod ? g_f : g_f2;
        uint32_t np = samemod ? g_np : g_np2;
        V_ASSUME(np <= g_lsize);
        uint32_t start = in_u32(), pc = in_u32();
        V_ASSUME(pc < NC && start < NC);
        f->e.start = g_code + start;
        g_ctx.p = g_code + pc;
        setup_fi();
        int ret = do_call(&g_ctx, &g_fi);
        V_CHECK(ret == g_e_ret && g_e_n == 1 && g_e_lsize == g_lsize - np, "call");
        V_CHECK(g_ctx.p == g_code + (ret == 0 ? start : pc), "start of the function");
        V_CHECK(control_is(g_nframes, g_nlabels, g_locsize), "control stack");
        V_CHECK(!(g_w < g_lsize && g_cells[g_w].x != g_old[g_w]), "operands");
        V_CANARY(ret == 0 && np > 1 && !samemod, "called");
        V_CANARY(ret != 0, "failed");
}
//@job h_return_call prop=P12,P11 enforce=do_return_call,do_wasm_call,frame_exit,rewind_stack dfcc=0 unwind=17 solver=cadical bounded="an operand stack of up to 7 cells, 3 frames, 4 labels"
void
h_return_call(void)
{
        setup();
        setup_code();
        V_ASSUME(g_nframes > 0);
        bool samemod = g_inst2.module == &g_mod;
        struct func *f = samemod ? g_f : g_f2;
        uint32_t np = samemod ? g_np : g_np2;
        const struct funcframe *of = &g_oldframes[g_nframes - 1];
        V_ASSUME(of->height <= g_lsize && np <= g_lsize - of->height);
        uint32_t start = in_u32();
        V_ASSUME(start < NC);
        f->e.start = g_code + start;
        setup_fi();
        int ret = do_return_call(&g_ctx, &g_fi);
        V_CHECK(ret == g_e_ret && g_e_n == 1 && g_e_lsize == of->height, "call");
        V_CHECK(ret != 0 || g_ctx.p == g_code + start, "start of the function");
        V_CHECK(control_is(g_nframes - 1, of->labelidx, of->localidx), "control stack after a tail call");
        V_CHECK(!(g_w < np && g_cells[of->height + g_w].x != g_old[g_lsize - np + g_w]), "parameters");
        V_CHECK(!(g_w < of->height && g_cells[g_w].x != g_old[g_w]), "operands");
        if (g_nframes > 1) {
                /* the return address is the one of the caller of this function */
                V_CHECK(ret == 0 || g_ctx.p == g_code + of->callerpc, "return address");
                V_CHECK(g_ctx.instance == &g_inst2, "instance of the caller");
        }
        V_CANARY(ret == 0 && np > 1 && g_nframes > 1 && of->height + np + 1 < g_lsize, "called");
        V_CANARY(ret != 0, "failed");
}

static struct taginst g_taga, g_tagb;
static struct taginst *g_tags[2], *g_tags2[2];
static const struct taginst *g_thrown;
static uint32_t g_old2[NS + 6];
static const struct functype *
taginst_functype(const struct taginst *ti)
{
        V_CHECK(ti == g_thrown && ti != NULL, "the tag of the exception");
        return &g_tagft;
}
static bool g_stub_catch, g_c_found, g_c_all, g_c_ref;
static uint32_t g_c_frame, g_c_label, g_c_n;
static int
find_catch(const struct exec_context *ctx, const struct taginst *taginst,
           uint32_t *frameidxp, uint32_t *labelidxp, bool *allp)
{
        if (!g_stub_catch) {
                return real_find_catch(ctx, taginst, frameidxp, labelidxp, allp);
        }
        V_CHECK(ctx == &g_ctx && taginst == g_thrown && taginst != NULL, "the exception to look for");
        V_CHECK(g_ctx.frames.lsize == g_nframes && g_ctx.labels.lsize == g_nlabels, "state to look for the handler in");
        g_c_n++;
        if (!g_c_found) {
                return ENOENT;
        }
        *frameidxp = g_c_frame;
        *labelidxp = g_c_label;
        *allp = g_c_all;
        return 0;
}
/* the first matching clause of the block at the position, if any */
static bool
find_clause(const struct instance *inst, uint32_t pos, uint32_t depth)
{
        unsigned int i;
        V_ASSUME(pos < NC);
        if (g_code[pos] != 0x1f) {
                return false;
        }
        pos++;
        V_ASSUME(pos < NC);
        pos += g_nl[pos]; /* the block type */
        V_ASSUME(pos < NC);
        uint32_t n = g_nu[pos];
        V_ASSUME(n <= 2);
        pos += g_nl[pos];
        for (i = 0; i < 2; i++) {
                if (i >= n) {
                        return false;
                }
                V_ASSUME(pos < NC);
                uint8_t op = g_code[pos++];
                V_ASSUME(op <= 3); /* catch, catch_ref, catch_all, catch_all_ref */
                const struct taginst *t = NULL;
                if (op < 2) {
                        V_ASSUME(pos < NC && g_nu[pos] < 2);
                        t = inst->tags.p[g_nu[pos]];
                        pos += g_nl[pos];
                }
                V_ASSUME(pos < NC && g_nu[pos] <= depth); /* validated */
                if (t == NULL || t == g_thrown) {
                        g_c_all = t == NULL;
                        g_c_label = g_nu[pos];
                        return true;
                }
                pos += g_nl[pos];
        }
        return false;
}
//@job h_find_catch prop=P13 enforce=find_catch,compare_taginst dfcc=0 unwind=4 unwindset=setup_code.0:17,setup.0:8,setup.1:5,setup.2:4,setup.3:4,setup.4:7,h_find_catch.0:5 solver=cadical bounded="3 frames, 3 labels, 2 catch clauses for each block"
void
h_find_catch(void)
{
        setup();
        setup_code();
        V_ASSUME(g_nframes > 0 && g_nlabels <= 3);
        g_ctx.bottom = in_u32();
        V_ASSUME(g_ctx.bottom < g_nframes);
        g_tags[0] = &g_taga;
        g_tags[1] = in_bool() ? &g_taga : &g_tagb;
        g_tags2[0] = &g_tagb;
        g_tags2[1] = in_bool() ? &g_taga : &g_tagb;
        g_inst.tags.p = g_tags;
        g_inst2.tags.p = g_tags2;
        g_inst.tags.lsize = g_inst2.tags.lsize = 2;
        g_mod.nimportedtags = g_mod2.nimportedtags = 1;
        g_mod.ntags = g_mod2.ntags = 1;
        g_thrown = in_bool() ? &g_taga : &g_tagb;
        bool found = false;
        uint32_t l, f = g_nframes - 1, frame = 0, label = 0;
        bool all = in_bool();
        for (l = 3; l-- > 0;) {
                if (!found && l < g_nlabels && l >= g_frames[g_ctx.bottom].labelidx) {
                        /* the innermost frame which starts at or below the label */
                        f = g_nframes - 1;
                        if (f > 0 && g_frames[f].labelidx > l) {
                                f--;
                        }
                        if (f > 0 && g_frames[f].labelidx > l) {
                                f--;
                        }
                        found = find_clause(g_frames[f].instance, g_labels[l].pc, l - g_frames[f].labelidx);
                        if (found) {
                                frame = f;
                                /* the label index relative to the innermost label of the frame */
                                label = g_c_label + ((f + 1 < g_nframes ? g_frames[f + 1].labelidx : g_nlabels) - l);
                        }
                }
        }
        uint32_t rf, rl;
        bool ra;
        int ret = real_find_catch(&g_ctx, g_thrown, &rf, &rl, &ra);
        V_CHECK(control_is(g_nframes, g_nlabels, g_locsize) && g_ctx.stack.lsize == g_lsize, "state is not changed by the search");
        if (!found) {
                V_CHECK(ret == ENOENT, "no handler");
                V_CANARY(g_nlabels > 2 && g_frames[g_ctx.bottom].labelidx == 1, "no handler");
                return;
        }
        V_CHECK(ret == 0, "a handler");
        V_CHECK(rf == frame, "frame of the handler");
        V_CHECK(rl == label, "label of the handler");
        V_CHECK(ra == g_c_all, "whether the handler is for all exceptions");
        V_CANARY(frame + 2 < g_nframes && g_c_all, "a handler for all");
        V_CANARY(g_c_label > 0 && !g_c_all, "a handler for the tag");
}
//@job h_exception prop=P13 enforce=do_exception,branch_to_label,frame_exit,cells_move dfcc=0 unwind=8 unwindset=setup_code.0:17,h_exception.0:14,h_exception.1:14,h_exception.2:14,h_exception.3:14,v_cells_copy.0:14 solver=cadical bounded="3 frames, 4 labels, an operand stack of up to 13 cells"
void
h_exception(void)
{
        setup();
        setup_code();
        V_ASSUME(g_nframes > 0);
        unsigned int i;
        g_stub_catch = true;
        g_thrown = in_bool() ? NULL : &g_taga;
        g_tagcsz = in_u32();
        V_ASSUME(g_tagcsz <= 4);
        /* the operand stack, with the exception on the top */
        g_ctx.stack.p = g_cells2;
        g_ctx.stack.psize = NS + 6;
        for (i = 0; i < NS + 6; i++) {
                g_old2[i] = in_u32();
        }
        g_lsize = in_u32();
        V_ASSUME(g_lsize >= 6 && g_lsize <= NS + 6 && g_lsize <= g_ctx.options.max_stackcells);
        for (i = 4; i < NS + 5; i++) {
                if (i + 2 == g_lsize) {
                        g_old2[i] = (uint32_t)(uintptr_t)g_thrown;
                        g_old2[i + 1] = (uint32_t)((uintptr_t)g_thrown >> 32);
                }
        }
        for (i = 0; i < NS + 6; i++) {
                g_cells2[i].x = g_old2[i];
        }
        g_ctx.stack.lsize = g_lsize;
        g_stub_exit = true;
        g_x_pa = in_u32();
        g_x_ar = in_u32();
        g_x_target = in_u32();
        V_ASSUME(g_x_target < NC);
        g_c_found = in_bool();
        g_c_all = in_bool();
        g_c_ref = in_bool();
        g_c_frame = in_u32();
        g_c_label = in_u32();
        V_ASSUME(g_c_frame < g_nframes);
        uint32_t f = g_c_frame;
        uint32_t top = f + 1 < g_nframes ? g_frames[f + 1].labelidx : g_nlabels;
        V_ASSUME(g_c_label >= 1 && g_c_label <= top - g_frames[f].labelidx);
        uint32_t height, arity, csz = g_c_all ? 0 : g_tagcsz, nlabels, nframes;
        bool exits = top - g_c_label == g_frames[f].labelidx;
        if (exits) {
                height = g_frames[f].height;
                arity = g_frames[f].nresults;
                nlabels = g_frames[f].labelidx;
                nframes = f;
        } else {
                nlabels = top - g_c_label - 1;
                V_ASSUME(g_labels[nlabels].height >= g_x_pa);
                height = g_labels[nlabels].height - g_x_pa;
                arity = g_x_ar;
                nframes = f + 1;
        }
        V_ASSUME(arity == csz + (g_c_ref ? 6 : 0)); /* validated */
        V_ASSUME(height <= g_lsize - 6 && arity <= NS + 6 && height + arity <= NS + 6);
        int ret = do_exception(&g_ctx);
        V_CHECK(g_ctx.bottom == 0 && g_ctx.report == &g_report && g_ctx.stack.p == g_cells2, "context");
        if (g_thrown == NULL) {
                V_CHECK(trap_is(ret, TRAP_THROW_REF_NULL), "null exception");
                V_CANARY(true, "null exception");
                return;
        }
        V_CHECK(g_c_n == 1, "the handler is looked for");
        if (!g_c_found) {
                V_CHECK(trap_is(ret, TRAP_UNCAUGHT_EXCEPTION), "uncaught exception");
                V_CHECK(control_is(g_nframes, g_nlabels, g_locsize), "state on an uncaught exception");
                V_CANARY(g_nlabels > 2, "uncaught exception");
                return;
        }
        V_CHECK(ret == 0 && !g_ctx.trapped, "caught exception");
        V_CHECK(control_is(nframes, nlabels, exits ? g_oldframes[f].localidx
                           : f + 1 < g_nframes ? g_oldframes[f + 1].localidx : g_locsize), "control stack at the handler");
        V_CHECK(g_ctx.stack.lsize == height + arity, "operand stack at the handler");
        V_CHECK(!(g_w < height && g_cells2[g_w].x != g_old2[g_w]), "operands below the handler");
        V_CHECK(!(g_w < csz && g_cells2[height + g_w].x != g_old2[g_lsize - 6 + g_w]), "payload");
        /* (the cells of an exception which are not in use don't matter.) */
        V_CHECK(!(g_c_ref && g_w < 6 && (g_w < g_tagcsz || g_w >= 4) &&
                  g_cells2[height + csz + g_w].x != g_old2[g_lsize - 6 + g_w]), "exception reference");
        if (exits) {
                V_CHECK(g_x_n == 0, "return from the function");
                V_CHECK(f == 0 || (g_ctx.p == g_code + g_oldframes[f].callerpc &&
                                   g_ctx.instance == g_oldframes[f - 1].instance), "the caller");
        } else {
                V_CHECK(g_x_n == 1 && g_x_pc == g_oldlabels[nlabels].pc && g_ctx.p == g_code + g_x_target, "label of the handler");
                V_CHECK(g_ctx.instance == g_oldframes[f].instance, "instance of the handler");
        }
        V_CANARY(f + 1 < g_nframes && g_c_ref && !g_c_all && csz > 1, "caught in an outer frame");
        V_CANARY(exits, "return from the function");
        V_CANARY(!exits && g_c_all && !g_c_ref, "caught all");
        V_CANARY(!exits && height + csz > g_lsize - 6, "overlap");
}
