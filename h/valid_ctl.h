/*
 * Validators of the instructions with control flow.
 *
 * One or two blocks: the function's, and one in it.  Types of blocks,
 * functions and tags have up to two values.
 */
static struct resulttype g_rt[3];
static enum valtype g_rtt[7][2];
static uint32_t g_nf;       /* number of blocks */
static struct ctrlframe *g_cur;
static struct ctrlframe g_cfs[3];
static struct jump g_jumps_saved[4];
static void
in_rt(struct resulttype *rt, enum valtype *a)
{
        rt->ntypes = in_u8();
        V_ASSUME(rt->ntypes <= 2);
        rt->is_static = true;
        rt->types = a;
        a[0] = in_valtype();
        a[1] = in_valtype();
}
static enum ctrlframe_op
in_op(void)
{
        uint8_t k = in_u8();
        V_ASSUME(k < 5);
        return k == 0   ? FRAME_OP_BLOCK
               : k == 1 ? FRAME_OP_LOOP
               : k == 2 ? FRAME_OP_IF
               : k == 3 ? FRAME_OP_ELSE
                        : FRAME_OP_TRY_TABLE;
}
static void
setup_ctl(void)
{
        uint32_t i;
        setup_valid(4);
        setup_imm(1);
        in_rt(&g_rt[0], g_rtt[0]);
        in_rt(&g_rt[1], g_rtt[1]);
        in_rt(&g_rt[2], g_rtt[2]);
        in_rt(&g_ft[0].parameter, g_rtt[3]);
        in_rt(&g_ft[0].result, g_rtt[4]);
        in_rt(&g_ft[1].parameter, g_rtt[5]);
        in_rt(&g_ft[1].result, g_rtt[6]);
        g_mod.types = g_ft;
        g_mod.ntypes = in_u8();
        V_ASSUME(g_mod.ntypes <= 2);
        g_mod.nimportedfuncs = in_u32();
        g_mod.nfuncs = in_u32();
        V_ASSUME(g_mod.nimportedfuncs <= UINT32_MAX - g_mod.nfuncs);
        g_mod.nimportedtables = in_u32();
        g_mod.ntables = in_u32();
        V_ASSUME(g_mod.nimportedtables <= UINT32_MAX - g_mod.ntables);
        g_mod.nimportedtags = in_u32();
        g_mod.ntags = in_u32();
        V_ASSUME(g_mod.nimportedtags <= UINT32_MAX - g_mod.ntags);
        g_tagt[0].typeidx = 0;
        g_tagt[1].typeidx = 1;
        g_tt[0].et = in_valtype();
        g_tt[1].et = in_valtype();
        V_ASSUME(s_ref(g_tt[0].et) && s_ref(g_tt[1].et));
        /* the blocks */
        g_nf = in_bool() ? 2 : 1;
        g_cur = &g_cf[g_nf - 1];
        g_v.cframes.lsize = g_nf;
        g_cf[0].op = FRAME_OP_INVOKE;
        g_cf[0].start_types = NULL;
        g_cf[0].end_types = &g_rt[0];
        g_cf[0].jumpslot = 0;
        g_opt.generate_jump_table = in_bool();
        g_ei.njumps = 0;
        g_ei.jumps = NULL;
        g_ei.maxlabels = in_u32();
        V_ASSUME(g_ei.maxlabels >= g_nf);
        for (i = 0; i < 4; i++) {
                g_jumps[i].pc = in_u32();
                g_jumps[i].targetpc = in_u32();
        }
        if (g_opt.generate_jump_table && in_bool()) {
                g_ei.jumps = g_jumps;
                g_ei.njumps = 2;
        }
        if (g_nf == 2) {
                g_cf[1] = g_cf[0];
                g_cf[1].op = in_op();
                g_cf[1].start_types = &g_rt[1];
                g_cf[1].end_types = &g_rt[2];
                g_cf[0].height = in_u8();
                g_cf[0].height_cell = in_u32();
                g_cf[0].unreachable = in_bool();
                V_ASSUME(g_cf[0].height <= g_h0 && g_cf[0].height_cell <= g_hcell);
                if (g_opt.generate_jump_table && g_cf[1].op != FRAME_OP_LOOP) {
                        /* its slots; those of an "if" are two */
                        g_ei.jumps = g_jumps;
                        g_ei.njumps = 2;
                        g_cf[1].jumpslot = in_bool() && g_cf[1].op != FRAME_OP_IF && g_cf[1].op != FRAME_OP_ELSE;
                        V_ASSUME(g_jumps[g_cf[1].jumpslot].pc != 0 && g_jumps[g_cf[1].jumpslot].targetpc == 0);
                        if (g_cf[1].op == FRAME_OP_IF) {
                                V_ASSUME(g_jumps[1].pc != 0 && g_jumps[1].targetpc == 0);
                        }
                }
        }
        s_begin(4);
        for (i = 0; i < 3; i++) {
                g_cfs[i] = g_cf[i];
        }
        for (i = 0; i < 4; i++) {
                g_jumps_saved[i] = g_jumps[i];
        }
}
static void
restore_ctl(void)
{
        uint32_t i;
        restore_valid();
        for (i = 0; i < 3; i++) {
                g_cf[i] = g_cfs[i];
        }
        for (i = 0; i < 4; i++) {
                g_jumps[i] = g_jumps_saved[i];
        }
        s_begin(4);
}
static void
s_pops(const struct resulttype *rt)
{
        uint32_t i;
        for (i = 2; i > 0; i--) {
                if (i <= rt->ntypes) {
                        s_pop(rt->types[i - 1]);
                }
        }
}
static void
s_pushes(const struct resulttype *rt)
{
        uint32_t i;
        for (i = 0; i < 2; i++) {
                if (i < rt->ntypes) {
                        s_push(rt->types[i]);
                }
        }
}
static bool
s_same(const struct resulttype *a, const struct resulttype *b)
{
        return a->ntypes == b->ntypes && (a->ntypes < 1 || a->types[0] == b->types[0]) &&
               (a->ntypes < 2 || a->types[1] == b->types[1]);
}
/* what a branch to the block takes */
static const struct resulttype *
s_label(uint32_t l)
{
        s_require(l < g_nf);
        if (!s_ok) {
                return &g_rt[0];
        }
        if (l == g_nf - 1) {
                return &g_rt[0];
        }
        return g_cfs[1].op == FRAME_OP_LOOP ? &g_rt[1] : &g_rt[2];
}
static struct resulttype g_bt0, g_bt1; /* types of a block: parameters, results */
static enum valtype g_btt[1];
static void
s_blocktype(void)
{
        int64_t b = s33(s_num());
        g_bt0.ntypes = g_bt1.ntypes = 0;
        g_bt0.types = g_bt1.types = g_btt;
        if (b >= 0) {
                s_require(b < (int64_t)g_mod.ntypes);
                if (s_ok) {
                        g_bt0 = g_ft[b & 1].parameter;
                        g_bt1 = g_ft[b & 1].result;
                }
        } else if (b != -64) {
                s_require(b >= -128 && s_valtype((uint32_t)(b + 128)));
                g_bt1.ntypes = 1;
                g_btt[0] = (enum valtype)(b + 128);
        }
}
/* the stacks; the blocks up to n are as before */
static void
check_ctl(int ret, const uint8_t *p, uint32_t n)
{
        V_CHECK((ret == 0) == s_ok, "accepted if and only if well-typed, with valid immediates");
        V_CHECK(ret == 0 || ret == EINVAL, "otherwise rejected as invalid");
        if (ret == 0 && s_ok) {
                uint8_t i = in_u8(), k = in_u8();
                V_ASSUME(i < NV && k < 2);
                V_CHECK(p == s_p, "exactly the immediates are consumed");
                V_CHECK(g_v.valtypes.lsize == s_n, "height of the operand stack");
                V_CHECK(i >= s_n || g_vt[i] == s_vt[i], "types on the operand stack");
                V_CHECK(g_v.ncells == s_nc, "cells on the operand stack");
                V_CHECK(g_ei.maxcells == s_max, "maximum number of cells");
                V_CHECK(k >= n || (g_cf[k].op == g_cfs[k].op && g_cf[k].height == g_cfs[k].height &&
                                   g_cf[k].height_cell == g_cfs[k].height_cell &&
                                   g_cf[k].start_types == g_cfs[k].start_types &&
                                   g_cf[k].end_types == g_cfs[k].end_types &&
                                   g_cf[k].jumpslot == g_cfs[k].jumpslot &&
                                   g_cf[k].unreachable == (k == g_v.cframes.lsize - 1 ? s_un : g_cfs[k].unreachable)),
                        "the blocks are as before");
        }
}
#define CHECK_CTL                                                             \
        do {                                                                  \
                check_ctl(ret, p, 2 < g_nf ? 2 : g_nf);                       \
                V_CHECK(ret != 0 || (g_v.cframes.lsize == g_nf && g_ei.njumps == g_ei_saved.njumps), \
                        "no block starts or ends");                           \
        } while (0)

//@job h_vc_br prop=P14,P15 enforce=process_br dfcc=0 unwind=5 unwindset=setup_imm.0:25 timeout=300 about="br, br_if, return: operands are the label's (parameters of a loop, results of others); the rest is unreachable"
void
h_vc_br(void)
{
        const uint8_t *p = NULL, *sp = NULL;
        const struct resulttype *rt;
        int ret = 0;
        setup_ctl();
        rt = s_label(s_idx());
        s_pops(rt);
        if (s_ok) {
                s_unreachable();
        }
        RUN(process_br);
        CHECK_CTL;
        SKIP(process_br);
        restore_ctl();
        rt = s_label(s_idx());
        s_pop(TYPE_i32);
        s_pops(rt);
        s_pushes(rt);
        RUN(process_br_if);
        CHECK_CTL;
        SKIP(process_br_if);
        V_CANARY(ret == 0, "br_if accepted");
        V_CANARY(ret != 0, "br_if rejected");
        restore_ctl();
        s_pops(&g_rt[0]);
        if (s_ok) {
                s_unreachable();
        }
        RUN(process_return);
        CHECK_CTL;
        SKIP(process_return);
}

//@job h_vc_call prop=P14,P15 enforce=process_call dfcc=0 unwind=5 unwindset=setup_imm.0:25 timeout=300 about="call, call_indirect: parameters to results of the function type; the function, type and table exist, and the table has funcref"
void
h_vc_call(void)
{
        const uint8_t *p = NULL, *sp = NULL;
        int ret = 0;
        uint32_t i, t;
        setup_ctl();
        i = s_idx();
        s_require(i < g_mod.nimportedfuncs + g_mod.nfuncs);
        s_pops(&g_ft[i & 1].parameter);
        s_pushes(&g_ft[i & 1].result);
        RUN(process_call);
        CHECK_CTL;
        SKIP(process_call);
        restore_ctl();
        i = s_idx();
        t = s_idx();
        s_require(i < g_mod.ntypes);
        s_require(t < g_mod.nimportedtables + g_mod.ntables && g_tt[t & 1].et == TYPE_funcref);
        s_pop(TYPE_i32);
        s_pops(&g_ft[i & 1].parameter);
        s_pushes(&g_ft[i & 1].result);
        RUN(process_call_indirect);
        CHECK_CTL;
        SKIP(process_call_indirect);
        V_CANARY(ret == 0, "call_indirect accepted");
        V_CANARY(ret != 0, "call_indirect rejected");
}

//@job h_vc_return_call prop=P14,P15 enforce=process_return_call dfcc=0 unwind=5 unwindset=setup_imm.0:25 timeout=300 about="return_call, return_call_indirect: the results are the caller's; the rest is unreachable"
void
h_vc_return_call(void)
{
        const uint8_t *p = NULL, *sp = NULL;
        int ret = 0;
        uint32_t i, t;
        setup_ctl();
        i = s_idx();
        s_require(i < g_mod.nimportedfuncs + g_mod.nfuncs);
        s_pops(&g_ft[i & 1].parameter);
        s_require(s_same(&g_ft[i & 1].result, &g_rt[0]));
        if (s_ok) {
                s_unreachable();
        }
        RUN(process_return_call);
        CHECK_CTL;
        SKIP(process_return_call);
        restore_ctl();
        i = s_idx();
        t = s_idx();
        s_require(i < g_mod.ntypes);
        s_require(t < g_mod.nimportedtables + g_mod.ntables && g_tt[t & 1].et == TYPE_funcref);
        s_pop(TYPE_i32);
        s_pops(&g_ft[i & 1].parameter);
        s_require(s_same(&g_ft[i & 1].result, &g_rt[0]));
        if (s_ok) {
                s_unreachable();
        }
        RUN(process_return_call_indirect);
        CHECK_CTL;
        SKIP(process_return_call_indirect);
        V_CANARY(ret == 0, "return_call_indirect accepted");
        V_CANARY(ret != 0, "return_call_indirect rejected");
}

//@job h_vc_throw prop=P14,P15,P13 enforce=process_throw dfcc=0 unwind=5 unwindset=setup_imm.0:25 timeout=300 about="throw, throw_ref: the tag's parameters, an exnref; the rest is unreachable; there is room for the exnref"
void
h_vc_throw(void)
{
        const uint8_t *p = NULL, *sp = NULL;
        int ret = 0;
        uint32_t i;
        setup_ctl();
        i = s_idx();
        s_require(i < g_mod.nimportedtags + g_mod.ntags);
        s_pops(&g_ft[i & 1].parameter);
        s_push(TYPE_exnref);
        if (s_ok) {
                s_unreachable();
        }
        RUN(process_throw);
        CHECK_CTL;
        SKIP(process_throw);
        V_CANARY(ret == 0, "throw accepted");
        V_CANARY(ret != 0, "throw rejected");
        restore_ctl();
        s_pop(TYPE_exnref);
        if (s_ok) {
                s_unreachable();
        }
        RUN(process_throw_ref);
        CHECK_CTL;
        SKIP(process_throw_ref);
}

/* a block starts */
static void
check_start(int ret, const uint8_t *p, enum ctrlframe_op op, uint32_t slots)
{
        if (ret == 0 && s_ok) {
                struct ctrlframe *cf = &g_cf[g_nf];
                uint32_t h = s_n, hc = s_nc;
                uint32_t pc = (uint32_t)(g_p0 - g_buf) - 1;
                bool un = s_un;
                V_CHECK(g_v.cframes.lsize == g_nf + 1, "a block starts");
                V_CHECK(cf->op == op && !cf->unreachable && cf->height == h && cf->height_cell == hc,
                        "its kind and height");
                V_CHECK(s_same(cf->start_types, &g_bt0) && s_same(cf->end_types, &g_bt1), "its type");
                V_CHECK(g_ei.maxlabels == (g_ei_saved.maxlabels > g_nf + 1 ? g_ei_saved.maxlabels : g_nf + 1),
                        "maximum number of blocks");
                if (!g_opt.generate_jump_table) {
                        slots = 0;
                }
                V_CHECK(g_ei.njumps == g_ei_saved.njumps + slots, "slots for its jumps");
                if (slots > 0) {
                        uint32_t s = cf->jumpslot;
                        V_CHECK(s == g_ei_saved.njumps, "its slot is new");
                        V_CHECK(g_ei.jumps == g_jumps && g_jumps[s & 3].pc == pc && g_jumps[s & 3].targetpc == 0,
                                "the slot is of the block's pc");
                        if (slots == 2) {
                                V_CHECK(g_jumps[(s + 1) & 3].pc == pc + 1 && g_jumps[(s + 1) & 3].targetpc == 0,
                                        "the slot for else is of the next pc");
                        }
                }
                /* its parameters are pushed in it */
                s_un = false;
                s_pushes(&g_bt0);
                bool un2 = s_un;
                s_un = un;
                check_ctl(ret, p, 0);
                V_CHECK(g_cf[0].op == g_cfs[0].op && g_cf[0].unreachable == g_cfs[0].unreachable &&
                                g_cf[0].height == g_cfs[0].height,
                        "the function's block is as before");
                V_CHECK(!un2 && g_cur->unreachable == g_unreach && g_cur->height == g_h0, "the outer block is as before");
        } else {
                check_ctl(ret, p, 0);
        }
}
#define START(op, f, fop, slots)                                              \
        do {                                                                  \
                RUN(f);                                                       \
                check_start(ret, p, fop, slots);                              \
                SKIP(f);                                                      \
        } while (0)
//@job h_vc_block prop=P14,P15,P11 enforce=process_block dfcc=0 unwind=5 unwindset=setup_imm.0:25 timeout=300 about="block: a block starts, with the parameters; slots for its jumps"
void
h_vc_block(void)
{
        const uint8_t *p = NULL, *sp = NULL;
        int ret = 0;
        setup_ctl();
        s_blocktype();
        s_pops(&g_bt0);
        START(block, process_block, FRAME_OP_BLOCK, 1);
        V_CANARY(ret == 0, "block accepted");
        V_CANARY(ret != 0, "block rejected");
}
//@job h_vc_loop prop=P14,P15,P11 enforce=process_loop dfcc=0 unwind=5 unwindset=setup_imm.0:25 timeout=300 about="loop: a block starts, with the parameters; it has no slot"
void
h_vc_loop(void)
{
        const uint8_t *p = NULL, *sp = NULL;
        int ret = 0;
        setup_ctl();
        s_blocktype();
        s_pops(&g_bt0);
        START(loop, process_loop, FRAME_OP_LOOP, 0);
        V_CANARY(ret == 0, "loop accepted");
        V_CANARY(ret != 0, "loop rejected");
}
//@job h_vc_if prop=P14,P15,P11 enforce=process_if dfcc=0 unwind=5 unwindset=setup_imm.0:25 timeout=300 about="if: takes an i32; a block starts, with the parameters; two slots for its jumps"
void
h_vc_if(void)
{
        const uint8_t *p = NULL, *sp = NULL;
        int ret = 0;
        setup_ctl();
        s_blocktype();
        s_pop(TYPE_i32);
        s_pops(&g_bt0);
        START(if, process_if, FRAME_OP_IF, 2);
        V_CANARY(ret == 0, "if accepted");
        V_CANARY(ret != 0, "if rejected");
}
//@job h_vc_try_table prop=P14,P15,P13 enforce=process_try_table dfcc=0 unwind=5 unwindset=setup_imm.0:25,setup_valid.0:5,s_begin.0:5,restore_valid.0:5,setup_ctl.1:5,setup_ctl.0:5 tier=thorough timeout=900 bounded="up to 1 catch clause, operand stacks of up to 2 types" about="try_table: catch clauses push the tag's parameters (and an exnref), which are what their labels take"
void
h_vc_try_table(void)
{
        const uint8_t *p = NULL, *sp = NULL;
        int ret = 0;
        g_fixpos = true;
        setup_ctl();
        V_ASSUME(g_n0 <= 2);
        s_blocktype();
        uint32_t n = s_idx();
        V_ASSUME(n <= 1);
        s_pops(&g_bt0);
        if (s_ok && n == 1) {
                uint8_t op = s_byte();
                uint32_t tag = 0;
                s_require(op <= 3);
                if (s_ok && op <= 1) {
                        tag = s_idx();
                        s_require(tag < g_mod.nimportedtags + g_mod.ntags);
                }
                const struct resulttype *l = s_label(s_idx());
                const struct resulttype *t = &g_ft[tag & 1].parameter;
                uint32_t nt = op <= 1 ? t->ntypes : 0;
                bool x = (op & 1) != 0;
                s_require(l->ntypes == nt + x);
                if (s_ok) {
                        s_require(nt < 1 || l->types[0] == t->types[0]);
                        s_require(nt < 2 || l->types[1] == t->types[1]);
                        s_require(!x || l->types[nt] == TYPE_exnref);
                        /* (room for them) */
                        s_pushes(l);
                        s_pops(l);
                }
        }
        START(try_table, process_try_table, FRAME_OP_TRY_TABLE, 1);
        V_CANARY(ret == 0, "try_table accepted");
        V_CANARY(ret != 0, "try_table rejected");
}

/* the block's results, and nothing else, are on the stack */
static void
s_end(void)
{
        s_pops(g_cfs[g_nf - 1].end_types);
        s_require(s_n == s_h);
}
//@job h_vc_else prop=P14,P11 enforce=process_else dfcc=0 unwind=5 unwindset=setup_imm.0:25 timeout=300 about="else: ends the first part of an if with its results, starts the second with its parameters; the jump to else is here"
void
h_vc_else(void)
{
        const uint8_t *p = NULL, *sp = NULL;
        int ret = 0;
        setup_ctl();
        uint32_t pc = (uint32_t)(g_p0 - g_buf);
        s_require(g_nf == 2 && g_cfs[1].op == FRAME_OP_IF);
        s_end();
        if (s_ok) {
                s_un = false;
                s_pushes(&g_rt[1]);
        }
        RUN(process_else);
        check_ctl(ret, p, 1);
        if (ret == 0 && s_ok) {
                V_CHECK(g_v.cframes.lsize == 2, "one block instead of the other");
                V_CHECK(g_cf[1].op == FRAME_OP_ELSE && !g_cf[1].unreachable && g_cf[1].height == g_h0 &&
                                g_cf[1].height_cell == g_hcell && g_cf[1].start_types == &g_rt[1] &&
                                g_cf[1].end_types == &g_rt[2] && g_cf[1].jumpslot == g_cfs[1].jumpslot,
                        "the block is of the same type, and has the slot of the if");
                V_CHECK(g_ei.njumps == g_ei_saved.njumps, "no new slots");
                if (g_opt.generate_jump_table) {
                        V_CHECK(g_jumps[1].targetpc == pc && g_jumps[1].pc == g_jumps_saved[1].pc,
                                "the jump to else is to here");
                        V_CHECK(g_jumps[0].targetpc == 0 && g_jumps[0].pc == g_jumps_saved[0].pc,
                                "the other jump is still to be known");
                }
        }
        SKIP(process_else);
        V_CANARY(ret == 0, "else accepted");
        V_CANARY(ret != 0, "else rejected");
}
//@job h_vc_end prop=P14,P11 enforce=process_end dfcc=0 unwind=5 unwindset=setup_imm.0:25 timeout=300 about="end: the block has its results and nothing else; an if without else has the same parameters and results; the jump is to here"
void
h_vc_end(void)
{
        const uint8_t *p = NULL, *sp = NULL;
        int ret = 0;
        setup_ctl();
        uint32_t pc = (uint32_t)(g_p0 - g_buf);
        enum ctrlframe_op op = g_cfs[g_nf - 1].op;
        s_end();
        if (s_ok && op == FRAME_OP_IF) {
                s_require(s_same(&g_rt[1], &g_rt[2]));
                s_un = false;
                s_pushes(&g_rt[1]);
                s_pops(&g_rt[2]);
        }
        if (s_ok && g_nf == 2) {
                s_un = g_cfs[0].unreachable;
                s_pushes(&g_rt[2]);
        }
        RUN(process_end);
        check_ctl(ret, p, g_nf - 1);
        if (ret == 0 && s_ok) {
                V_CHECK(g_v.cframes.lsize == g_nf - 1, "the block ends");
                V_CHECK(g_ei.njumps == g_ei_saved.njumps && g_ei.maxlabels == g_ei_saved.maxlabels, "no new slots");
                if (g_nf == 2 && g_opt.generate_jump_table) {
                        uint32_t s = g_cfs[1].jumpslot;
                        if (op != FRAME_OP_LOOP) {
                                V_CHECK(g_jumps[s & 1].targetpc == pc && g_jumps[s & 1].pc == g_jumps_saved[s & 1].pc,
                                        "the jump is to here");
                                V_CHECK(g_jumps[(s ^ 1) & 1].targetpc == g_jumps_saved[(s ^ 1) & 1].targetpc,
                                        "other jumps are as before");
                        } else {
                                V_CHECK(g_jumps[0].targetpc == g_jumps_saved[0].targetpc &&
                                                g_jumps[1].targetpc == g_jumps_saved[1].targetpc,
                                        "jumps are as before");
                        }
                }
        }
        SKIP(process_end);
        V_CANARY(ret == 0 && g_nf == 2 && op == FRAME_OP_IF, "end accepted");
        V_CANARY(ret == 0 && g_nf == 1, "end of the function accepted");
        V_CANARY(ret != 0, "end rejected");
}

//@job h_vc_br_table prop=P14,P15,P11 enforce=process_br_table dfcc=0 unwind=5 unwindset=setup_imm.0:25 timeout=400 bounded="up to 2 labels and the default" about="br_table: an i32 and the operands of all labels, which have as many; the rest is unreachable"
void
h_vc_br_table(void)
{
        const uint8_t *p = NULL;
        int ret = 0;
        uint32_t l[2], i;
        g_fixpos = true;
        setup_ctl();
        g_mctx.allocated = 0;
        g_mctx.limit = 1000;
        uint32_t n = s_idx();
        V_ASSUME(n <= 2);
        for (i = 0; i < 2; i++) {
                l[i] = i < n ? s_idx() : 0;
        }
        const struct resulttype *d = s_label(s_idx());
        s_pop(TYPE_i32);
        for (i = 0; i < 2; i++) {
                if (i < n && s_ok) {
                        const struct resulttype *rt = s_label(l[i]);
                        uint32_t sn = s_n, sc = s_nc;
                        s_require(rt->ntypes == d->ntypes);
                        s_pops(rt);
                        s_n = sn;
                        s_nc = sc;
                }
        }
        s_pops(d);
        if (s_ok) {
                s_unreachable();
        }
        RUN(process_br_table);
        CHECK_CTL;
        V_CHECK(g_mctx.allocated == 0, "nothing is left allocated");
        V_CANARY(ret == 0 && n == 2, "br_table accepted");
        V_CANARY(ret != 0, "br_table rejected");
}
