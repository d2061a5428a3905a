//@family base=all def=FIXED_STACK
//@trusted memset/memcpy/memmove/realloc/malloc on linear memory and data segments follow the C library's contracts (h/wit.h)
/*
 * Linear memory beyond scalar accesses: address resolution with on-demand
 * backing, bulk instructions, grow/size, creation.
 */
#include "wit.h"
#include "exec_common.h"

static struct meminst g_mi, g_mi2;
static struct memtype g_mt, g_mt2;
static struct meminst *g_mis[1];
static struct mem_context g_mctx;
static uint64_t g_memlen;
static struct wit g_old[NWIT];     /* ghost: witness bytes before */
static uint64_t g_alloc0, g_res0;
static uint32_t g_pages0;
static uint8_t g_code[16];

/* logical content of the memory before: bytes never backed are zero */
static uint8_t
oldbyte(unsigned int i)
{
        return g_old[i].obj == OBJ_MEM && g_old[i].idx >= g_alloc0 ? 0 : g_old[i].val;
}
static uint8_t
newbyte(unsigned int i)
{
        return g_wit[i].obj == OBJ_MEM && g_wit[i].idx >= g_mi.allocated ? 0 : g_wit[i].val;
}
static bool
mi_inv(void)
{
        return g_mi.allocated <= (uint64_t)g_mi.size_in_pages << g_mt.page_shift &&
               g_mi.type == &g_mt && g_mi.mctx == &g_mctx &&
               (g_mi.allocated == 0 ? g_mi.data == NULL && g_live == 0
                                    : g_mi.data == (g_live == 1 ? MEM1 : MEM2) &&
                                              (g_live == 1 || g_live == 2) && g_livesize == g_mi.allocated) &&
               g_mctx.allocated - g_mi.allocated == g_res0 && g_mctx.allocated <= g_mctx.limit;
}
static void
setup_mi(unsigned int shift, bool shared)
{
        g_mt.flags = shared ? MEMTYPE_FLAG_SHARED : 0;
        g_mt.page_shift = (uint8_t)shift;
        g_pages0 = in_u32();
        g_memlen = (uint64_t)g_pages0 << g_mt.page_shift;
        g_mt.lim.max = in_u32();
        g_mt.lim.min = in_u32();
        V_ASSUME(g_mt.page_shift == 0 || g_mt.lim.max <= 65536);
        V_ASSUME(g_mt.lim.min <= g_pages0 && g_pages0 <= g_mt.lim.max);
        g_mi.type = &g_mt;
        g_mi.mctx = &g_mctx;
        g_mi.size_in_pages = g_pages0;
        g_alloc0 = in_u64();
        V_ASSUME(g_alloc0 <= g_memlen);
        V_ASSUME(!shared || g_alloc0 == g_memlen);
        g_mi.allocated = g_alloc0;
        if (g_alloc0 == 0) {
                g_live = 0;
                g_mi.data = NULL;
        } else {
                g_live = 1;
                g_livesize = g_alloc0;
                g_mi.data = MEM1;
        }
        g_mctx.limit = in_u64();
        g_res0 = in_u64();
        V_ASSUME(g_res0 <= g_mctx.limit && g_alloc0 <= g_mctx.limit - g_res0);
        g_mctx.allocated = g_res0 + g_alloc0;
        g_mctx.parent = NULL;
        unsigned int i;
        for (i = 0; i < NWIT; i++) {
                g_wit[i].obj = OBJ_MEM;
                g_wit[i].idx = in_u32();
                g_wit[i].val = in_u8();
        }
        for (i = 0; i < NWIT; i++) {
                unsigned int j;
                for (j = 0; j < i; j++) {
                        V_ASSUME(g_wit[i].idx != g_wit[j].idx || g_wit[i].val == g_wit[j].val);
                }
                g_old[i] = g_wit[i];
        }
}
static void
setup_vec(uint32_t memidx)
{
        g_mod.nimportedmems = in_u32();
        g_mod.nmems = in_u32();
        V_ASSUME(g_mod.nmems <= UINT32_MAX - g_mod.nimportedmems);
        V_ASSUME(memidx < g_mod.nmems + g_mod.nimportedmems);
        g_mis[0] = &g_mi;
        g_inst.mems.p = g_mis - (size_t)memidx;
        g_inst.mems.lsize = g_mod.nmems + g_mod.nimportedmems;
}
/* the logical contents are unchanged */
static bool
same_bytes(void)
{
        unsigned int i;
        for (i = 0; i < NWIT; i++) {
                if (g_wit[i].idx < g_memlen && newbyte(i) != oldbyte(i)) {
                        return false;
                }
        }
        return true;
}
static bool
same_content(void)
{
        return same_bytes() && g_mi.size_in_pages == g_pages0;
}
#define V_ASG_MI V_ASG_WIT, g_mi.data, g_mi.allocated, g_mctx.allocated, g_mctx.peak

/* ---- memory_instance_getptr2 */

static uint32_t g_ptr, g_off, g_sz;
static bool
getptr_ok(int ret, void *p)
{
        uint64_t ea = (uint64_t)g_ptr + g_off;
        if (!mi_inv() || !same_content()) {
                return false;
        }
        if (ea + g_sz > g_memlen) {
                return ret == ETOYWASMTRAP;
        }
        if (g_sz == 0 && ea > UINT32_MAX) {
                return true; /* not expressible by an instruction */
        }
        if (ret == ENOMEM) {
                return (g_oom || g_mctx.limit - g_mctx.allocated < ea + g_sz - g_mi.allocated) &&
                       g_mi.allocated == g_alloc0 && ea + g_sz > g_alloc0;
        }
        return ret == 0 && p == g_mi.data + ea && (g_sz == 0 || ea + g_sz <= g_mi.allocated);
}
int memory_instance_getptr2(struct meminst *meminst, uint32_t ptr, uint32_t offset,
                            uint32_t size, void **pp, bool *movedp)
        V_REQ(meminst == &g_mi && mi_inv()) V_ASG(*pp, V_ASG_MI)
        V_ASG(movedp != NULL: *movedp) V_ENS(getptr_ok(V_RET, *pp));

static void
b_getptr2(unsigned int shift)
{
        setup_mi(shift, in_bool());
        g_ptr = in_u32();
        g_off = in_u32();
        g_sz = in_u32();
        void *p = NULL;
        bool moved = false;
        uint8_t *data0 = g_mi.data;
        int ret = memory_instance_getptr2(&g_mi, g_ptr, g_off, g_sz, &p, in_bool() ? &moved : NULL);
        V_CHECK(getptr_ok(ret, p), "memory_instance_getptr2");
        V_CANARY(ret == 0 && moved, "extended");
        V_CANARY(ret == 0 && !moved && g_sz == 70000, "in place");
        V_CANARY(ret == ETOYWASMTRAP, "traps");
        V_CANARY(ret == ENOMEM, "no memory");
}
//@job h_getptr2_p16 prop=P01,P02,P03,P09,P10,P21,P22 enforce=memory_instance_getptr2 unwind=5 solver=cadical
void h_getptr2_p16(void) { b_getptr2(16); }
//@job h_getptr2_p0 prop=P01,P02,P03,P09,P10,P21,P22 enforce=memory_instance_getptr2 unwind=5 solver=cadical
void h_getptr2_p0(void) { b_getptr2(0); }
static void
b_getptr2_moved(unsigned int shift)
{
        setup_mi(shift, in_bool());
        void *p = NULL;
        bool moved = false;
        uint8_t *data0 = g_mi.data;
        int ret = memory_instance_getptr2(&g_mi, in_u32(), in_u32(), in_u32(), &p, &moved);
        V_CHECK(moved || g_mi.data == data0, "a relocation is reported");
        V_CANARY(ret == 0 && moved, "moved");
}
//@job h_getptr2_moved_p16 prop=P03,P21,P22 dfcc=0 unwind=5 solver=cadical
void h_getptr2_moved_p16(void) { b_getptr2_moved(16); }
//@job h_getptr2_moved_p0 prop=P03,P21,P22 dfcc=0 unwind=5 solver=cadical
void h_getptr2_moved_p0(void) { b_getptr2_moved(0); }
/* through the instance: the right memory, and the trap */
static void
b_memory_getptr2(unsigned int shift)
{
        setup_stack(0, 0);
        setup_mi(shift, in_bool());
        uint32_t memidx = in_u32();
        setup_vec(memidx);
        g_ptr = in_u32();
        g_off = in_u32();
        g_sz = in_u32();
        void *p = NULL;
        bool moved = false;
        int ret;
        if (in_bool()) {
                ret = memory_getptr(&g_ctx, memidx, g_ptr, g_off, g_sz, &p);
        } else {
                ret = memory_getptr2(&g_ctx, memidx, g_ptr, g_off, g_sz, &p, &moved);
        }
        V_CHECK(getptr_ok(ret, p), "memory_getptr2");
        V_CHECK(ret == ETOYWASMTRAP ? g_ctx.trapped && g_ctx.trap.trapid == TRAP_OUT_OF_BOUNDS_MEMORY_ACCESS
                                    : !g_ctx.trapped, "trap");
        V_CANARY(ret == 0 && moved, "extended");
        V_CANARY(ret == ETOYWASMTRAP, "traps");
}
//@job h_memory_getptr2_p16 prop=P01,P02,P03,P09,P10,P21,P22 dfcc=0 unwind=5 solver=cadical
void h_memory_getptr2_p16(void) { b_memory_getptr2(16); }
//@job h_memory_getptr2_p0 prop=P01,P02,P03,P09,P10,P21,P22 dfcc=0 unwind=5 solver=cadical
void h_memory_getptr2_p0(void) { b_memory_getptr2(0); }

/* ---- grow and size */

static struct shared_meminst g_sh;
static uint32_t g_delta, g_memidx;
static bool
grow_ok(uint32_t r)
{
        uint64_t want = (uint64_t)g_pages0 + g_delta;
        uint32_t pages1 = g_mi.size_in_pages;
        uint64_t len1 = (uint64_t)pages1 << g_mt.page_shift;
        unsigned int i;
        if (!same_bytes() || !mi_inv()) {
                return false;
        }
        /* a shared memory is always fully backed */
        if (g_mi.shared != NULL && g_mi.allocated != len1) {
                return false;
        }
        if (g_pages0 == (uint32_t)-1) {
                /* the value is ambiguous; either way nothing grows */
                return r == (uint32_t)-1 && pages1 == g_pages0 && g_mi.allocated == g_alloc0;
        }
        if (r == (uint32_t)-1) {
                return pages1 == g_pages0 && g_mi.allocated == g_alloc0 &&
                       (want > g_mt.lim.max || g_oom ||
                        g_mctx.limit - g_mctx.allocated < (want << g_mt.page_shift) - g_alloc0);
        }
        if (r != g_pages0 || want > g_mt.lim.max || pages1 != want) {
                return false;
        }
        /* new pages read as zero */
        for (i = 0; i < NWIT; i++) {
                if (g_wit[i].idx >= g_memlen && g_wit[i].idx < len1 && newbyte(i) != 0) {
                        return false;
                }
        }
        return true;
}
static void
b_memory_grow(unsigned int shift)
{
        bool shared = in_bool();
        setup_mi(shift, shared);
        g_mi.shared = shared ? &g_sh : NULL;
        g_delta = in_u32();
        uint32_t r = memory_grow(&g_mi, g_delta);
        V_CHECK(grow_ok(r), "memory_grow");
        V_CANARY(r == 1 && g_delta == 1, "small");
        V_CANARY(r == 100 && g_delta == 100, "large");
        V_CANARY(r == 100 && shared, "shared");
        V_CANARY(r == (uint32_t)-1 && g_oom, "no memory");
}
static void
b_memory_grow2(unsigned int shift)
{
        setup_stack(0, 0);
        bool shared = in_bool();
        setup_mi(shift, shared);
        g_mi.shared = shared ? &g_sh : NULL;
        g_delta = in_u32();
        uint32_t memidx = in_u32();
        setup_vec(memidx);
        g_ctx.cluster = NULL;
        uint32_t r = memory_grow2(&g_ctx, memidx, g_delta);
        V_CHECK(grow_ok(r), "memory_grow2");
        V_CANARY(r == 100 && g_delta == 100, "large");
        V_CANARY(r == (uint32_t)-1 && g_oom, "no memory");
}
//@job h_memory_grow2_p16 prop=P04 dfcc=0 unwind=5 solver=cadical
void h_memory_grow2_p16(void) { b_memory_grow2(16); }
//@job h_memory_grow2_p0 prop=P04 dfcc=0 unwind=5 solver=cadical
void h_memory_grow2_p0(void) { b_memory_grow2(0); }
//@job h_memory_grow_p16 prop=P04 dfcc=0 unwind=5 solver=cadical
void h_memory_grow_p16(void) { b_memory_grow(16); }
//@job h_memory_grow_p0 prop=P04 dfcc=0 unwind=5 solver=cadical
void h_memory_grow_p0(void) { b_memory_grow(0); }
/* an unsigned LEB immediate */
static uint32_t
code_imm(unsigned int pos, unsigned int *nextp)
{
        uint64_t v = 0;
        unsigned int i;
        *nextp = 0;
        for (i = 0; i < 5; i++) {
                uint8_t b = in_u8();
                g_code[pos + i] = b;
                if (*nextp == 0) {
                        v |= (uint64_t)(b & 0x7f) << (7 * i);
                        if ((b & 0x80) == 0) {
                                *nextp = pos + i + 1;
                        }
                }
        }
        V_ASSUME(*nextp != 0 && v <= UINT32_MAX);
        return (uint32_t)v;
}
static uint32_t g_growret;
uint32_t memory_grow2(struct exec_context *ctx, uint32_t memidx, uint32_t sz)
        V_REQ(ctx == &g_ctx && memidx == g_memidx && sz == g_delta) V_ASG() V_ENS(V_RET == g_growret);
static bool
insn_grow_ok(int ret)
{
        return done(ret, 1, g_pc0) && out32(0) == g_growret;
}
static int fetch_exec_memory_grow(const uint8_t *p, struct cell *stack, struct exec_context *ctx)
        V_REQ(!ctx->trapped) V_ASG(ctx->p, ctx->stack.lsize, ctx->stack.p[g_h0])
        V_ENS(insn_grow_ok(V_RET));
/* the instruction, given memory_grow2 (its own contract: h_memory_grow2) */
//@job h_insn_memory_grow prop=P04 enforce=fetch_exec_memory_grow replace=memory_grow2 need=memory_grow2 unwind=7 solver=cadical
void
h_insn_memory_grow(void)
{
        struct cell *stack = setup_stack(1, 1);
        setup_mi(16, false);
        unsigned int len;
        g_memidx = code_imm(0, &len);
        g_pc0 = g_code + len;
        setup_vec(g_memidx);
        g_delta = in32(0);
        g_growret = in_u32();
        int ret = fetch_exec_memory_grow(g_code, stack, &g_ctx);
#if !defined(VERIF_NATIVE)
        V_CHECK(insn_grow_ok(ret), "memory.grow");
#endif
        V_CANARY(out32(0) == 1, "grown");
}
static int fetch_exec_memory_size(const uint8_t *p, struct cell *stack, struct exec_context *ctx)
        V_REQ(!ctx->trapped) V_ASG(ctx->p, ctx->stack.lsize, ctx->stack.p[g_h0])
        V_ENS(done(V_RET, 1, g_pc0) && out32(0) == g_pages0);
static void
b_insn_memory_size(unsigned int shift)
{
        struct cell *stack = setup_stack(0, 1);
        setup_mi(shift, in_bool());
        unsigned int len;
        uint32_t memidx = code_imm(0, &len);
        g_pc0 = g_code + len;
        setup_vec(memidx);
        int ret = fetch_exec_memory_size(g_code, stack, &g_ctx);
        V_CHECK(done(ret, 1, g_pc0) && out32(0) == g_pages0, "memory.size");
        V_CANARY(out32(0) == 70, "size");
}
//@job h_insn_memory_size_p16 prop=P04 enforce=fetch_exec_memory_size unwind=7 solver=cadical
void h_insn_memory_size_p16(void) { b_insn_memory_size(16); }
//@job h_insn_memory_size_p0 prop=P04 enforce=fetch_exec_memory_size unwind=7 solver=cadical
void h_insn_memory_size_p0(void) { b_insn_memory_size(0); }

/* ---- bulk instructions */

static uint32_t g_d, g_s, g_n;
/* after a failure or a zero length: logical contents unchanged */
static bool
bulk_trap(int ret, enum trapid id)
{
        return trapped(ret, id) && same_content() && mi_inv();
}
static bool
bulk_nomem(int ret)
{
        return ret == ENOMEM && !g_ctx.trapped && same_content() && mi_inv() && (g_oom || true);
}
#define FAILS_NOMEM(ret) ((ret) == ENOMEM && bulk_nomem(ret))
/* witness 0: an arbitrary byte; witness 1: the byte that should move there */
static bool
copy_ok(int ret)
{
        if ((uint64_t)g_s + g_n > g_memlen || (uint64_t)g_d + g_n > g_memlen) {
                return bulk_trap(ret, TRAP_OUT_OF_BOUNDS_MEMORY_ACCESS) || FAILS_NOMEM(ret);
        }
        if (ret != 0) {
                return FAILS_NOMEM(ret);
        }
        if (!done(ret, 0, g_pc0) || !mi_inv() || g_mi.size_in_pages != g_pages0) {
                return false;
        }
        uint64_t a = g_wit[0].idx;
        if (a >= g_memlen) {
                return true;
        }
        if (a >= g_d && a - g_d < g_n) {
                return newbyte(0) == oldbyte(1);
        }
        return newbyte(0) == oldbyte(0);
}
#define V_ASG_BULK(n) V_ASG(ctx->p, ctx->stack.lsize, ctx->trapped, ctx->trap, *ctx->report,  \
        __CPROVER_object_upto(ctx->stack.p + g_h0, (n) * sizeof(struct cell)), V_ASG_MI)
static int fetch_exec_memory_copy(const uint8_t *p, struct cell *stack, struct exec_context *ctx)
        V_REQ(!ctx->trapped) V_ASG_BULK(3) V_ENS(copy_ok(V_RET));
static void
b_insn_memory_copy(unsigned int shift, bool extend)
{
        struct cell *stack = setup_stack(3, 0);
        setup_mi(shift, in_bool());
        V_ASSUME(extend == (g_alloc0 != g_memlen));
        unsigned int len;
        uint32_t memidx = code_imm(0, &len);
        uint32_t memidx2 = code_imm(len, &len);
        V_ASSUME(memidx2 == memidx);
        g_pc0 = g_code + len;
        setup_vec(memidx);
        g_d = in32(0);
        g_s = in32(1);
        g_n = in32(2);
        V_ASSUME(g_wit[0].idx - g_d >= g_n || g_wit[1].idx == g_s + (g_wit[0].idx - g_d));
        int ret = fetch_exec_memory_copy(g_code, stack, &g_ctx);
        V_CHECK(copy_ok(ret), "memory.copy");
        V_CANARY(ret == 0 && g_n == 100000 && g_s == g_d + 3 && g_wit[0].idx == g_d + 5, "overlapping");
        V_CANARY(ret == 0 && g_n == 100000, "long");
        V_CANARY(ret == ETOYWASMTRAP && g_n == 0, "traps");
}
//@job h_insn_memory_copy_p16 prop=P03 enforce=fetch_exec_memory_copy replace=v_trap_with_id unwind=7 unwindset=fetch_exec_memory_copy.0:3 solver=cadical
void h_insn_memory_copy_p16(void) { b_insn_memory_copy(16, false); }
//@job h_insn_memory_copy_ext_p16 prop=P03 enforce=fetch_exec_memory_copy replace=v_trap_with_id unwind=7 unwindset=fetch_exec_memory_copy.0:3 solver=cadical
void h_insn_memory_copy_ext_p16(void) { b_insn_memory_copy(16, true); }
//@job h_insn_memory_copy_p0 prop=P03 enforce=fetch_exec_memory_copy replace=v_trap_with_id unwind=7 unwindset=fetch_exec_memory_copy.0:3 solver=cadical
void h_insn_memory_copy_p0(void) { b_insn_memory_copy(0, false); }
//@job h_insn_memory_copy_ext_p0 prop=P03 enforce=fetch_exec_memory_copy replace=v_trap_with_id unwind=7 unwindset=fetch_exec_memory_copy.0:3 solver=cadical
void h_insn_memory_copy_ext_p0(void) { b_insn_memory_copy(0, true); }
static bool
fill_ok(int ret)
{
        if ((uint64_t)g_d + g_n > g_memlen) {
                return bulk_trap(ret, TRAP_OUT_OF_BOUNDS_MEMORY_ACCESS);
        }
        if (ret != 0) {
                return FAILS_NOMEM(ret);
        }
        if (!done(ret, 0, g_pc0) || !mi_inv() || g_mi.size_in_pages != g_pages0) {
                return false;
        }
        uint64_t a = g_wit[0].idx;
        if (a >= g_memlen) {
                return true;
        }
        return newbyte(0) == (a >= g_d && a - g_d < g_n ? (uint8_t)in32(1) : oldbyte(0));
}
static int fetch_exec_memory_fill(const uint8_t *p, struct cell *stack, struct exec_context *ctx)
        V_REQ(!ctx->trapped) V_ASG_BULK(3) V_ENS(fill_ok(V_RET));
static void
b_insn_memory_fill(unsigned int shift)
{
        struct cell *stack = setup_stack(3, 0);
        setup_mi(shift, in_bool());
        unsigned int len;
        uint32_t memidx = code_imm(0, &len);
        g_pc0 = g_code + len;
        setup_vec(memidx);
        g_d = in32(0);
        g_n = in32(2);
        int ret = fetch_exec_memory_fill(g_code, stack, &g_ctx);
        V_CHECK(fill_ok(ret), "memory.fill");
        V_CANARY(ret == 0 && g_n == 100000 && g_mi.allocated != g_alloc0, "extends");
        V_CANARY(ret == ETOYWASMTRAP, "traps");
}
//@job h_insn_memory_fill_p16 prop=P03 enforce=fetch_exec_memory_fill replace=v_trap_with_id unwind=7 solver=cadical
void h_insn_memory_fill_p16(void) { b_insn_memory_fill(16); }
//@job h_insn_memory_fill_p0 prop=P03 enforce=fetch_exec_memory_fill replace=v_trap_with_id unwind=7 solver=cadical
void h_insn_memory_fill_p0(void) { b_insn_memory_fill(0); }
/* witness 1: the segment's byte that should move to witness 0 */
static uint32_t g_bits[1], g_bits0;
static struct data g_data[1];
static uint32_t g_dataidx;
static bool
dropped(void)
{
        return (g_bits0 >> (g_dataidx % 32)) & 1;
}
static bool
init_ok(int ret, bool insn)
{
        if (g_bits[0] != g_bits0) {
                return false;
        }
        uint64_t seglen = dropped() ? 0 : g_segsize;
        bool oseg = (uint64_t)g_s + g_n > seglen;
        bool omem = (uint64_t)g_d + g_n > g_memlen;
        if (oseg || omem) {
                return (oseg && bulk_trap(ret, TRAP_OUT_OF_BOUNDS_DATA_ACCESS)) ||
                       (omem && bulk_trap(ret, TRAP_OUT_OF_BOUNDS_MEMORY_ACCESS));
        }
        if (ret != 0) {
                return FAILS_NOMEM(ret);
        }
        if ((insn && !done(ret, 0, g_pc0)) || g_ctx.trapped || !mi_inv() || g_mi.size_in_pages != g_pages0) {
                return false;
        }
        uint64_t a = g_wit[0].idx;
        if (a >= g_memlen) {
                return true;
        }
        return newbyte(0) == (a >= g_d && a - g_d < g_n ? g_old[1].val : oldbyte(0));
}
static void
setup_data(uint32_t dataidx)
{
        g_dataidx = dataidx;
        g_mod.ndatas = in_u32();
        V_ASSUME(dataidx < g_mod.ndatas);
        g_segsize = in_u32();
        g_data[0].init_size = (uint32_t)g_segsize;
        g_data[0].init = SEG;
        g_mod.datas = g_data - (size_t)dataidx;
        g_bits[0] = g_bits0 = in_u32();
        g_inst.data_dropped.data = g_bits - (size_t)(dataidx / 32);
        g_wit[1].obj = OBJ_SEG;
        V_ASSUME(g_wit[0].idx - g_d >= g_n || g_wit[1].idx == g_s + (g_wit[0].idx - g_d));
        g_old[1] = g_wit[1];
}
static int fetch_exec_memory_init(const uint8_t *p, struct cell *stack, struct exec_context *ctx)
        V_REQ(!ctx->trapped) V_ASG_BULK(3) V_ENS(init_ok(V_RET, true));
static void
b_insn_memory_init(unsigned int shift)
{
        struct cell *stack = setup_stack(3, 0);
        setup_mi(shift, in_bool());
        unsigned int len;
        uint32_t dataidx = code_imm(0, &len);
        uint32_t memidx = code_imm(len, &len);
        g_pc0 = g_code + len;
        setup_vec(memidx);
        g_d = in32(0);
        g_s = in32(1);
        g_n = in32(2);
        setup_data(dataidx);
        int ret = fetch_exec_memory_init(g_code, stack, &g_ctx);
        V_CHECK(init_ok(ret, true), "memory.init");
        V_CANARY(ret == 0 && g_n == 100000 && g_mi.allocated != g_alloc0, "extends");
        V_CANARY(ret == 0 && dropped(), "dropped");
        V_CANARY(ret == ETOYWASMTRAP && g_ctx.trap.trapid == TRAP_OUT_OF_BOUNDS_MEMORY_ACCESS, "traps");
        V_CANARY(ret == ETOYWASMTRAP && g_ctx.trap.trapid == TRAP_OUT_OF_BOUNDS_DATA_ACCESS, "traps2");
}
//@job h_insn_memory_init_p16 prop=P03 enforce=fetch_exec_memory_init replace=v_trap_with_id unwind=7 solver=cadical
void h_insn_memory_init_p16(void) { b_insn_memory_init(16); }
//@job h_insn_memory_init_p0 prop=P03 enforce=fetch_exec_memory_init replace=v_trap_with_id unwind=7 solver=cadical
void h_insn_memory_init_p0(void) { b_insn_memory_init(0); }
int memory_init(struct exec_context *ectx, uint32_t memidx, uint32_t dataidx,
            uint32_t d, uint32_t s, uint32_t n)
        V_REQ(!ectx->trapped) V_ASG(ectx->trapped, ectx->trap, *ectx->report, V_ASG_MI)
        V_ENS(init_ok(V_RET, false));
static void
b_memory_init(unsigned int shift)
{
        setup_stack(0, 0);
        setup_mi(shift, in_bool());
        uint32_t memidx = in_u32();
        setup_vec(memidx);
        g_d = in_u32();
        g_s = in_u32();
        g_n = in_u32();
        uint32_t dataidx = in_u32();
        setup_data(dataidx);
        int ret = memory_init(&g_ctx, memidx, dataidx, g_d, g_s, g_n);
        V_CHECK(init_ok(ret, false), "memory_init");
        V_CANARY(ret == 0 && g_n == 100000, "copies");
        V_CANARY(ret == ETOYWASMTRAP, "traps");
}
//@job h_memory_init_p16 prop=P03,P29 enforce=memory_init replace=v_trap_with_id unwind=7 solver=cadical
void h_memory_init_p16(void) { b_memory_init(16); }
//@job h_memory_init_p0 prop=P03,P29 enforce=memory_init replace=v_trap_with_id unwind=7 solver=cadical
void h_memory_init_p0(void) { b_memory_init(0); }
static bool
drop_ok(int ret)
{
        return done(ret, 0, g_pc0) && g_bits[0] == (g_bits0 | UINT32_C(1) << (g_dataidx % 32));
}
static int fetch_exec_data_drop(const uint8_t *p, struct cell *stack, struct exec_context *ctx)
        V_REQ(!ctx->trapped) V_ASG(ctx->p, ctx->stack.lsize, g_bits[0]) V_ENS(drop_ok(V_RET));
//@job h_insn_data_drop prop=P03 enforce=fetch_exec_data_drop unwind=7 solver=cadical
void
h_insn_data_drop(void)
{
        struct cell *stack = setup_stack(0, 0);
        unsigned int len;
        uint32_t dataidx = code_imm(0, &len);
        g_pc0 = g_code + len;
        setup_data(dataidx);
        int ret = fetch_exec_data_drop(g_code, stack, &g_ctx);
        V_CHECK(drop_ok(ret), "data.drop");
        V_CANARY(ret == 0 && g_dataidx == 70000, "drops");
}

/* ---- host functions */

/* the host's buffer is the object of the segments; exactly len bytes */
#define NO_TRAP UINT32_MAX
static uint32_t g_align, g_hlen;
static bool g_nomem;
static void
setup_host(unsigned int shift)
{
        setup_stack(0, 0);
        setup_mi(shift, in_bool());
        g_nomem = in_bool();
        g_ptr = in_u32();
        g_hlen = in_u32();
        uint8_t k = in_u8();
        V_ASSUME(k < 32);
        g_align = (uint32_t)1 << k;
        g_segsize = g_hlen;
        /* a byte of the host's buffer; another of the memory */
        g_wit[1].obj = OBJ_SEG;
        g_wit[1].idx = in_u32();
        g_old[1] = g_wit[1];
}
static uint32_t
host_trap(bool aligned)
{
        return (g_ptr & (g_align - 1)) != 0 && aligned ? TRAP_UNALIGNED_MEMORY_ACCESS
               : g_nomem                               ? TRAP_MEMORY_NOT_FOUND
               : (uint64_t)g_ptr + g_hlen > g_memlen   ? TRAP_OUT_OF_BOUNDS_MEMORY_ACCESS
                                                       : NO_TRAP;
}
static void
check_host(int ret, bool aligned)
{
        uint32_t t = host_trap(aligned);
        V_CHECK((ret == ETOYWASMTRAP) == (t != NO_TRAP), "traps if and only if the range or its alignment is bad");
        V_CHECK(ret == 0 || ret == ETOYWASMTRAP || (ret == ENOMEM && g_alloc0 < g_memlen), "result");
        V_CHECK(g_ctx.trapped == (t != NO_TRAP), "trapped");
        V_CHECK(t == NO_TRAP || g_ctx.trap.trapid == t, "trap id");
        V_CHECK(mi_inv() && g_mi.size_in_pages == g_pages0, "the memory is well-formed");
}
static void
b_host_copyin(unsigned int shift)
{
        setup_host(shift);
        int ret = host_func_copyin(&g_ctx, g_nomem ? NULL : &g_mi, SEG, g_ptr, g_hlen, g_align);
        check_host(ret, true);
        V_CHECK(g_wit[0].idx >= g_memlen || newbyte(0) == oldbyte(0), "the guest's memory is unchanged");
        if (ret != 0) {
                V_CHECK(g_wit[1].val == g_old[1].val, "the host's buffer is unchanged");
        } else if (g_wit[1].idx < g_hlen && g_wit[0].idx == g_ptr + g_wit[1].idx) {
                V_CHECK(g_wit[1].val == oldbyte(0), "the bytes are copied");
                V_CANARY(g_hlen > 100, "copied");
        }
        V_CANARY(ret == ETOYWASMTRAP, "traps");
}
//@job h_host_copyin_p16 prop=P21,P22 enforce=host_func_copyin dfcc=0 unwind=5 solver=cadical about="copying from the guest's memory: all of an aligned range inside, or a trap without effect"
void h_host_copyin_p16(void) { b_host_copyin(16); }
//@job h_host_copyin_p0 prop=P21 enforce=host_func_copyin dfcc=0 unwind=5 solver=cadical
void h_host_copyin_p0(void) { b_host_copyin(0); }
static void
b_host_copyout(unsigned int shift)
{
        setup_host(shift);
        int ret = host_func_copyout(&g_ctx, g_nomem ? NULL : &g_mi, SEG, g_ptr, g_hlen, g_align);
        check_host(ret, true);
        V_CHECK(g_wit[1].val == g_old[1].val, "the host's buffer is unchanged");
        if (ret == 0 && g_wit[0].idx >= g_ptr && g_wit[0].idx - g_ptr < g_hlen) {
                if (g_wit[1].idx == g_wit[0].idx - g_ptr) {
                        V_CHECK(newbyte(0) == g_old[1].val, "the bytes are copied");
                        V_CANARY(g_hlen > 100, "copied");
                }
        } else {
                V_CHECK(g_wit[0].idx >= g_memlen || newbyte(0) == oldbyte(0), "other bytes are unchanged");
        }
        V_CANARY(ret == ETOYWASMTRAP, "traps");
}
//@job h_host_copyout_p16 prop=P21,P22 enforce=host_func_copyout dfcc=0 unwind=5 solver=cadical about="copying to the guest's memory: all of an aligned range inside, or a trap without effect"
void h_host_copyout_p16(void) { b_host_copyout(16); }
//@job h_host_copyout_p0 prop=P21 enforce=host_func_copyout dfcc=0 unwind=5 solver=cadical
void h_host_copyout_p0(void) { b_host_copyout(0); }
static void
b_host_getptr(unsigned int shift)
{
        setup_host(shift);
        void *p = NULL;
        bool moved = false;
        uint8_t *data0 = g_mi.data;
        int ret;
        if (in_bool()) {
                ret = host_func_getptr(&g_ctx, g_nomem ? NULL : &g_mi, g_ptr, g_hlen, &p);
        } else {
                ret = host_func_getptr2(&g_ctx, g_nomem ? NULL : &g_mi, g_ptr, g_hlen, &p, &moved);
                V_CHECK(moved || g_mi.data == data0, "a relocation is reported");
        }
        check_host(ret, false);
        V_CHECK(g_wit[0].idx >= g_memlen || newbyte(0) == oldbyte(0), "the guest's memory is unchanged");
        if (ret == 0) {
                V_CHECK(p == g_mi.data + g_ptr, "the pointer");
                V_CHECK(g_hlen == 0 || (uint64_t)g_ptr + g_hlen <= g_mi.allocated, "the range is backed");
        }
        V_CANARY(ret == 0, "ok");
        V_CANARY(ret == ETOYWASMTRAP, "traps");
}
//@job h_host_getptr_p16 prop=P21,P22 enforce=host_func_getptr,host_func_getptr2 dfcc=0 unwind=5 solver=cadical about="a pointer to a range of the guest's memory, or a trap"
void h_host_getptr_p16(void) { b_host_getptr(16); }
//@job h_host_getptr_p0 prop=P21 enforce=host_func_getptr,host_func_getptr2 dfcc=0 unwind=5 solver=cadical
void h_host_getptr_p0(void) { b_host_getptr(0); }

//@job h_host_align prop=P21,P22 enforce=host_func_check_align,host_func_mul_size dfcc=0 unwind=5 solver=kissat about="alignment of guest addresses; sizes do not wrap"
void
h_host_align(void)
{
        setup_stack(0, 0);
        uint32_t a = in_u32(), b = in_u32(), r = 0;
        uint8_t k = in_u8();
        V_ASSUME(k < 32);
        int ret = host_func_check_align(&g_ctx, a, (size_t)1 << k);
        bool ok = ((uint64_t)a >> k) << k == a;
        V_CHECK(ret == (ok ? 0 : ETOYWASMTRAP), "aligned or trapped");
        V_CHECK(g_ctx.trapped == !ok && (ok || g_ctx.trap.trapid == TRAP_UNALIGNED_MEMORY_ACCESS), "trap");
        ret = host_func_mul_size(a, b, &r);
        uint64_t m = (uint64_t)a * b;
        V_CHECK(m <= UINT32_MAX ? ret == 0 && r == m : ret == EOVERFLOW, "the product, or an error");
        V_CANARY(ret == 0 && a > 1000 && b > 1000, "ok");
        V_CANARY(ret == EOVERFLOW, "overflow");
}
