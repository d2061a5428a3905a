/* linear memory for the instruction contracts */
#pragma once
#include "exec_common.h"

/*
 * The memory has an arbitrary size up to 4 GiB.  Only the bytes around the
 * effective address are materialised (g_win); the pointer to the first byte of
 * the memory is computed from them, so any access to another address is
 * outside of the object.
 */
#define WPRE 16
#define WLEN 48
static uint8_t g_win[WLEN];
static uint8_t g_old[WLEN]; /* ghost */
static struct meminst g_mi;
static struct memtype g_mt;
static struct meminst *g_mis[1];
static uint32_t g_memidx;
static uint32_t g_offset;
static uint32_t g_align;
static unsigned int g_memarg_len;
static uint64_t g_memlen; /* the size of the memory in bytes */
static uint64_t g_ea;
static uint64_t g_n; /* bytes accessed */
static uint8_t g_code[16];
static uint32_t g_ww; /* ghost: an arbitrary byte of the window */

/* an unsigned 32-bit LEB at g_code[pos] */
static bool
code_u32(unsigned int pos, unsigned int *nextp, uint32_t *vp)
{
        uint64_t v = 0;
        unsigned int i;
        for (i = 0; i < 5; i++) {
                uint8_t b = g_code[pos + i];
                v |= (uint64_t)(b & 0x7f) << (7 * i);
                if ((b & 0x80) == 0) {
                        *nextp = pos + i + 1;
                        *vp = (uint32_t)v;
                        return v <= UINT32_MAX;
                }
        }
        return false;
}

static bool
code_memarg(unsigned int *nextp, uint32_t *alignp, uint32_t *memidxp, uint32_t *offsetp)
{
        unsigned int pos;
        *memidxp = 0;
        if (!code_u32(0, &pos, alignp)) {
                return false;
        }
        if ((*alignp & 0x40) != 0) {
                *alignp &= ~(uint32_t)0x40;
                if (!code_u32(pos, &pos, memidxp)) {
                        return false;
                }
        }
        return code_u32(pos, nextp, offsetp);
}

static void
setup_meminst(uint32_t memidx)
{
        g_mt.flags = in_u8();
        /* only these are accepted by the decoder */
        g_mt.page_shift = in_bool() ? 16 : 0;
        uint32_t pages = in_u32();
        g_memlen = (uint64_t)pages << g_mt.page_shift;
        V_ASSUME(g_memlen <= UINT64_C(1) << 32);
        g_mi.type = &g_mt;
        g_mi.size_in_pages = pages;
        g_memidx = memidx;
        g_mod.nimportedmems = in_u32();
        g_mod.nmems = in_u32();
        V_ASSUME(g_mod.nmems <= UINT32_MAX - g_mod.nimportedmems);
        V_ASSUME(memidx < g_mod.nmems + g_mod.nimportedmems);
        /* only this element of the vector exists */
        g_mis[0] = &g_mi;
        g_inst.mems.p = g_mis - (size_t)memidx;
        g_inst.mems.lsize = g_mod.nmems + g_mod.nimportedmems;
}

/* the memarg immediate and the memory it selects */
static void
setup_mem(uint32_t addr, uint32_t n, uint32_t minalign, uint32_t maxalign)
{
        uint32_t align;
        uint32_t offset;
        uint32_t memidx;
        unsigned int len = 0;
        unsigned int i;
        for (i = 0; i < sizeof(g_code); i++) {
                g_code[i] = in_u8();
        }
        V_ASSUME(code_memarg(&len, &align, &memidx, &offset));
        V_ASSUME(align >= minalign && align <= maxalign);
        g_pc0 = g_code + len;
        g_memarg_len = len;
        g_offset = offset;
        g_align = align;
        setup_meminst(memidx);
        g_n = n;
        g_ea = (uint64_t)addr + offset;
        for (i = 0; i < WLEN; i++) {
                g_win[i] = in_u8();
                g_old[i] = g_win[i];
        }
        g_ww = in_u32();
        g_mi.data = g_win + WPRE - g_ea;
        g_mi.allocated = in_u64();
        V_ASSUME(g_mi.allocated <= g_memlen);
        /* extension on demand: contract of memory_instance_getptr2 */
        V_ASSUME(g_ea + n > g_memlen || g_ea + n <= g_mi.allocated);
}

/* the contract enforced in h_getptr2, for bytes already backed by storage */
int memory_instance_getptr2(struct meminst *meminst, uint32_t ptr, uint32_t offset,
                            uint32_t size, void **pp, bool *movedp)
        V_REQ((uint64_t)ptr + offset + size > (uint64_t)meminst->size_in_pages << meminst->type->page_shift ||
              (uint64_t)ptr + offset + size <= meminst->allocated)
        V_ASG(*pp)
        V_ENS(((uint64_t)ptr + offset + size > (uint64_t)meminst->size_in_pages << meminst->type->page_shift) ==
              (V_RET == ETOYWASMTRAP))
        V_ENS(V_RET == ETOYWASMTRAP || V_RET == 0)
        V_ENS(V_RET != 0 || V_PTR_EQ(*pp, meminst->data + ((uint64_t)ptr + offset)));

/* enforced in h_read_memarg_nocheck */
static void read_memarg_nocheck(const uint8_t **pp, struct memarg *arg)
        V_REQ(*pp == g_code) V_ASG(*pp, *arg)
        V_ENS(arg->offset == g_offset && arg->align == g_align && arg->memidx == g_memidx)
        V_ENS(V_PTR_EQ(*pp, g_code + g_memarg_len));

static bool mem_oob(void) { return g_ea + g_n > g_memlen; }
static bool
mem_unchanged(void)
{
        return !(g_ww < WLEN && g_win[g_ww] != g_old[g_ww]) &&
               g_mi.data == g_win + WPRE - g_ea;
}
static bool
mem_only(void)
{
        return !(g_ww < WLEN && !(g_ww >= WPRE && g_ww < WPRE + g_n) &&
                 g_win[g_ww] != g_old[g_ww]) &&
               g_mi.data == g_win + WPRE - g_ea;
}
static uint64_t
le_old(unsigned int nbytes)
{
        uint64_t v = 0;
        unsigned int i;
        for (i = 0; i < nbytes; i++) {
                v |= (uint64_t)g_old[WPRE + i] << (8 * i);
        }
        return v;
}
static uint64_t
le_new(unsigned int nbytes)
{
        uint64_t v = 0;
        unsigned int i;
        for (i = 0; i < nbytes; i++) {
                v |= (uint64_t)g_win[WPRE + i] << (8 * i);
        }
        return v;
}
static uint64_t
lowbits(uint64_t x, unsigned int n)
{
        return n >= 64 ? x : x & ((UINT64_C(1) << n) - 1);
}
static uint64_t
sx(uint64_t v, unsigned int bits)
{
        return bits >= 64 ? v : (v ^ (UINT64_C(1) << (bits - 1))) - (UINT64_C(1) << (bits - 1));
}
static uint8_t in8(unsigned int cell0, unsigned int i) { return (uint8_t)(g_in[cell0 + i / 4] >> (8 * (i % 4))); }
static uint8_t out8(unsigned int i) { return (uint8_t)(out32(i / 4) >> (8 * (i % 4))); }

#define V_ASG_MEM(ncells)                                                     \
        V_ASG(ctx->p, ctx->stack.lsize, ctx->trapped, ctx->trap,              \
              *ctx->report, __CPROVER_object_upto(ctx->stack.p + g_h0,        \
                                        (ncells) * sizeof(struct cell)),      \
              __CPROVER_object_upto(g_win + WPRE, g_n))
