//@family base=core
/*
 * Id allocator.  Operations on one id only materialise that id's slot; the
 * base address of the vector is computed backwards from it.
 */
#include "verif.h"
#include <stdlib.h>
#define NSL 4
static void *g_slots[2][NSL + 1];
static int g_cur;
static bool g_oom;
static void *
v_realloc(void *p, size_t n)
{
        V_CHECK(n <= sizeof(g_slots[0]), "realloc size");
        if (in_bool()) {
                g_oom = true;
                return NULL;
        }
        unsigned int i;
        for (i = 0; i < NSL; i++) {
                g_slots[1][i] = g_slots[0][i];
        }
        g_slots[1][NSL] = (void *)(uintptr_t)in_u64();
        g_cur = 1;
        return g_slots[1];
}
#define realloc(p, n) v_realloc(p, n)
#include "u_core.h"

static struct idalloc g_ida;
static struct mem_context g_mctx;
static void *g_slot;
static uint32_t g_id;
static uint32_t g_user_var;

/* an allocator in an arbitrary state, focused on g_id */
static bool
setup_one(void)
{
        uint32_t mn = in_u32();
        uint32_t mx = in_u32();
        V_ASSUME(mn <= mx);
        g_ida.base = mn;
        g_ida.maxid = mx - mn;
        g_ida.vec.lsize = in_u32();
        g_ida.vec.psize = g_ida.vec.lsize;
        V_ASSUME(g_ida.vec.lsize <= (uint64_t)(mx - mn) + 1);
        g_id = in_u32();
        uint8_t k = in_u8();
        g_slot = k == 0 ? NULL : k == 1 ? (void *)1 : (void *)&g_user_var;
        bool in = g_id >= mn && g_id - mn < g_ida.vec.lsize;
        g_ida.vec.p = in ? &g_slot - (g_id - mn) : NULL;
        return in;
}
#define FREE ((void *)1)

bool idalloc_test(struct idalloc *ida, uint32_t id) V_ASG()
        V_ENS(V_RET == (id >= ida->base && id - ida->base < ida->vec.lsize && g_slot != FREE));
//@job h_idalloc_test prop=P26 enforce=idalloc_test
void h_idalloc_test(void)
{
        bool in = setup_one();
        bool r = idalloc_test(&g_ida, g_id);
        V_CHECK(r == (in && g_slot != FREE), "allocated iff in use");
        V_CANARY(r && g_id == UINT32_MAX, "largest id");
        V_CANARY(!r && !in, "not in the table");
        V_CANARY(!r && in, "free slot");
}
void idalloc_free(struct idalloc *ida, uint32_t id, struct mem_context *mctx) V_ASG(g_slot) V_ENS(g_slot == FREE);
//@job h_idalloc_free prop=P26 enforce=idalloc_free
void h_idalloc_free(void)
{
        bool in = setup_one();
        V_ASSUME(in && g_slot != FREE);
        idalloc_free(&g_ida, g_id, &g_mctx);
        V_CHECK(g_slot == FREE && !idalloc_test(&g_ida, g_id), "released");
        V_CANARY(g_id == UINT32_MAX, "largest id");
}
void idalloc_set_user(struct idalloc *ida, uint32_t id, void *user_data) V_ASG(g_slot) V_ENS(g_slot == user_data);
void *idalloc_get_user(struct idalloc *ida, uint32_t id) V_ASG() V_ENS(V_RET == g_slot);
//@job h_idalloc_set_user prop=P26 enforce=idalloc_set_user
void h_idalloc_set_user(void)
{
        bool in = setup_one();
        V_ASSUME(in && g_slot != FREE);
        void *u = in_bool() ? NULL : &g_user_var;
        idalloc_set_user(&g_ida, g_id, u);
        V_CHECK(g_slot == u, "stored");
        V_CANARY(g_id == UINT32_MAX, "largest id");
}
//@job h_idalloc_get_user prop=P26 enforce=idalloc_get_user
void h_idalloc_get_user(void)
{
        bool in = setup_one();
        V_ASSUME(in && g_slot != FREE);
        void *r = idalloc_get_user(&g_ida, g_id);
        V_CHECK(r == g_slot, "the pointer given");
        V_CANARY(r != NULL, "non null");
}
//@job h_idalloc_init prop=P26 dfcc=0 unwind=30
void h_idalloc_init(void)
{
        uint32_t mn = in_u32();
        uint32_t mx = in_u32();
        uint32_t id = in_u32();
        V_ASSUME(mn <= mx);
        g_ida.vec.lsize = 3;
        idalloc_init(&g_ida, mn, mx);
        V_CHECK(g_ida.vec.lsize == 0 && g_ida.vec.p == NULL && g_ida.vec.psize == 0, "empty");
        V_CHECK(!idalloc_test(&g_ida, id), "nothing is allocated");
        V_CANARY(mx == UINT32_MAX && mn == 0, "full range");
}

static uint32_t g_ls0;
static unsigned int g_used0; /* occupancy */
//@job h_idalloc_alloc prop=P26 dfcc=0 unwind=8 bounded="at most 4 slots in the allocator's table (any range)"
void h_idalloc_alloc(void)
{
        uint32_t mn = in_u32();
        uint32_t mx = in_u32();
        V_ASSUME(mn <= mx);
        g_ida.base = mn;
        g_ida.maxid = mx - mn;
        g_ls0 = in_u8();
        V_ASSUME(g_ls0 <= NSL && g_ls0 <= (uint64_t)(mx - mn) + 1);
        g_ida.vec.lsize = g_ls0;
        g_ida.vec.psize = g_ls0 + (in_bool() ? 1 : 0);
        g_ida.vec.p = g_ida.vec.psize == 0 ? NULL : g_slots[0];
        void *old[NSL];
        unsigned int i;
        bool full = true;
        for (i = 0; i < NSL; i++) {
                uint8_t k = in_u8();
                old[i] = k == 0 ? NULL : k == 1 ? FREE : (void *)&g_user_var;
                g_slots[0][i] = old[i];
                if (i < g_ls0 && old[i] == FREE) {
                        full = false;
                }
        }
        g_slots[0][NSL] = NULL;
        g_mctx.limit = in_u64();
        g_mctx.allocated = in_u64();
        V_ASSUME(g_mctx.allocated <= g_mctx.limit && g_mctx.allocated >= 1000);
        uint64_t al0 = g_mctx.allocated;
        bool tight = g_mctx.limit - al0 < sizeof(void *);
        uint32_t id = in_u32();
        int ret = idalloc_alloc(&g_ida, &id, &g_mctx);
        V_CHECK(g_ida.base == mn && g_ida.maxid == mx - mn, "range kept");
        bool room = (uint64_t)g_ls0 <= (uint64_t)(mx - mn);
        if (ret != 0) {
                V_CHECK(full, "no failure while an id is free");
                V_CHECK(!room || g_oom || tight, "no failure while the range has room");
                V_CHECK(room || ret == ERANGE, "exhaustion is reported as such");
                V_CHECK(g_ida.vec.lsize == g_ls0, "unchanged");
        } else {
                V_CHECK(id >= mn && id <= mx, "in range");
                uint32_t k = id - mn;
                V_CHECK(k <= g_ls0 && k < g_ida.vec.lsize, "has a slot");
                V_CHECK(k == g_ls0 || old[k] == FREE, "was not allocated");
                V_CHECK(idalloc_test(&g_ida, id), "is allocated now");
                V_CHECK(idalloc_get_user(&g_ida, id) == NULL, "no pointer yet");
                for (i = 0; i < NSL; i++) {
                        if (i < g_ls0 && i != k) {
                                V_CHECK(g_slots[g_cur][i] == old[i], "other ids unchanged");
                        }
                }
        }
        V_CANARY(ret == ERANGE, "exhausted");
        V_CANARY(ret == 0 && id == UINT32_MAX, "largest id");
        V_CANARY(ret == 0 && g_ida.vec.lsize == g_ls0 && g_ls0 == NSL, "reused");
        V_CANARY(ret == 0 && g_cur == 1 && g_ls0 == NSL, "grown");
}
