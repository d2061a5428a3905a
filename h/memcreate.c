//@family base=core
//@trusted malloc/memset on linear memory follow the C library's contracts (h/wit.h)
#define W_SMALL_MEMSET
#include "wit.h"
#include "u_core.h"

static struct memtype g_mt;
static struct mem_context g_mctx;
static uint64_t g_res0;

/* ---- creation */

static void
b_memory_create(unsigned int shift)
{
        g_mt.flags = in_bool() ? MEMTYPE_FLAG_SHARED : 0;
        g_mt.page_shift = (uint8_t)shift;
        g_mt.lim.min = in_u32();
        g_mt.lim.max = in_u32();
        V_ASSUME(g_mt.page_shift == 0 || g_mt.lim.max <= 65536);
        V_ASSUME(g_mt.lim.min <= g_mt.lim.max);
        g_mctx.limit = in_u64();
        g_res0 = in_u64();
        V_ASSUME(g_res0 <= g_mctx.limit);
        g_mctx.allocated = g_res0;
        g_live = 0;
        g_bigmalloc = 3;
        g_wit[0].obj = OBJ_MEM;
        g_wit[0].idx = in_u32();
        struct meminst *mi = NULL;
        int ret = memory_instance_create(&g_mctx, &mi, &g_mt);
        uint64_t len = (uint64_t)g_mt.lim.min << g_mt.page_shift;
        if (ret != 0) {
                V_CHECK(g_mctx.allocated == g_res0 && g_live == 0, "nothing is left behind");
                V_CHECK(g_oom || g_mctx.limit - g_res0 < sizeof(*mi) + sizeof(struct shared_meminst) + len, "only without memory");
                return;
        }
        V_CHECK(mi->size_in_pages == g_mt.lim.min && mi->type == &g_mt && mi->mctx == &g_mctx, "initial size");
        bool shared = (g_mt.flags & MEMTYPE_FLAG_SHARED) != 0;
        V_CHECK(shared == (mi->shared != NULL), "shared state");
        V_CHECK(mi->allocated == (shared ? len : 0), "backing");
        V_CHECK(mi->allocated == 0 ? mi->data == NULL && g_live == 0 : mi->data == MEM1 && g_livesize == len, "data");
        V_CHECK(!(g_live != 0 && g_wit[0].idx < len && g_wit[0].val != 0), "zero filled");
        V_CHECK(g_mctx.allocated == g_res0 + sizeof(*mi) + (shared ? sizeof(struct shared_meminst) + len : 0), "accounted");
        V_CANARY(shared && len > 70000, "shared");
        V_CANARY(!shared, "not shared");
}
//@job h_memory_create_p16 prop=P04,P20 dfcc=0 unwind=5 flags="--unwindset waiter_list_table_init.0:1100" solver=cadical
void h_memory_create_p16(void) { b_memory_create(16); }
//@job h_memory_create_p0 prop=P04,P20 dfcc=0 unwind=5 flags="--unwindset waiter_list_table_init.0:1100" solver=cadical
void h_memory_create_p0(void) { b_memory_create(0); }

