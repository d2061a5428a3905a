//@family base=dyld
//@stub *memory_grow it grows the memory by the pages asked, or fails and returns -1 (P04)
//@stub *table_grow it grows the table by the elements asked, or fails and returns -1 (P05)
//@stub *module_find_export it finds an export of the kind, or fails (P19)
/*
 * Regions given to dynamically linked modules.
 *
 * Invariant of the linker: the memory is as large as the pages up to
 * memory_base need, the table has table_base elements.  Regions given before
 * are below these.
 */
#define V_N_memory_grow real_memory_grow
#define V_N_table_grow real_table_grow
#define V_N_module_find_export real_module_find_export
#include "bytes.h"
#include "verif.h"
#include "type.h"
#include "exec_context.h"
#include "instance.h"
static uint32_t memory_grow(struct meminst *mi, uint32_t sz);
static int table_grow(struct tableinst *t, const struct val *val, uint32_t n);
static int module_find_export(const struct module *m, const struct name *name, uint32_t type, uint32_t *idxp);
#include "u_dyld.h"

static struct dyld g_d;
static struct dyld_object g_obj;
static struct module g_mod;
static struct dylink g_dl;
static struct instance g_inst;
static struct meminst g_mi;
static struct memtype g_mt;
static struct tableinst g_ti;
static struct tabletype g_tt;
static struct globalinst g_sp;
static bool g_failed; /* growing failed */
static uint32_t g_mb0, g_tb0, g_pages0, g_tsize0;
static struct meminst *g_mis[1];
static struct tableinst *g_tis[1];

static uint32_t
memory_grow(struct meminst *mi, uint32_t sz)
{
        V_CHECK(mi == &g_mi, "the memory is the linker's");
        uint64_t n = (uint64_t)mi->size_in_pages + sz;
        if (n << g_mt.page_shift > (uint64_t)1 << 32 || n > UINT32_MAX || in_bool()) {
                g_failed = true;
                return (uint32_t)-1;
        }
        uint32_t o = mi->size_in_pages;
        mi->size_in_pages = (uint32_t)n;
        return o;
}
static int
table_grow(struct tableinst *t, const struct val *val, uint32_t n)
{
        V_CHECK(t == &g_ti && val == &val_null, "the table is the linker's; elements are null");
        uint64_t s = (uint64_t)t->size + n;
        if (s > UINT32_MAX || in_bool()) {
                g_failed = true;
                return -1;
        }
        uint32_t o = t->size;
        t->size = (uint32_t)s;
        return (int)o;
}
static int
module_find_export(const struct module *m, const struct name *name, uint32_t type, uint32_t *idxp)
{
        V_CHECK(m == &g_mod, "the module");
        *idxp = 0;
        return type == EXTERNTYPE_MEMORY || type == EXTERNTYPE_TABLE ? 0 : ENOENT;
}

static bool
inv(void)
{
        uint64_t msize = (uint64_t)g_mi.size_in_pages << g_mt.page_shift;
        return msize >= g_d.memory_base && msize - g_d.memory_base < (uint64_t)1 << g_mt.page_shift &&
               g_ti.size == g_d.table_base;
}
static void
setup(void)
{
        g_mt.page_shift = in_bool() ? 16 : 0;
        g_mi.type = &g_mt;
        g_mi.size_in_pages = g_pages0 = in_u32();
        V_ASSUME((uint64_t)g_pages0 << g_mt.page_shift <= (uint64_t)1 << 32);
        g_ti.type = &g_tt;
        g_ti.size = g_tsize0 = in_u32();
        g_d.meminst = &g_mi;
        g_d.tableinst = &g_ti;
        g_d.memory_base = g_mb0 = in_u32();
        g_d.table_base = g_tb0 = in_u32();
        V_ASSUME(inv());
        g_d.stack_pointer = &g_sp;
        g_mod.dylink = &g_dl;
        g_obj.module = &g_mod;
        g_obj.instance = &g_inst;
        g_dl.mem_info.memorysize = in_u32();
        g_dl.mem_info.memoryalignment = in_u32();
        g_dl.mem_info.tablesize = in_u32();
        g_dl.mem_info.tablealignment = in_u32();
}
/* [base, base + sz) after old, aligned, within limit; the request can be met iff such a region is in 32 bits */
static bool
s_fits(uint32_t old, uint32_t palign, uint32_t sz)
{
        if (palign >= 32) {
                return false;
        }
        uint64_t m = ((uint64_t)1 << palign) - 1;
        uint64_t a = ((uint64_t)old + m) & ~m;
        return a + sz <= UINT32_MAX;
}
static void
check_mem(int ret, uint32_t palign, uint32_t sz, uint32_t base)
{
        V_CHECK(inv(), "memory and table are as large as is given out");
        V_CHECK(g_ti.size == g_tsize0 && g_d.table_base == g_tb0, "the table is unchanged");
        if (ret != 0) {
                V_CHECK(g_d.memory_base == g_mb0 && g_mi.size_in_pages == g_pages0, "nothing is disturbed");
                V_CHECK(g_failed ? ret == ENOMEM : ret == EOVERFLOW && !s_fits(g_mb0, palign, sz),
                        "it fails only if it cannot be satisfied");
        } else {
                V_CHECK(base >= g_mb0, "the region is after all given before");
                V_CHECK(palign < 32 && (base & (((uint64_t)1 << palign) - 1)) == 0, "the region is aligned");
                V_CHECK((uint64_t)base + sz == g_d.memory_base, "the region has the size, and is given out");
                V_CHECK((uint64_t)base + sz <= (uint64_t)g_mi.size_in_pages << g_mt.page_shift,
                        "the region is in the memory");
                V_CHECK(palign >= 32 || base - g_mb0 < (uint64_t)1 << palign, "nothing is wasted");
        }
}

//@job h_dyld_memory prop=P25 enforce=dyld_allocate_memory,dyld_allocate_memory_for_obj dfcc=0 unwind=3 timeout=200 about="a library's memory region is new, aligned, of the size asked, in the memory; or an error, without effect"
void
h_dyld_memory(void)
{
        setup();
        uint32_t al = g_dl.mem_info.memoryalignment, sz = g_dl.mem_info.memorysize, base = 0;
        int ret;
        if (in_bool()) {
                ret = dyld_allocate_memory_for_obj(&g_d, &g_obj);
                base = g_obj.memory_base;
        } else {
                ret = dyld_allocate_memory(&g_d, al, sz, &base);
        }
        check_mem(ret, al, sz, base);
        V_CANARY(ret == 0 && al == 10 && sz == 100000, "given");
        V_CANARY(ret == ENOMEM, "no memory");
        V_CANARY(ret == EOVERFLOW && al < 32, "overflow");
}
//@job h_dyld_table prop=P25 enforce=dyld_allocate_table,dyld_allocate_table_for_obj dfcc=0 unwind=3 timeout=200 about="a library's table region is new, aligned, of the size asked, in the table; or an error, without effect"
void
h_dyld_table(void)
{
        setup();
        uint32_t al = g_dl.mem_info.tablealignment, sz = g_dl.mem_info.tablesize, base = 0;
        int ret;
        if (in_bool()) {
                ret = dyld_allocate_table_for_obj(&g_d, &g_obj);
                base = g_obj.table_base;
        } else {
                ret = dyld_allocate_table(&g_d, al, sz, &base);
        }
        V_CHECK(inv(), "memory and table are as large as is given out");
        V_CHECK(g_d.memory_base == g_mb0 && g_mi.size_in_pages == g_pages0, "the memory is unchanged");
        if (ret != 0) {
                V_CHECK(g_d.table_base == g_tb0 && g_ti.size == g_tsize0, "nothing is disturbed");
                V_CHECK(g_failed ? ret == ENOMEM : ret == EOVERFLOW && !s_fits(g_tb0, al, sz),
                        "it fails only if it cannot be satisfied");
        } else {
                V_CHECK(base >= g_tb0, "the region is after all given before");
                V_CHECK(al < 32 && (base & (((uint64_t)1 << al) - 1)) == 0, "the region is aligned");
                V_CHECK((uint64_t)base + sz == g_d.table_base && g_d.table_base <= g_ti.size,
                        "the region has the size, and is in the table");
        }
        V_CANARY(ret == 0 && al == 3 && sz == 1000, "given");
        V_CANARY(ret == ENOMEM, "no memory");
        V_CANARY(ret == EOVERFLOW && al < 32, "overflow");
}
//@job h_dyld_stack prop=P25 enforce=dyld_allocate_stack,dyld_allocate_heap dfcc=0 unwind=3 timeout=200 about="the stack and the heap are regions of their own; the stack pointer is aligned"
void
h_dyld_stack(void)
{
        setup();
        uint32_t sz = in_u32();
        int ret = dyld_allocate_stack(&g_d, sz);
        V_CHECK(inv(), "memory and table are as large as is given out");
        if (ret == 0) {
                uint32_t lo = global_get_i32(&g_d.layout_globals[LAYOUT_GLOBAL_STACK_LOW]);
                uint32_t hi = global_get_i32(&g_d.layout_globals[LAYOUT_GLOBAL_STACK_HIGH]);
                V_CHECK(lo == g_mb0 && hi == g_d.memory_base && (uint64_t)hi >= (uint64_t)lo + sz && hi % 16 == 0,
                        "the stack");
                V_CHECK(global_get_i32(&g_sp) == hi, "the stack pointer is at the end of the stack");
                uint32_t b = g_d.memory_base;
                ret = dyld_allocate_heap(&g_d);
                V_CHECK(inv(), "memory and table are as large as is given out");
                if (ret == 0) {
                        uint32_t hb = global_get_i32(&g_d.layout_globals[LAYOUT_GLOBAL_HEAP_BASE]);
                        uint32_t he = global_get_i32(&g_d.layout_globals[LAYOUT_GLOBAL_HEAP_END]);
                        V_CHECK(hb == b && he == g_d.memory_base && he >= hb, "the heap is after the stack");
                        V_CHECK(he == (uint64_t)g_mi.size_in_pages << g_mt.page_shift, "it ends where the memory ends");
                        V_CANARY(sz == 70000 && g_mt.page_shift == 16, "given");
                }
        } else {
                V_CHECK(ret == ENOMEM || ret == EOVERFLOW, "error");
                V_CANARY(ret == EOVERFLOW, "overflow");
        }
}
//@job h_dyld_adopt prop=P25 enforce=dyld_adopt_shared_resources dfcc=0 unwind=3 timeout=200 about="regions start after the main module's memory and table"
void
h_dyld_adopt(void)
{
        setup();
        g_mt.lim.min = in_u32();
        V_ASSUME((uint64_t)g_mt.lim.min << g_mt.page_shift <= (uint64_t)1 << 32);
        g_tt.lim.min = in_u32();
        g_tt.et = in_bool() ? TYPE_funcref : TYPE_externref;
        g_mis[0] = &g_mi;
        g_tis[0] = &g_ti;
        g_inst.mems.p = g_mis;
        g_inst.mems.lsize = 1;
        g_inst.tables.p = g_tis;
        g_inst.tables.lsize = 1;
        g_d.meminst = NULL;
        g_d.tableinst = NULL;
        int ret = dyld_adopt_shared_resources(&g_d, &g_obj);
        if ((uint64_t)g_mt.lim.min << g_mt.page_shift > UINT32_MAX) {
                V_CHECK(ret != 0, "a full memory is refused");
                V_CANARY(true, "full");
        } else {
                V_CHECK(g_d.meminst == &g_mi && g_d.memory_base == (uint64_t)g_mt.lim.min << g_mt.page_shift,
                        "after the main module's memory");
                if (g_tt.et == TYPE_funcref) {
                        V_CHECK(g_d.tableinst == &g_ti && g_d.table_base == g_tt.lim.min,
                                "after the main module's table");
                } else {
                        V_CHECK(ret == EINVAL, "a table of functions is required");
                }
                V_CANARY(g_mt.lim.min == 3, "adopted");
        }
}
