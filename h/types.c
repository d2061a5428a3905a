//@family base=core
//@stub find_entry_for_import it fails with any error, or succeeds and stores an entry of the import's kind whose definition the check accepted (job h_find_entry_for_import)
//@stub escaped_string_clear it frees the escaped string (property P31)
//@stub escape_name it has no effect but on its result (property P31)
/*
 * Types, names, exports, and the matching of imports.
 */
#include "verif.h"
#include "type.h"
#include "escape.h"
struct import_object;
struct import_object_entry;
struct report;
static int vy_find_entry(const struct import_object *imports, const struct import *im,
        int (*check)(const struct import_object_entry *e, const void *arg),
        const void *checkarg, const struct import_object_entry **resultp,
        struct report *report);
static bool g_stub_find; /* which jobs use the stand-in */
#define find_entry_for_import(a, b, c, d, e, f) vy_find_entry(a, b, c, d, e, f)
#define escape_name(e, n) ((e)->escaped = "", (e)->escaped_len = 0)
#define escaped_string_clear(e) ((void)(e))
#include "u_core.h"

/* ---- limits */
static bool
limits_match(const struct limits *a, const struct limits *b, uint32_t actual)
{
        /* UINT32_MAX: no maximum */
        if (actual < b->min) {
                return false;
        }
        return b->max == UINT32_MAX || (a->max != UINT32_MAX && a->max <= b->max);
}
static bool match_limits(const struct limits *a, const struct limits *b, uint32_t actual_a_min)
        V_REQ(a->min <= actual_a_min) V_ASG()
        V_ENS(V_RET == limits_match(a, b, actual_a_min));
static struct limits g_la, g_lb;
static void
setup_limits(void)
{
        g_la.min = in_u32();
        g_la.max = in_u32();
        g_lb.min = in_u32();
        g_lb.max = in_u32();
}
//@job h_match_limits prop=P18 enforce=match_limits
void
h_match_limits(void)
{
        setup_limits();
        uint32_t actual = in_u32();
        V_ASSUME(g_la.min <= actual);
        bool ret = match_limits(&g_la, &g_lb, actual);
        V_CHECK(ret == limits_match(&g_la, &g_lb, actual), "match_limits");
        V_CANARY(ret && g_lb.max == 5, "match");
        V_CANARY(!ret && g_lb.min == 5, "no match");
}
static struct tableinst g_ti;
static struct tabletype g_tt, g_tt2;
static struct import_object_entry g_e;
static int check_tabletype(const struct import_object_entry *e, const void *vp)
        V_REQ(e->type == EXTERNTYPE_TABLE) V_ASG()
        V_ENS(V_RET == (g_tt.et == g_tt2.et && limits_match(&g_tt.lim, &g_tt2.lim, g_ti.size) ? 0 : EINVAL));
//@job h_check_tabletype prop=P18 enforce=check_tabletype
void
h_check_tabletype(void)
{
        setup_limits();
        g_tt.lim = g_la;
        g_tt2.lim = g_lb;
        g_tt.et = (enum valtype)in_u32();
        g_tt2.et = (enum valtype)in_u32();
        g_ti.type = &g_tt;
        g_ti.size = in_u32();
        V_ASSUME(g_ti.size >= g_tt.lim.min);
        g_e.type = EXTERNTYPE_TABLE;
        g_e.u.table = &g_ti;
        int ret = check_tabletype(&g_e, &g_tt2);
        V_CHECK(ret == (g_tt.et == g_tt2.et && limits_match(&g_tt.lim, &g_tt2.lim, g_ti.size) ? 0 : EINVAL), "check_tabletype");
        V_CANARY(ret == 0 && g_ti.size > g_tt.lim.min && g_tt2.lim.min > g_tt.lim.min, "match");
        V_CANARY(ret == EINVAL, "no match");
}
static struct meminst g_mi;
static struct memtype g_mt, g_mt2;
static bool
memtype_match(void)
{
        return g_mt.flags == g_mt2.flags && g_mt.page_shift == g_mt2.page_shift &&
               limits_match(&g_mt.lim, &g_mt2.lim, g_mi.size_in_pages);
}
static int check_memtype(const struct import_object_entry *e, const void *vp)
        V_REQ(e->type == EXTERNTYPE_MEMORY) V_ASG()
        V_ENS(V_RET == (memtype_match() ? 0 : EINVAL));
//@job h_check_memtype prop=P18 enforce=check_memtype
void
h_check_memtype(void)
{
        setup_limits();
        g_mt.lim = g_la;
        g_mt2.lim = g_lb;
        g_mt.flags = in_u8();
        g_mt2.flags = in_u8();
        g_mt.page_shift = in_u8();
        g_mt2.page_shift = in_u8();
        g_mi.type = &g_mt;
        g_mi.size_in_pages = in_u32();
        V_ASSUME(g_mi.size_in_pages >= g_mt.lim.min);
        g_e.type = EXTERNTYPE_MEMORY;
        g_e.u.mem = &g_mi;
        int ret = check_memtype(&g_e, &g_mt2);
        V_CHECK(ret == (memtype_match() ? 0 : EINVAL), "check_memtype");
        V_CANARY(ret == 0 && g_mi.size_in_pages > g_mt.lim.min && g_mt2.lim.min > g_mt.lim.min, "match");
        V_CANARY(ret == EINVAL, "no match");
}
static struct globalinst g_gi;
static struct globaltype g_gt, g_gt2;
static struct globalinst *
vy_gi(void)
{
        struct globalinst *p = malloc(sizeof(*p));
        V_ASSUME(p != NULL);
        p->type = &g_gt;
        return p;
}
//@job h_check_globaltype prop=P18 enforce=check_globaltype dfcc=0 flags="--no-simplify"
void
h_check_globaltype(void)
{
        g_gt.t = (enum valtype)in_u32();
        g_gt2.t = (enum valtype)in_u32();
        g_gt.mut = (enum globalmut)in_u32();
        g_gt2.mut = (enum globalmut)in_u32();
        g_gi.type = &g_gt;
        g_e.type = EXTERNTYPE_GLOBAL;
        g_e.u.global = vy_gi();
        int ret = check_globaltype(&g_e, &g_gt2);
        V_CHECK(ret == (g_gt.t == g_gt2.t && g_gt.mut == g_gt2.mut ? 0 : EINVAL), "check_globaltype");
        V_CANARY(ret == 0, "match");
        V_CANARY(ret == EINVAL, "no match");
}

/* ---- function types */
#define NT 3
static enum valtype g_types[4][NT];
static struct functype g_fta, g_ftb;
static void
setup_rt(struct resulttype *rt, unsigned int k)
{
        rt->ntypes = in_u32();
        V_ASSUME(rt->ntypes <= NT);
        unsigned int i;
        for (i = 0; i < NT; i++) {
                g_types[k][i] = (enum valtype)in_u8();
        }
        rt->types = g_types[k];
}
static void
setup_ft(void)
{
        setup_rt(&g_fta.parameter, 0);
        setup_rt(&g_fta.result, 1);
        setup_rt(&g_ftb.parameter, 2);
        setup_rt(&g_ftb.result, 3);
}
static bool
rt_equal(const struct resulttype *a, const struct resulttype *b)
{
        unsigned int i;
        for (i = 0; i < NT; i++) {
                if (i < a->ntypes && a->types[i] != b->types[i]) {
                        return false;
                }
        }
        return a->ntypes == b->ntypes;
}
static bool
ft_equal(void)
{
        return rt_equal(&g_fta.parameter, &g_ftb.parameter) && rt_equal(&g_fta.result, &g_ftb.result);
}
int compare_functype(const struct functype *a, const struct functype *b)
        V_REQ(a == &g_fta && b == &g_ftb) V_ASG()
        V_ENS((V_RET == 0) == ft_equal());
//@job h_compare_functype prop=P06,P18 enforce=compare_functype unwind=5 bounded="at most 3 parameters and 3 results"
void
h_compare_functype(void)
{
        setup_ft();
        int ret = compare_functype(&g_fta, &g_ftb);
        V_CHECK((ret == 0) == ft_equal(), "compare_functype");
        V_CANARY(ret == 0 && g_fta.parameter.ntypes == 3 && g_fta.result.ntypes == 3, "equal");
        V_CANARY(ret != 0 && g_fta.result.ntypes != g_ftb.result.ntypes, "unequal");
}
static struct funcinst g_fi;
static struct taginst g_tag;
static struct instance g_inst;
static struct module g_m;
static uint32_t g_tidx[1];
//@job h_check_functype_host prop=P18 enforce=check_functype dfcc=0 unwind=5 bounded="at most 3 parameters and 3 results"
void
h_check_functype_host(void)
{
        setup_ft();
        g_fi.is_host = true;
        g_fi.u.host.type = &g_fta;
        g_e.type = EXTERNTYPE_FUNC;
        g_e.u.func = &g_fi;
        int ret = check_functype(&g_e, &g_ftb);
        V_CHECK(ret == (ft_equal() ? 0 : EINVAL), "check_functype");
        V_CANARY(ret == 0, "match");
        V_CANARY(ret == EINVAL, "no match");
}
//@job h_check_functype_wasm prop=P18,P06,P19 enforce=check_functype,funcinst_functype,module_functype dfcc=0 unwind=5 bounded="at most 3 parameters and 3 results"
void
h_check_functype_wasm(void)
{
        setup_ft();
        g_fi.is_host = false;
        g_fi.u.wasm.instance = &g_inst;
        g_fi.u.wasm.funcidx = in_u32();
        g_inst.module = &g_m;
        g_m.nimportedfuncs = in_u32();
        V_ASSUME(g_fi.u.wasm.funcidx >= g_m.nimportedfuncs);
        g_tidx[0] = in_u32();
        g_m.ntypes = in_u32();
        V_ASSUME(g_tidx[0] < g_m.ntypes);
        g_m.functypeidxes = g_tidx - (size_t)(g_fi.u.wasm.funcidx - g_m.nimportedfuncs);
        g_m.types = &g_fta - (size_t)g_tidx[0];
        g_e.type = EXTERNTYPE_FUNC;
        g_e.u.func = &g_fi;
        const struct functype *ft = funcinst_functype(&g_fi);
        V_CHECK(ft == &g_fta, "funcinst_functype");
        int ret = check_functype(&g_e, &g_ftb);
        V_CHECK(ret == (ft_equal() ? 0 : EINVAL), "check_functype");
        V_CANARY(ret == 0, "match");
        V_CANARY(ret == EINVAL, "no match");
}
//@job h_check_tagtype prop=P18,P13 enforce=check_tagtype dfcc=0 unwind=5 bounded="at most 3 parameters and 3 results"
void
h_check_tagtype(void)
{
        setup_ft();
        g_tag.type = &g_fta;
        g_e.type = EXTERNTYPE_TAG;
        g_e.u.tag = &g_tag;
        int ret = check_tagtype(&g_e, &g_ftb);
        V_CHECK(ret == (ft_equal() ? 0 : EINVAL), "check_tagtype");
        V_CANARY(ret == 0, "match");
        V_CANARY(ret == EINVAL, "no match");
}

/* ---- index spaces */
#define NIM 4
static struct import g_im[NIM];
static struct memtype g_mts[1];
static struct tabletype g_tts[1];
static struct global g_gs[1];
static struct tagtype g_tags[1];
static struct functype g_fts[1];
static uint32_t g_idx;
static const struct import *g_want; /* the import expected, NULL: none */
static void
setup_imports(enum externtype type, uint32_t *nimported)
{
        g_m.nimports = in_u32();
        V_ASSUME(g_m.nimports <= NIM);
        g_m.imports = g_im;
        g_idx = in_u32();
        uint32_t i, n = 0;
        g_want = NULL;
        for (i = 0; i < NIM; i++) {
                g_im[i].desc.type = (enum externtype)in_u8();
                V_ASSUME(g_im[i].desc.type <= EXTERNTYPE_TAG);
                g_im[i].desc.u.typeidx = in_u32();
                if (i < g_m.nimports && g_im[i].desc.type == type) {
                        if (n == g_idx) {
                                g_want = &g_im[i];
                        }
                        n++;
                }
        }
        *nimported = n;
}
//@job h_module_memtype prop=P19,P18 enforce=module_memtype,module_import,module_importdesc dfcc=0 unwind=6 bounded="at most 4 imports; any number of definitions"
void
h_module_memtype(void)
{
        setup_imports(EXTERNTYPE_MEMORY, &g_m.nimportedmems);
        g_m.mems = g_mts - (size_t)(g_idx - g_m.nimportedmems);
        const struct memtype *t = module_memtype(&g_m, g_idx);
        V_CHECK(t == (g_want != NULL ? &g_want->desc.u.memtype : g_mts), "module_memtype");
        V_CANARY(g_want == &g_im[3], "imported");
        V_CANARY(g_want == NULL && g_idx == 70000, "defined");
}
//@job h_module_tabletype prop=P19,P18,P05 enforce=module_tabletype,module_import,module_importdesc dfcc=0 unwind=6 bounded="at most 4 imports; any number of definitions"
void
h_module_tabletype(void)
{
        setup_imports(EXTERNTYPE_TABLE, &g_m.nimportedtables);
        g_m.tables = g_tts - (size_t)(g_idx - g_m.nimportedtables);
        const struct tabletype *t = module_tabletype(&g_m, g_idx);
        V_CHECK(t == (g_want != NULL ? &g_want->desc.u.tabletype : g_tts), "module_tabletype");
        V_CANARY(g_want == &g_im[3], "imported");
        V_CANARY(g_want == NULL && g_idx == 70000, "defined");
}
//@job h_module_globaltype prop=P19,P18 enforce=module_globaltype,module_import,module_importdesc dfcc=0 unwind=6 bounded="at most 4 imports; any number of definitions"
void
h_module_globaltype(void)
{
        setup_imports(EXTERNTYPE_GLOBAL, &g_m.nimportedglobals);
        g_m.globals = g_gs - (size_t)(g_idx - g_m.nimportedglobals);
        const struct globaltype *t = module_globaltype(&g_m, g_idx);
        V_CHECK(t == (g_want != NULL ? &g_want->desc.u.globaltype : &g_gs[0].type), "module_globaltype");
        V_CANARY(g_want == &g_im[3], "imported");
        V_CANARY(g_want == NULL && g_idx == 70000, "defined");
}
//@job h_module_tagtype prop=P19,P13 enforce=module_tagtype,module_import,module_importdesc dfcc=0 unwind=6 bounded="at most 4 imports; any number of definitions"
void
h_module_tagtype(void)
{
        setup_imports(EXTERNTYPE_TAG, &g_m.nimportedtags);
        g_m.tags = g_tags - (size_t)(g_idx - g_m.nimportedtags);
        const struct tagtype *t = module_tagtype(&g_m, g_idx);
        V_CHECK(t == (g_want != NULL ? &g_want->desc.u.tagtype : g_tags), "module_tagtype");
        V_CANARY(g_want == &g_im[3], "imported");
        V_CANARY(g_want == NULL && g_idx == 70000, "defined");
}
//@job h_module_functype prop=P19,P18,P06 enforce=module_functype,module_import,module_importdesc dfcc=0 unwind=6 bounded="at most 4 imports; any number of definitions"
void
h_module_functype(void)
{
        setup_imports(EXTERNTYPE_FUNC, &g_m.nimportedfuncs);
        g_tidx[0] = in_u32();
        g_m.functypeidxes = g_tidx - (size_t)(g_idx - g_m.nimportedfuncs);
        uint32_t ti = g_want != NULL ? g_want->desc.u.typeidx : g_tidx[0];
        g_m.ntypes = in_u32();
        V_ASSUME(ti < g_m.ntypes);
        g_m.types = g_fts - (size_t)ti;
        const struct functype *t = module_functype(&g_m, g_idx);
        V_CHECK(t == g_fts, "module_functype");
        V_CANARY(g_want == &g_im[3] && ti == 70000, "imported");
        V_CANARY(g_want == NULL && g_idx == 70000 && ti == 90000, "defined");
}

/* ---- names */
#define NB 3
struct nm {
        struct name n;
        char d[NB];
};
static struct nm g_na, g_nb;
static void
setup_name(struct nm *n)
{
        n->n.nbytes = in_u32();
        V_ASSUME(n->n.nbytes <= NB);
        unsigned int i;
        for (i = 0; i < NB; i++) {
                n->d[i] = (char)in_u8();
        }
        n->n.data = n->d;
}
static bool
name_eq(const struct nm *a, const struct nm *b)
{
        unsigned int i;
        for (i = 0; i < NB; i++) {
                if (i < a->n.nbytes && a->d[i] != b->d[i]) {
                        return false;
                }
        }
        return a->n.nbytes == b->n.nbytes;
}
//@job h_compare_name prop=P19,P18 enforce=compare_name dfcc=0 unwind=5 bounded="names of at most 3 bytes"
void
h_compare_name(void)
{
        struct nm c;
        setup_name(&g_na);
        setup_name(&g_nb);
        setup_name(&c);
        int ab = compare_name(&g_na.n, &g_nb.n);
        int ba = compare_name(&g_nb.n, &g_na.n);
        int bc = compare_name(&g_nb.n, &c.n);
        int ac = compare_name(&g_na.n, &c.n);
        V_CHECK((ab == 0) == name_eq(&g_na, &g_nb), "compare_name equality");
        V_CHECK((ab < 0) == (ba > 0), "compare_name antisymmetry");
        V_CHECK(!(ab < 0 && bc < 0) || ac < 0, "compare_name transitivity");
        V_CANARY(ab == 0 && g_na.n.nbytes == NB && g_na.d[1] == 0, "equal");
        V_CANARY(ab < 0 && bc < 0, "ordered");
}
#define NEX 3
static struct wasm_export g_ex[NEX];
static struct nm g_exn[NEX];
//@job h_module_find_export prop=P19 enforce=module_find_export dfcc=0 unwind=5 solver=cadical bounded="at most 3 exports with names of at most 3 bytes"
void
h_module_find_export(void)
{
        unsigned int i;
        g_m.nexports = in_u32();
        V_ASSUME(g_m.nexports <= NEX);
        g_m.exports = g_ex;
        for (i = 0; i < NEX; i++) {
                setup_name(&g_exn[i]);
                g_ex[i].name = g_exn[i].n;
                g_ex[i].desc.type = (enum externtype)in_u8();
                g_ex[i].desc.idx = in_u32();
                /* unique and sorted, as established when the module is loaded */
                if (i > 0 && i < g_m.nexports) {
                        V_ASSUME(compare_name(&g_ex[i - 1].name, &g_ex[i].name) < 0);
                }
        }
        setup_name(&g_na);
        uint32_t type = in_u8();
        uint32_t idx0 = in_u32();
        uint32_t idx = idx0;
        int ret = module_find_export(&g_m, &g_na.n, type, &idx);
        bool found = false;
        for (i = 0; i < NEX; i++) {
                if (i < g_m.nexports && name_eq(&g_exn[i], &g_na) && (uint32_t)g_ex[i].desc.type == type) {
                        V_CHECK(ret == 0 && idx == g_ex[i].desc.idx, "module_find_export finds it");
                        found = true;
                }
        }
        V_CHECK(found || ret == ENOENT, "module_find_export finds nothing");
        V_CANARY(ret == 0 && g_m.nexports == 3 && idx == g_ex[2].desc.idx && idx != g_ex[1].desc.idx, "last");
        V_CANARY(ret == 0 && g_m.nexports == 3 && idx == g_ex[0].desc.idx && idx != g_ex[1].desc.idx, "first");
        V_CANARY(ret != 0 && g_m.nexports == 3, "none");
}

/* ---- import objects */
#define NE 3
static struct import_object g_io, g_io2;
static struct import_object_entry g_es[NE], g_es2[1];
static struct nm g_mn[NE], g_fn[NE], g_mn2, g_fn2, g_imn, g_ifn;
static bool g_good[NE], g_good2;
static struct import g_imp;
static int g_arg;
static bool g_badarg;
static int
vy_check(const struct import_object_entry *e, const void *arg)
{
        unsigned int i;
        if (arg != &g_arg) {
                g_badarg = true;
        }
        for (i = 0; i < NE; i++) {
                if (e == &g_es[i]) {
                        return g_good[i] ? 0 : EINVAL;
                }
        }
        return g_good2 ? 0 : EINVAL;
}
static struct report g_report;
static void
setup_io(bool sorted)
{
        unsigned int i;
        g_badarg = false;
        setup_name(&g_imn);
        setup_name(&g_ifn);
        g_imp.module_name = g_imn.n;
        g_imp.name = g_ifn.n;
        g_imp.desc.type = (enum externtype)in_u8();
        g_io.use_binary_search = sorted;
        g_io.nentries = in_u32();
        V_ASSUME(g_io.nentries <= NE);
        g_io.entries = g_es;
        g_io.next = NULL;
        for (i = 0; i < NE; i++) {
                setup_name(&g_mn[i]);
                setup_name(&g_fn[i]);
                g_es[i].module_name = &g_mn[i].n;
                g_es[i].name = &g_fn[i].n;
                g_es[i].type = (enum externtype)in_u8();
                g_good[i] = in_bool();
                if (sorted && i > 0 && i < g_io.nentries) {
                        V_ASSUME(compare_name(&g_mn[0].n, &g_mn[i].n) == 0);
                        V_ASSUME(compare_name(&g_fn[i - 1].n, &g_fn[i].n) < 0);
                }
        }
}
static bool
named(unsigned int i)
{
        return i < g_io.nentries && name_eq(&g_mn[i], &g_imn) && name_eq(&g_fn[i], &g_ifn);
}
static void
check_found(int ret, const struct import_object_entry *e)
{
        unsigned int i;
        bool any = false;
        bool good = false;
        for (i = 0; i < NE; i++) {
                if (named(i)) {
                        any = true;
                        good = good || (g_es[i].type == g_imp.desc.type && g_good[i]);
                }
                if (ret == 0 && e == &g_es[i]) {
                        V_CHECK(named(i) && g_es[i].type == g_imp.desc.type && g_good[i], "the entry found matches");
                }
        }
        V_CHECK(ret != 0 || e == &g_es[0] || e == &g_es[1] || e == &g_es[2], "an entry is found");
        V_CHECK(any || ret == ENOENT, "no entry of that name");
        V_CHECK(good || ret != 0, "no matching entry");
        V_CHECK(!(any && !good) || ret == EINVAL, "mismatch");
        V_CHECK(!g_badarg, "the check gets its argument");
}
//@job h_find_entry_linear prop=P18 enforce=import_object_find_entry dfcc=0 unwind=5 solver=cadical bounded="at most 3 entries with names of at most 3 bytes"
void
h_find_entry_linear(void)
{
        const struct import_object_entry *e = NULL;
        setup_io(false);
        int ret = import_object_find_entry(&g_io, &g_imp, vy_check, &g_arg, &e, &g_report);
        check_found(ret, e);
        V_CHECK(ret != 0 || !(named(0) && g_es[0].type == g_imp.desc.type && g_good[0]) || e == &g_es[0], "the first is used");
        V_CANARY(ret == 0 && e == &g_es[2], "found");
        V_CANARY(ret == EINVAL, "mismatch");
        V_CANARY(ret == ENOENT && g_io.nentries == 3, "none");
}
//@job h_find_entry_sorted prop=P18,P19 enforce=import_object_find_entry dfcc=0 unwind=5 solver=cadical bounded="at most 3 entries with names of at most 3 bytes"
void
h_find_entry_sorted(void)
{
        const struct import_object_entry *e = NULL;
        setup_io(true);
        int ret = import_object_find_entry(&g_io, &g_imp, vy_check, &g_arg, &e, &g_report);
        check_found(ret, e);
        V_CHECK(ret == 0 || ret == ENOENT || ret == EINVAL, "result");
        V_CHECK(ret == 0 || !(named(0) && g_es[0].type == g_imp.desc.type && g_good[0]), "first found");
        V_CHECK(ret == 0 || !(named(1) && g_es[1].type == g_imp.desc.type && g_good[1]), "second found");
        V_CHECK(ret == 0 || !(named(2) && g_es[2].type == g_imp.desc.type && g_good[2]), "third found");
        V_CANARY(ret == 0 && e == &g_es[2], "found");
        V_CANARY(ret == EINVAL, "mismatch");
        V_CANARY(ret == ENOENT && g_io.nentries == 3, "none");
}
//@job h_find_entry_for_import prop=P18 enforce=find_entry_for_import dfcc=0 unwind=5 solver=cadical bounded="two import objects with at most 3 and 1 entries, names of at most 3 bytes"
void
h_find_entry_for_import(void)
{
        const struct import_object_entry *e = NULL;
        setup_io(false);
        g_io.next = &g_io2;
        g_io2.use_binary_search = false;
        g_io2.nentries = 1;
        g_io2.entries = g_es2;
        g_io2.next = NULL;
        setup_name(&g_mn2);
        setup_name(&g_fn2);
        g_es2[0].module_name = &g_mn2.n;
        g_es2[0].name = &g_fn2.n;
        g_es2[0].type = (enum externtype)in_u8();
        g_good2 = in_bool();
        int ret = (find_entry_for_import)(&g_io, &g_imp, vy_check, &g_arg, &e, &g_report);
        bool ok2 = name_eq(&g_mn2, &g_imn) && name_eq(&g_fn2, &g_ifn) && g_es2[0].type == g_imp.desc.type && g_good2;
        bool ok1 = false;
        unsigned int i;
        for (i = 0; i < NE; i++) {
                bool ok = named(i) && g_es[i].type == g_imp.desc.type && g_good[i];
                V_CHECK(!(ret == 0 && e == &g_es[i]) || ok, "matching entry");
                /* an entry of a different kind hides later ones of that object */
                if (named(i) && g_es[i].type != g_imp.desc.type) {
                        break;
                }
                ok1 = ok1 || ok;
        }
        V_CHECK(!(ret == 0 && e == &g_es2[0]) || (ok2 && !ok1), "matching entry of the second object");
        V_CHECK((ret == 0) == (ok1 || ok2), "found if there is one");
        V_CHECK(ret == 0 || ret == ENOENT, "error");
        V_CANARY(ret == 0 && e == &g_es2[0] && named(2), "second");
        V_CANARY(ret == 0 && e == &g_es[2], "first");
        V_CANARY(ret != 0, "none");
}

/* ---- resolve_imports */
#define NRI 2
static int g_fret[NRI];
static struct import_object_entry g_re[NRI];
static struct funcinst g_rf[NRI];
static struct tableinst g_rt[NRI];
static struct meminst g_rm[NRI];
static struct globalinst g_rg[NRI];
static struct taginst g_rtag[NRI];
static unsigned int g_calls;
static struct funcinst *g_vf[NRI];
static struct tableinst *g_vt[NRI];
static struct meminst *g_vm[NRI];
static struct globalinst *g_vg[NRI];
static struct taginst *g_vtag[NRI];
static struct functype g_rft[4];
static int
vy_find_entry(const struct import_object *imports, const struct import *im,
        int (*check)(const struct import_object_entry *e, const void *arg),
        const void *checkarg, const struct import_object_entry **resultp,
        struct report *report)
{
        unsigned int i = im == &g_im[1];
        V_CHECK(im == &g_im[i] && imports == &g_io && report == &g_report, "imports are looked up");
        g_calls++;
        switch (im->desc.type) {
        case EXTERNTYPE_FUNC:
                V_CHECK(check == check_functype && checkarg == &g_rft[im->desc.u.typeidx], "function import check");
                break;
        case EXTERNTYPE_TABLE:
                V_CHECK(check == check_tabletype && checkarg == &im->desc.u.tabletype, "table import check");
                break;
        case EXTERNTYPE_MEMORY:
                V_CHECK(check == check_memtype && checkarg == &im->desc.u.memtype, "memory import check");
                break;
        case EXTERNTYPE_GLOBAL:
                V_CHECK(check == check_globaltype && checkarg == &im->desc.u.globaltype, "global import check");
                break;
        default:
                V_CHECK(check == check_tagtype && checkarg == &g_rft[im->desc.u.tagtype.typeidx], "tag import check");
                break;
        }
        if (g_fret[i] == 0) {
                *resultp = &g_re[i];
        }
        return g_fret[i];
}
//@job h_resolve_imports prop=P18 enforce=resolve_imports dfcc=0 unwind=5 bounded="at most 2 imports"
void
h_resolve_imports(void)
{
        uint32_t i;
        g_m.nimports = in_u32();
        V_ASSUME(g_m.nimports <= NRI);
        g_m.imports = g_im;
        g_m.types = g_rft;
        g_m.ntypes = 4;
        g_inst.module = &g_m;
        g_inst.funcs.p = g_vf;
        g_inst.tables.p = g_vt;
        g_inst.mems.p = g_vm;
        g_inst.globals.p = g_vg;
        g_inst.tags.p = g_vtag;
        uint32_t n[5] = {0, 0, 0, 0, 0};
        uint32_t pos[NRI];
        g_calls = 0;
        for (i = 0; i < NRI; i++) {
                enum externtype t = (enum externtype)in_u8();
                V_ASSUME(t <= EXTERNTYPE_TAG);
                g_im[i].desc.type = t;
                g_im[i].desc.u.typeidx = in_u32();
                V_ASSUME(g_im[i].desc.u.typeidx < 4);
                if (t == EXTERNTYPE_TAG) {
                        g_im[i].desc.u.tagtype.typeidx = in_u32();
                        V_ASSUME(g_im[i].desc.u.tagtype.typeidx < 4);
                }
                g_re[i].type = t;
                switch (t) {
                case EXTERNTYPE_FUNC: g_re[i].u.func = &g_rf[i]; break;
                case EXTERNTYPE_TABLE: g_re[i].u.table = &g_rt[i]; break;
                case EXTERNTYPE_MEMORY: g_re[i].u.mem = &g_rm[i]; break;
                case EXTERNTYPE_GLOBAL: g_re[i].u.global = &g_rg[i]; break;
                default: g_re[i].u.tag = &g_rtag[i]; break;
                }
                g_fret[i] = (int)in_u32();
                pos[i] = n[t];
                if (i < g_m.nimports) {
                        n[t]++;
                }
        }
        g_m.nimportedfuncs = n[EXTERNTYPE_FUNC];
        g_m.nimportedtables = n[EXTERNTYPE_TABLE];
        g_m.nimportedmems = n[EXTERNTYPE_MEMORY];
        g_m.nimportedglobals = n[EXTERNTYPE_GLOBAL];
        g_m.nimportedtags = n[EXTERNTYPE_TAG];
        int ret = resolve_imports(&g_inst, &g_io, &g_report);
        if (g_m.nimports > 0 && g_fret[0] != 0) {
                V_CHECK(ret == g_fret[0], "first failure");
        } else if (g_m.nimports > 1 && g_fret[1] != 0) {
                V_CHECK(ret == g_fret[1], "second failure");
        } else {
                V_CHECK(ret == 0 && g_calls == g_m.nimports, "success");
                for (i = 0; i < g_m.nimports; i++) {
                        switch (g_im[i].desc.type) {
                        case EXTERNTYPE_FUNC: V_CHECK(g_vf[pos[i]] == &g_rf[i], "function bound"); break;
                        case EXTERNTYPE_TABLE: V_CHECK(g_vt[pos[i]] == &g_rt[i], "table bound"); break;
                        case EXTERNTYPE_MEMORY: V_CHECK(g_vm[pos[i]] == &g_rm[i], "memory bound"); break;
                        case EXTERNTYPE_GLOBAL: V_CHECK(g_vg[pos[i]] == &g_rg[i], "global bound"); break;
                        default: V_CHECK(g_vtag[pos[i]] == &g_rtag[i], "tag bound"); break;
                        }
                }
        }
        V_CANARY(ret == 0 && g_m.nimports == 2 && pos[1] == 1, "two of a kind");
        V_CANARY(ret == 0 && g_m.nimports == 2 && pos[1] == 0, "two kinds");
        V_CANARY(ret == 12, "failure");
}
//@job h_import_object_create_for_exports prop=P18,P19 enforce=import_object_create_for_exports dfcc=0 unwind=5 bounded="at most 2 exports"
void
h_import_object_create_for_exports(void)
{
        static struct mem_context mctx;
        mctx.parent = NULL;
        mctx.allocated = mctx.peak = 0;
        mctx.limit = SIZE_MAX;
        uint32_t i;
        g_m.nexports = in_u32();
        V_ASSUME(g_m.nexports <= NRI);
        g_m.exports = g_ex;
        g_inst.module = &g_m;
        g_inst.funcs.p = g_vf;
        g_inst.tables.p = g_vt;
        g_inst.mems.p = g_vm;
        g_inst.globals.p = g_vg;
        g_inst.tags.p = g_vtag;
        for (i = 0; i < NRI; i++) {
                g_vf[i] = &g_rf[i];
                g_vt[i] = &g_rt[i];
                g_vm[i] = &g_rm[i];
                g_vg[i] = &g_rg[i];
                g_vtag[i] = &g_rtag[i];
                g_ex[i].desc.type = (enum externtype)in_u8();
                V_ASSUME(g_ex[i].desc.type <= EXTERNTYPE_TAG);
                g_ex[i].desc.idx = in_u32();
                V_ASSUME(g_ex[i].desc.idx < NRI);
        }
        struct import_object *io = NULL;
        int ret = import_object_create_for_exports(&mctx, &g_inst, &g_na.n, &io);
        V_CHECK(ret == 0 || ret == ENOMEM, "result");
        if (ret == 0) {
                V_CHECK(io->nentries == g_m.nexports && io->next == NULL, "one entry per export");
                for (i = 0; i < g_m.nexports; i++) {
                        const struct import_object_entry *e = &io->entries[i];
                        uint32_t k = g_ex[i].desc.idx;
                        V_CHECK(e->type == g_ex[i].desc.type && e->name == &g_ex[i].name && e->module_name == &g_na.n, "entry");
                        switch (e->type) {
                        case EXTERNTYPE_FUNC: V_CHECK(e->u.func == &g_rf[k], "function"); break;
                        case EXTERNTYPE_TABLE: V_CHECK(e->u.table == &g_rt[k], "table"); break;
                        case EXTERNTYPE_MEMORY: V_CHECK(e->u.mem == &g_rm[k], "memory"); break;
                        case EXTERNTYPE_GLOBAL: V_CHECK(e->u.global == &g_rg[k], "global"); break;
                        default: V_CHECK(e->u.tag == &g_rtag[k], "tag"); break;
                        }
                }
        }
        V_CANARY(ret == 0 && g_m.nexports == 2, "success");
        V_CANARY(ret == ENOMEM, "failure");
}
