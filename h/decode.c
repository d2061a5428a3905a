//@family base=core
//@stub read_const_expr it fails with any error, or advances within the input and sets up the expression (checked structurally by P14/P15)
//@stub read_expr it fails with any error, or advances within the input and sets up the expression
//@stub read_locals (only in h_read_func) it fails with any error or advances within the input; job h_read_locals
//@stub read_section (only in h_module_load_into) it fails with any error or consumes the section; job h_read_section
//@stub *read_leb_u32 it fails, or reads one to five bytes within the input; the result is a function of the position (P16)
//@trusted qsort sorts (C library contract)
/*
 * Decoders of module structure.  The input ends where g_buf ends, so that
 * every read past the end is outside of the object.  The largest encodings
 * of the structures without a vector fit in the buffer.
 */
#include "verif.h"
#include "type.h"
#include "load_context.h"
#include "cell.h"
struct func;
static int vd_const_expr(const uint8_t **pp, const uint8_t *ep, struct expr *expr, enum valtype type, struct load_context *lctx);
static int vd_expr(const uint8_t **pp, const uint8_t *ep, struct expr *expr, uint32_t nlocals,
        const struct localchunk *chunks, struct resulttype *pt, struct resulttype *rt, struct load_context *lctx);
static int vd_locals(const uint8_t **pp, const uint8_t *ep, struct func *func, const struct load_context *ctx);
static int vd_section(const uint8_t **pp, const uint8_t *ep,
             int (*read_fn)(const uint8_t **pp, const uint8_t *ep, struct load_context *ctx),
             struct load_context *ctx);
#define read_const_expr(a, b, c, d, e) vd_const_expr(a, b, c, d, e)
#define read_expr(a, b, c, d, e, f, g, h) vd_expr(a, b, c, d, e, f, g, h)
#define read_locals(a, b, c, d) vd_locals(a, b, c, d)
#define read_section(a, b, n, f, c) vd_section(a, b, f, c)
static void vd_qsort(void *base, size_t n, size_t sz, int (*cmp)(const void *, const void *));
#define qsort(a, b, c, d) vd_qsort(a, b, c, d)
#define V_N_read_leb_u32 vd_real_read_leb_u32
static int read_leb_u32(const uint8_t **pp, const uint8_t *ep, uint32_t *resultp);
#include "u_core.h"
#undef qsort

#define N 17
static uint8_t g_buf[N];
/*
 * the LEB128 number at each position: its value and length.
 * (a length out of the range is one which can not be decoded.)
 */
static uint32_t g_lv[N];
static uint8_t g_ll[N];
static const uint8_t *g_p, *g_ep, *g_p0, *g_x_ep;
static unsigned int g_pos; /* of the reference decoder */
static struct load_context g_lctx;
static struct mem_context g_mctx;
static struct module g_m;

static void
setup_len(uint32_t len)
{
        unsigned int i;
        for (i = 0; i < N; i++) {
                g_buf[i] = in_u8();
                g_lv[i] = in_u32();
                g_ll[i] = in_u8();
        }
        g_pos = N - len;
        g_p = g_p0 = g_buf + g_pos;
        g_ep = g_buf + N;
        g_mctx.parent = NULL;
        g_mctx.allocated = g_mctx.peak = 0;
        g_mctx.limit = SIZE_MAX;
        g_lctx.module = &g_m;
        g_lctx.mctx = &g_mctx;
        g_lctx.options.generate_resulttype_cellidx = true;
        g_lctx.options.generate_localtype_cellidx = true;
}
static void
setup_buf(unsigned int max)
{
        uint32_t len = in_u32();
        V_ASSUME(len <= max);
        setup_len(len);
}
static bool
s_u8(uint8_t *v)
{
        if (g_pos >= N) {
                return false;
        }
        *v = g_buf[g_pos++];
        return true;
}
static bool
s_leb(uint32_t *v)
{
        if (g_pos >= N || g_ll[g_pos] < 1 || g_ll[g_pos] > 5 || g_ll[g_pos] > N - g_pos) {
                return false;
        }
        *v = g_lv[g_pos];
        g_pos += g_ll[g_pos];
        return true;
}
static int
read_leb_u32(const uint8_t **pp, const uint8_t *ep, uint32_t *resultp)
{
        V_CHECK(ep == g_ep || ep == g_x_ep, "end of the input");
        V_CHECK(*pp >= g_p0 && *pp <= ep, "position of a number");
        unsigned int pos = (unsigned int)(*pp - g_buf);
        if (*pp >= ep || g_ll[pos] < 1 || g_ll[pos] > 5 || g_ll[pos] > (unsigned int)(ep - *pp)) {
                return EINVAL;
        }
        *resultp = g_lv[pos];
        *pp += g_ll[pos];
        return 0;
}
static bool s_reftype(uint8_t b) { return b == 0x70 || b == 0x6f || b == 0x69; }
static bool s_valtype(uint8_t b) { return b == 0x7f || b == 0x7e || b == 0x7d || b == 0x7c || b == 0x7b || s_reftype(b); }
/* the position is advanced on success only */
static bool moved(int ret) { return g_p == (ret == 0 ? g_buf + g_pos : g_p0); }

//@job h_read_valtype prop=P17 enforce=read_valtype,is_valtype dfcc=0
void
h_read_valtype(void)
{
        setup_buf(2);
        enum valtype vt;
        int ret = read_valtype(&g_p, g_ep, &vt);
        uint8_t b;
        bool ok = s_u8(&b) && s_valtype(b);
        V_CHECK((ret == 0) == ok && moved(ret), "read_valtype");
        V_CHECK(ret != 0 || (uint32_t)vt == b, "value type");
        V_CANARY(ret == 0 && b == 0x69, "ok");
        V_CANARY(ret != 0 && g_p0 != g_ep, "fail");
}
static bool
s_limits(bool mem, uint32_t *min, uint32_t *max, uint8_t *flags, uint8_t *shift)
{
        uint8_t f;
        uint32_t sh;
        if (!s_u8(&f) || (f & ~(mem ? 0x0b : 0x01)) != 0 || (f & 3) == 2) {
                return false;
        }
        if (!s_leb(min) || ((f & 1) && !s_leb(max))) {
                return false;
        }
        *shift = mem ? 16 : 0;
        if (f & 8) {
                if (!s_leb(&sh) || (sh != 0 && sh != 16)) {
                        return false;
                }
                *shift = (uint8_t)sh;
        }
        uint64_t limit = !mem ? UINT32_MAX : *shift == 16 ? 65536 : UINT64_C(1) << 32;
        if (!(f & 1)) {
                *max = limit > UINT32_MAX ? UINT32_MAX : (uint32_t)limit;
        }
        *flags = f & 2;
        return *min <= limit && *max <= limit && *min <= *max;
}
//@job h_read_memtype prop=P17,P04 enforce=read_memtype,read_limits dfcc=0 unwind=18 solver=cadical
void
h_read_memtype(void)
{
        setup_buf(N);
        struct memtype mt;
        int ret = read_memtype(&g_p, g_ep, 0, &mt, &g_lctx);
        uint32_t min, max;
        uint8_t flags, shift;
        bool ok = s_limits(true, &min, &max, &flags, &shift);
        V_CHECK((ret == 0) == ok && moved(ret), "read_memtype");
        V_CHECK(ret != 0 || (mt.lim.min == min && mt.lim.max == max && mt.flags == flags && mt.page_shift == shift), "memory type");
        V_CANARY(ret == 0 && shift == 0 && flags == 2 && min == 70000, "small pages");
        V_CANARY(ret == 0 && shift == 16 && max == 65536 && flags == 0, "no max");
        V_CANARY(ret != 0 && g_pos == N, "fail");
}
//@job h_read_tabletype prop=P17,P05 enforce=read_tabletype,read_limits,is_reftype dfcc=0 unwind=18 solver=cadical
void
h_read_tabletype(void)
{
        setup_buf(N);
        struct tabletype tt;
        int ret = read_tabletype(&g_p, g_ep, &tt);
        uint32_t min, max;
        uint8_t flags, shift, b;
        bool ok = s_u8(&b) && s_reftype(b) && s_limits(false, &min, &max, &flags, &shift);
        V_CHECK((ret == 0) == ok && moved(ret), "read_tabletype");
        V_CHECK(ret != 0 || ((uint32_t)tt.et == b && tt.lim.min == min && tt.lim.max == max), "table type");
        V_CANARY(ret == 0 && max == UINT32_MAX && min == 70000, "ok");
        V_CANARY(ret != 0 && b == 0x70, "fail");
}
//@job h_read_globaltype prop=P17 enforce=read_globaltype dfcc=0 unwind=18
void
h_read_globaltype(void)
{
        setup_buf(4);
        struct globaltype gt;
        int ret = read_globaltype(&g_p, g_ep, &gt);
        uint8_t b, c;
        bool ok = s_u8(&b) && s_valtype(b) && s_u8(&c) && c <= 1;
        V_CHECK((ret == 0) == ok && moved(ret), "read_globaltype");
        V_CHECK(ret != 0 || ((uint32_t)gt.t == b && gt.mut == (c ? GLOBAL_VAR : GLOBAL_CONST)), "global type");
        V_CANARY(ret == 0 && c == 1, "ok");
        V_CANARY(ret != 0, "fail");
}

/* ---- tags */
#define NT 5
static struct functype g_ft[1];
static enum valtype g_types[NT];
static uint32_t g_typeidx;
static void
setup_types(uint32_t typeidx)
{
        unsigned int i;
        g_m.ntypes = in_u32();
        g_ft[0].parameter.ntypes = in_u32();
        V_ASSUME(g_ft[0].parameter.ntypes <= NT);
        for (i = 0; i < NT; i++) {
                uint8_t b = in_u8();
                V_ASSUME(s_valtype(b));
                g_types[i] = (enum valtype)b;
        }
        g_ft[0].parameter.types = g_types;
        g_ft[0].parameter.is_static = true;
        g_ft[0].parameter.cellidx.cellidxes = NULL;
        g_ft[0].result.ntypes = in_u32();
        g_m.types = g_ft - (size_t)typeidx;
}
static uint32_t
s_cells(void)
{
        uint32_t n = 0;
        unsigned int i;
        for (i = 0; i < NT; i++) {
                if (i < g_ft[0].parameter.ntypes) {
                        switch ((uint32_t)g_types[i]) {
                        case 0x7f: case 0x7d: n += 1; break;
                        case 0x7b: n += 4; break;
                        case 0x69: n += 6; break;
                        default: n += 2; break;
                        }
                }
        }
        return n;
}
static bool
s_tag(uint32_t *typeidx)
{
        uint32_t a;
        return s_leb(&a) && a == 0 && s_leb(typeidx);
}
//@job h_read_tagtype prop=P17,P13 enforce=read_tagtype dfcc=0 unwind=18 solver=cadical bounded="tag types with at most 5 parameters"
void
h_read_tagtype(void)
{
        setup_buf(11);
        uint32_t typeidx = 0;
        bool ok = s_tag(&typeidx);
        setup_types(typeidx);
        ok = ok && typeidx < g_m.ntypes && g_ft[0].result.ntypes == 0 && s_cells() <= TOYWASM_EXCEPTION_MAX_CELLS;
        struct tagtype tag;
        int ret = read_tagtype(&g_p, g_ep, 0, &tag, &g_lctx);
        V_CHECK((ret == 0) == ok && moved(ret), "read_tagtype");
        V_CHECK(ret != 0 || tag.typeidx == typeidx, "tag type");
        V_CANARY(ret == 0 && typeidx == 70000 && s_cells() == 4, "ok");
        V_CANARY(ret != 0 && s_cells() == 5 && typeidx < g_m.ntypes, "fail");
}

/* ---- import and export descriptors */
static uint32_t g_n0[5];
static void
get_counts(uint32_t *n)
{
        n[0] = g_m.nimportedfuncs;
        n[1] = g_m.nimportedtables;
        n[2] = g_m.nimportedmems;
        n[3] = g_m.nimportedglobals;
        n[4] = g_m.nimportedtags;
}
static void
setup_counts(void)
{
        g_m.nimportedfuncs = in_u32();
        g_m.nimportedtables = in_u32();
        g_m.nimportedmems = in_u32();
        g_m.nimportedglobals = in_u32();
        g_m.nimportedtags = in_u32();
        get_counts(g_n0);
}
static void
import_kind(uint8_t want, unsigned int max)
{
        setup_buf(max);
        setup_counts();
        V_ASSUME(g_p == g_ep || (want < 5 ? *g_p == want : *g_p >= 5));
        uint8_t kind = 0xff, b = 0, c = 0, flags = 0, shift = 0;
        uint32_t typeidx = 0, min = 0, max = 0;
        bool ok = s_u8(&kind) && kind <= 4;
        if (ok) {
                switch (kind) {
                case 0: ok = s_leb(&typeidx); break;
                case 1: ok = s_u8(&b) && s_reftype(b) && s_limits(false, &min, &max, &flags, &shift); break;
                case 2: ok = s_limits(true, &min, &max, &flags, &shift); break;
                case 3: ok = s_u8(&b) && s_valtype(b) && s_u8(&c) && c <= 1; break;
                default: ok = s_tag(&typeidx); break;
                }
        }
        setup_types(typeidx);
        if (kind == 0) {
                ok = ok && typeidx < g_m.ntypes;
        }
        if (kind == 4) {
                ok = ok && typeidx < g_m.ntypes && g_ft[0].result.ntypes == 0 && s_cells() <= TOYWASM_EXCEPTION_MAX_CELLS;
        }
        struct importdesc d;
        int ret = read_importdesc(&g_p, g_ep, 0, &d, &g_lctx);
        V_CHECK((ret == 0) == ok && moved(ret), "read_importdesc");
        uint32_t n[5];
        unsigned int i;
        get_counts(n);
        for (i = 0; i < 5; i++) {
                V_CHECK(ret != 0 || n[i] == (uint32_t)(g_n0[i] + (i == kind)), "the import is counted");
        }
        V_CHECK(ret != 0 || (uint32_t)d.type == kind, "import kind");
        V_CHECK(ret != 0 || kind != 0 || d.u.typeidx == typeidx, "function import");
        V_CHECK(ret != 0 || kind != 1 || ((uint32_t)d.u.tabletype.et == b && d.u.tabletype.lim.min == min && d.u.tabletype.lim.max == max), "table import");
        V_CHECK(ret != 0 || kind != 2 || (d.u.memtype.lim.min == min && d.u.memtype.lim.max == max && d.u.memtype.flags == flags && d.u.memtype.page_shift == shift), "memory import");
        V_CHECK(ret != 0 || kind != 3 || ((uint32_t)d.u.globaltype.t == b && (uint32_t)d.u.globaltype.mut == c), "global import");
        V_CHECK(ret != 0 || kind != 4 || d.u.tagtype.typeidx == typeidx, "tag import");
        V_CANARY(ret == 0 || want == 5, "ok");
        V_CANARY(ret != 0, "fail");
}
//@job h_import_func prop=P17 enforce=read_importdesc dfcc=0 unwind=18 solver=cadical
void h_import_func(void) { import_kind(0, 7); }
//@job h_import_table prop=P17 enforce=read_importdesc dfcc=0 unwind=18 solver=cadical
void h_import_table(void) { import_kind(1, N); }
//@job h_import_mem prop=P17 enforce=read_importdesc dfcc=0 unwind=18 solver=cadical
void h_import_mem(void) { import_kind(2, N); }
//@job h_import_global prop=P17 enforce=read_importdesc dfcc=0 unwind=18 solver=cadical
void h_import_global(void) { import_kind(3, 4); }
//@job h_import_tag prop=P17,P13 enforce=read_importdesc dfcc=0 unwind=18 solver=cadical bounded="tag types with at most 5 parameters"
void h_import_tag(void) { import_kind(4, 11); }
//@job h_import_other prop=P17 enforce=read_importdesc dfcc=0 unwind=18 solver=cadical
void h_import_other(void) { import_kind(5, 7); }
static uint32_t g_bits[1], g_bits0;
//@job h_read_exportdesc prop=P17,P19 enforce=read_exportdesc dfcc=0 unwind=18 solver=cadical
void
h_read_exportdesc(void)
{
        setup_buf(7);
        setup_counts();
        g_m.nfuncs = in_u32();
        g_m.ntables = in_u32();
        g_m.nmems = in_u32();
        g_m.nglobals = in_u32();
        g_m.ntags = in_u32();
        uint32_t def[5] = {g_m.nfuncs, g_m.ntables, g_m.nmems, g_m.nglobals, g_m.ntags};
        unsigned int i;
        for (i = 0; i < 5; i++) {
                V_ASSUME(def[i] <= UINT32_MAX - g_n0[i]);
        }
        uint8_t kind = 0xff;
        uint32_t idx = 0;
        bool ok = s_u8(&kind) && kind <= 4 && s_leb(&idx) && idx < g_n0[kind] + def[kind];
        g_bits[0] = g_bits0 = in_u32();
        g_lctx.refs.data = g_bits - (size_t)(idx / 32);
        struct exportdesc d;
        int ret = read_exportdesc(&g_p, g_ep, &d, &g_lctx);
        V_CHECK((ret == 0) == ok && moved(ret), "read_exportdesc");
        V_CHECK(ret != 0 || ((uint32_t)d.type == kind && d.idx == idx), "export");
        V_CHECK(g_bits[0] == (ret == 0 && kind == 0 ? g_bits0 | UINT32_C(1) << idx % 32 : g_bits0), "function reference declared");
        V_CANARY(ret == 0 && kind == 0 && idx == 70000, "function");
        V_CANARY(ret == 0 && kind == 4 && idx == 70000, "tag");
        V_CANARY(ret != 0 && kind == 3, "fail");
}

/* ---- names */
static bool
s_utf8(unsigned int pos, unsigned int end)
{
        /* RFC 3629, section 4 */
        unsigned int i;
        for (i = 0; i < 6; i++) {
                if (pos == end) {
                        return true;
                }
                uint8_t b = g_buf[pos];
                unsigned int k = b < 0x80 ? 0 : b >= 0xc2 && b <= 0xdf ? 1 : b >= 0xe0 && b <= 0xef ? 2 : b >= 0xf0 && b <= 0xf4 ? 3 : 9;
                if (k > end - pos - 1) {
                        return false;
                }
                if (k >= 1) {
                        uint8_t c = g_buf[pos + 1];
                        if (c < (b == 0xe0 ? 0xa0 : b == 0xf0 ? 0x90 : 0x80) || c > (b == 0xed ? 0x9f : b == 0xf4 ? 0x8f : 0xbf)) {
                                return false;
                        }
                }
                if (k >= 2 && (g_buf[pos + 2] & 0xc0) != 0x80) {
                        return false;
                }
                if (k >= 3 && (g_buf[pos + 3] & 0xc0) != 0x80) {
                        return false;
                }
                pos += k + 1;
        }
        return pos == end;
}
//@job h_check_utf8 prop=P17,P19 enforce=check_utf8 dfcc=0 unwind=18 unwindset=check_utf8.1:7 solver=cadical bounded="at most 5 bytes"
void
h_check_utf8(void)
{
        setup_buf(5);
        int ret = check_utf8(g_p, g_ep);
        V_CHECK((ret == 0) == s_utf8(g_pos, N), "check_utf8");
        V_CANARY(ret == 0 && g_pos == N - 5 && g_buf[N - 4] == 0xf4, "four bytes");
        V_CANARY(ret == 0 && g_pos == N - 5 && g_buf[N - 3] == 0xed, "three bytes");
        V_CANARY(ret != 0 && g_buf[N - 3] == 0xed && g_pos == N - 3, "surrogate");
}
//@job h_read_name prop=P17,P19 enforce=read_name dfcc=0 unwind=18 unwindset=check_utf8.1:7 solver=cadical bounded="inputs of at most 8 bytes, names of at most 5"
void
h_read_name(void)
{
        setup_buf(8);
        struct name n;
        uint32_t len = 0;
        bool ok = s_leb(&len) && len <= N - g_pos;
        unsigned int start = g_pos;
        V_ASSUME(!ok || len <= 5);
        if (ok) {
                ok = s_utf8(start, start + len);
                g_pos += len;
        }
        int ret = read_name(&g_p, g_ep, &n);
        V_CHECK((ret == 0) == ok && moved(ret), "read_name");
        V_CHECK(ret != 0 || (n.nbytes == len && n.data == (const char *)g_buf + start), "name");
        V_CANARY(ret == 0 && n.nbytes == 5, "ok");
        V_CANARY(ret != 0 && len == UINT32_MAX, "too long");
}

/* ---- framing */
//@job h_section_load prop=P17 enforce=section_load dfcc=0 unwind=18 solver=cadical bounded="inputs of at most 17 bytes"
void
h_section_load(void)
{
        setup_buf(N);
        struct section__lib_module_c s;
        uint8_t id;
        uint32_t size;
        bool ok = s_u8(&id) && s_leb(&size) && size <= N - g_pos;
        unsigned int start = g_pos;
        if (ok) {
                g_pos += size;
        }
        int ret = section_load(&s, &g_p, g_ep);
        V_CHECK((ret == 0) == ok && moved(ret), "section_load");
        V_CHECK(ret != 0 || (s.id == id && s.size == size && s.data == g_buf + start), "section");
        V_CANARY(ret == 0 && size == 12, "ok");
        V_CANARY(ret != 0 && size == UINT32_MAX && start == 10, "too long");
}
static unsigned int g_consume;
static int g_fret;
static bool g_usestub;
static int
vd_fn(const uint8_t **pp, const uint8_t *ep, struct load_context *ctx)
{
        V_CHECK(*pp == g_p0 && ep == g_ep && ctx == &g_lctx, "decoder arguments");
        if (g_fret == 0) {
                *pp += g_consume;
        }
        return g_fret;
}
//@job h_read_section prop=P17 enforce=read_section dfcc=0 unwind=18
void
h_read_section(void)
{
        setup_buf(N);
        g_consume = in_u32();
        V_ASSUME(g_consume <= N - g_pos);
        g_fret = (int)in_u32();
        int ret = (read_section)(&g_p, g_ep, "x", vd_fn, &g_lctx);
        g_pos = N;
        V_CHECK(g_fret == 0 || ret == g_fret, "error");
        V_CHECK(g_fret != 0 || (ret == 0) == (g_consume == (unsigned int)(g_ep - g_p0)), "the whole section is used");
        V_CHECK(moved(ret), "position");
        V_CANARY(ret == 0 && g_consume == N, "ok");
        V_CANARY(ret != 0 && g_fret == 0, "trailing bytes");
}
//@job h_read_datacount prop=P17 enforce=read_datacount_section dfcc=0 unwind=18
void
h_read_datacount(void)
{
        setup_buf(6);
        uint32_t n;
        bool ok = s_leb(&n);
        g_lctx.has_datacount = false;
        int ret = read_datacount_section(&g_p, g_ep, &g_lctx);
        V_CHECK((ret == 0) == ok && moved(ret), "read_datacount_section");
        V_CHECK(ret != 0 || (g_lctx.has_datacount && g_lctx.ndatas_in_datacount == n), "count");
        V_CANARY(ret == 0 && n == 70000, "ok");
        V_CANARY(ret != 0, "fail");
}
static uint32_t g_tidx[1];
//@job h_read_start prop=P17,P29 enforce=read_start_section dfcc=0 unwind=18 solver=cadical bounded="start functions that are not imported"
void
h_read_start(void)
{
        setup_buf(6);
        uint32_t start = 0;
        bool ok = s_leb(&start);
        g_m.nimportedfuncs = in_u32();
        g_m.nfuncs = in_u32();
        V_ASSUME(g_m.nfuncs <= UINT32_MAX - g_m.nimportedfuncs);
        V_ASSUME(!ok || start >= g_m.nimportedfuncs);
        g_tidx[0] = in_u32();
        setup_types(g_tidx[0]);
        V_ASSUME(g_tidx[0] < g_m.ntypes);
        g_m.functypeidxes = g_tidx - (size_t)(start - g_m.nimportedfuncs);
        ok = ok && start < g_m.nimportedfuncs + g_m.nfuncs && g_ft[0].parameter.ntypes == 0 && g_ft[0].result.ntypes == 0;
        int ret = read_start_section(&g_p, g_ep, &g_lctx);
        V_CHECK((ret == 0) == ok && moved(ret), "read_start_section");
        V_CHECK(ret != 0 || (g_m.has_start && g_m.start == start), "start function");
        V_CANARY(ret == 0 && start == 70000, "ok");
        V_CANARY(ret != 0 && start == 70000 && start < g_m.nimportedfuncs + g_m.nfuncs, "fail");
}

/* ---- vectors */
static unsigned int g_nread, g_ncleared;
static uint32_t g_ev[2];
static int g_eret[2];
static const uint8_t *g_eat;
static int
vd_elem(const uint8_t **pp, const uint8_t *ep, uint32_t idx, void *elem, void *ctx)
{
        V_CHECK(idx == g_nread && idx < 2 && ep == g_ep && ctx == &g_eat && *pp == g_eat, "element decoder arguments");
        g_nread++;
        if (g_eret[idx] != 0) {
                return g_eret[idx];
        }
        *(uint32_t *)elem = g_ev[idx];
        return 0;
}
static void
vd_clear(struct mem_context *mctx, void *elem)
{
        V_CHECK(mctx == &g_mctx && *(uint32_t *)elem == g_ev[g_ncleared], "element destructor arguments");
        g_ncleared++;
}
//@job h_read_vec prop=P17 enforce=_read_vec_with_ctx_impl,array_extend dfcc=0 unwind=18 unwindset=_read_vec_with_ctx_impl.0:3,_read_vec_with_ctx_impl.1:3,mem_reserve_one.0:2,mem_reserve_one.1:2 solver=cadical bounded="vectors of at most 2 elements"
void
h_read_vec(void)
{
        setup_buf(6);
        uint32_t n = 0;
        bool ok = s_leb(&n);
        V_ASSUME(!ok || n <= 2);
        g_nread = g_ncleared = 0;
        g_ev[0] = in_u32();
        g_ev[1] = in_u32();
        g_eret[0] = (int)in_u32();
        g_eret[1] = (int)in_u32();
        g_eat = g_buf + g_pos;
        uint32_t count = 0;
        uint32_t *result = NULL;
        int ret = _read_vec_with_ctx_impl(&g_mctx, &g_p, g_ep, sizeof(uint32_t), vd_elem, vd_clear, &g_eat, &count, (void **)&result);
        if (ret == 0) {
                V_CHECK(ok && count == n && (n > 0) == (result != NULL) && g_nread == n && g_ncleared == 0, "count");
                V_CHECK((n < 1 || (g_eret[0] == 0 && result[0] == g_ev[0])) && (n < 2 || (g_eret[1] == 0 && result[1] == g_ev[1])), "elements");
                V_CHECK(g_mctx.allocated == n * sizeof(uint32_t), "accounting");
        } else {
                V_CHECK(count == 0 && result == NULL && g_mctx.allocated == 0, "everything is released");
                V_CHECK(g_nread == 0 || (ret == g_eret[g_nread - 1] && g_ncleared == g_nread - 1), "the elements read are cleared");
                V_CHECK(g_nread > 0 || !ok || (ret == ENOMEM && n > 0), "error");
        }
        V_CHECK(moved(ret), "position");
        V_CANARY(ret == 0 && count == 2, "two");
        V_CANARY(ret != 0 && g_nread == 2, "second fails");
        V_CANARY(ret == ENOMEM && g_nread == 0, "no memory");
}

/* ---- functions */
static struct func g_func;
static unsigned int g_c1, g_c2; /* bytes the callees use */
static int g_r1, g_r2;
static unsigned int g_ncalls;
static enum valtype g_xtype, g_xtype2 /* of the initializers of elements */;
static struct element g_elem;
static unsigned int g_nexpr;
static struct expr *g_xexpr;
static int
vd_const_expr(const uint8_t **pp, const uint8_t *ep, struct expr *expr, enum valtype type, struct load_context *lctx)
{
        V_CHECK(lctx == &g_lctx && ep == g_ep && *pp >= g_p0 && *pp <= ep && (expr == g_xexpr ? (uint32_t)type == (uint32_t)g_xtype : expr == &g_elem.init_exprs[g_nexpr] && type == g_xtype2), "read_const_expr arguments");
        g_ncalls += expr == g_xexpr;
        if (g_r1 != 0) {
                return g_r1;
        }
        if (g_c1 > (unsigned int)(ep - *pp)) {
                return EINVAL;
        }
        g_nexpr += expr != g_xexpr;
        expr->start = *pp;
        *pp += g_c1;
        expr->ei.jumps = NULL;
        expr->ei.njumps = 0;
        expr->ei.type_annotations.types = NULL;
        return 0;
}
static struct localchunk g_chunks[1];
static uint32_t g_nl;
static bool g_x_any;
static struct func *g_x_func;
static int
vd_locals(const uint8_t **pp, const uint8_t *ep, struct func *func, const struct load_context *ctx)
{
        V_CHECK((g_x_any || func == &g_func) && ctx == &g_lctx && ep == g_x_ep && *pp >= g_p0 && *pp <= ep, "read_locals arguments");
        if (g_r1 != 0) {
                return g_r1;
        }
        V_ASSUME(g_c1 <= (unsigned int)(ep - *pp));
        *pp += g_c1;
        func->localtype.nlocals = g_nl;
        func->localtype.localchunks = NULL;
        func->localtype.nlocalchunks = 0;
        func->localtype.cellidx.cellidxes = NULL;
        g_x_func = func;
        return 0;
}
static int
vd_expr(const uint8_t **pp, const uint8_t *ep, struct expr *expr, uint32_t nlocals,
        const struct localchunk *chunks, struct resulttype *pt, struct resulttype *rt, struct load_context *lctx)
{
        V_CHECK(expr == &g_x_func->e && nlocals == g_nl && chunks == g_x_func->localtype.localchunks && lctx == &g_lctx &&
                ep == g_x_ep && pt == &g_ft[0].parameter && rt == &g_ft[0].result, "read_expr arguments");
        g_ncalls++;
        if (g_r2 != 0) {
                return g_r2;
        }
        V_ASSUME(g_c2 <= (unsigned int)(ep - *pp));
        *pp += g_c2;
        expr->ei.jumps = NULL;
        expr->ei.njumps = 0;
        expr->ei.type_annotations.types = NULL;
        return 0;
}
//@job h_read_func prop=P17 enforce=read_func dfcc=0 unwind=18 solver=cadical bounded="function bodies of at most 16 bytes"
void
h_read_func(void)
{
        setup_buf(N);
        uint32_t idx = in_u32();
        g_m.nimportedfuncs = in_u32();
        g_m.nfuncs = in_u32();
        V_ASSUME(g_m.nfuncs <= UINT32_MAX - g_m.nimportedfuncs);
        V_ASSUME(idx <= UINT32_MAX - g_m.nimportedfuncs);
        g_tidx[0] = in_u32();
        setup_types(g_tidx[0]);
        V_ASSUME(g_tidx[0] < g_m.ntypes);
        g_m.functypeidxes = g_tidx - (size_t)idx;
        g_c1 = in_u32();
        g_c2 = in_u32();
        g_r1 = (int)in_u32();
        g_r2 = (int)in_u32();
        g_nl = in_u32();
        g_ncalls = 0;
        uint32_t size = 0;
        bool ok = idx < g_m.nfuncs && s_leb(&size) && size <= N - g_pos;
        g_x_ep = g_buf + g_pos + size;
        unsigned int start = g_pos;
        if (ok) {
                g_pos += size;
        }
        int ret = read_func(&g_p, g_ep, idx, &g_func, &g_lctx);
        ok = ok && g_r1 == 0 && g_r2 == 0 && g_c1 + g_c2 == size;
        V_CHECK((ret == 0) == ok && moved(ret), "read_func");
        V_CHECK(g_mctx.allocated == 0, "nothing is left allocated");
        V_CANARY(ret == 0 && size == 16, "ok");
        V_CANARY(ret != 0 && g_ncalls == 1 && g_r2 == 0, "trailing bytes");
}
//@job h_read_locals prop=P17,P12 enforce=read_locals,populate_localtype_cellidx dfcc=0 unwind=18 unwindset=read_locals.0:3,populate_localtype_cellidx.0:5,mem_reserve_one.0:2,mem_reserve_one.1:2 solver=cadical bounded="at most 2 groups, at most 4 locals in all"
void
h_read_locals(void)
{
        setup_buf(10);
        g_func.localtype.localchunks = NULL;
        g_func.localtype.nlocals = 0;
        g_func.localtype.cellidx.cellidxes = NULL;
        uint32_t n = 0, c[2] = {0, 0};
        uint8_t t[2] = {0, 0};
        bool ok = s_leb(&n);
        V_ASSUME(n <= 2);
        unsigned int i;
        for (i = 0; i < 2; i++) {
                if (i < n) {
                        ok = ok && s_leb(&c[i]) && s_u8(&t[i]) && s_valtype(t[i]);
                }
        }
        ok = ok && c[1] <= UINT32_MAX - c[0];
        /* (the number of cells has to fit in 32 bits as well.) */
        ok = ok && (uint64_t)c[0] * valtype_cellsize((enum valtype)(n > 0 ? t[0] : 0x7f)) +
                           (uint64_t)c[1] * valtype_cellsize((enum valtype)(n > 1 ? t[1] : 0x7f)) <= UINT32_MAX;
        V_ASSUME(!ok || c[0] + c[1] <= 4);
        g_lctx.options.generate_localtype_cellidx = in_bool();
        int ret = (read_locals)(&g_p, g_ep, &g_func, &g_lctx);
        struct localtype *lt = &g_func.localtype;
        if (ret == 0) {
                V_CHECK(ok && lt->nlocals == c[0] + c[1] && lt->nlocalchunks == n, "read_locals");
                uint32_t csz = 0;
                unsigned int k = 0;
                for (i = 0; i < 2; i++) {
                        if (c[i] > 0) {
                                V_CHECK(lt->localchunks[k].n == c[i] && (uint32_t)lt->localchunks[k].type == t[i], "group");
                                k++;
                        }
                }
                uint32_t j;
                if (lt->cellidx.cellidxes != NULL) {
                        V_CHECK(lt->cellidx.cellidxes[0] == 0, "index of the first local");
                        for (j = 0; j < 4; j++) {
                                if (j < lt->nlocals) {
                                        csz += valtype_cellsize((enum valtype)(j < c[0] ? t[0] : t[1]));
                                        V_CHECK(lt->cellidx.cellidxes[j + 1] == csz, "index of a local");
                                }
                        }
                }
        } else {
                V_CHECK(!ok || ret == ENOMEM, "error");
                V_CHECK(g_mctx.allocated == 0 && lt->localchunks == NULL, "everything is released");
        }
        V_CHECK(moved(ret), "position");
        V_CANARY(ret == 0 && lt->nlocals == 4 && c[0] == 0 && lt->cellidx.cellidxes != NULL, "an empty group");
        V_CANARY(ret == 0 && lt->nlocals == 4 && c[0] == 2 && lt->cellidx.cellidxes != NULL, "two groups");
        V_CANARY(ret != 0 && n == 2 && c[1] == UINT32_MAX && c[0] == 1, "too many");
}
//@job h_read_function_section prop=P17 enforce=read_function_section dfcc=0 unwind=18 unwindset=_read_vec_with_ctx_impl.0:3,_read_vec_with_ctx_impl.1:3,read_function_section.0:3,mem_reserve_one.0:2,mem_reserve_one.1:2 solver=cadical bounded="at most 2 functions"
void
h_read_function_section(void)
{
        setup_buf(8);
        uint32_t n = 0, t[2] = {0, 0};
        bool ok = s_leb(&n);
        V_ASSUME(!ok || n <= 2);
        bool dec = ok && (n < 1 || s_leb(&t[0])) && (n < 2 || s_leb(&t[1]));
        g_m.ntypes = in_u32();
        ok = dec && (n < 1 || t[0] < g_m.ntypes) && (n < 2 || t[1] < g_m.ntypes);
        g_m.nfuncs = 0;
        g_m.functypeidxes = NULL;
        g_m.nimportedfuncs = 0;
        g_lctx.refs_size = 0;
        int ret = read_function_section(&g_p, g_ep, &g_lctx);
        V_CHECK(ret == 0 ? ok : !ok || ret == ENOMEM, "read_function_section");
        V_CHECK(moved(ret), "position");
        V_CHECK(ret != 0 || (g_m.nfuncs == n && (n < 1 || g_m.functypeidxes[0] == t[0]) && (n < 2 || g_m.functypeidxes[1] == t[1]) &&
                g_lctx.refs_size == n), "functions");
        V_CANARY(ret == 0 && n == 2, "ok");
        V_CANARY(ret != 0 && dec && n == 2, "fail");
}

//@job h_read_functype prop=P17,P20 enforce=read_functype,read_resulttype,read_vec dfcc=0 unwind=18 unwindset=_read_vec_with_ctx_impl.0:3,_read_vec_with_ctx_impl.1:3,populate_resulttype_cellidx.0:3,mem_reserve_one.0:2,mem_reserve_one.1:2 solver=cadical bounded="at most 2 parameters and 2 results"
void
h_read_functype(void)
{
        setup_buf(N);
        struct functype ft;
        uint8_t b, t[2][2];
        uint32_t n[2] = {0, 0};
        bool ok = s_u8(&b) && b == 0x60;
        unsigned int i, j;
        for (i = 0; i < 2; i++) {
                ok = ok && s_leb(&n[i]);
                V_ASSUME(n[i] <= 2);
                for (j = 0; j < 2; j++) {
                        if (j < n[i]) {
                                ok = ok && s_u8(&t[i][j]) && s_valtype(t[i][j]);
                        }
                }
        }
        int ret = read_functype(&g_p, g_ep, 0, &ft, &g_lctx);
        V_CHECK(ret == 0 ? ok : !ok || ret == ENOMEM, "read_functype");
        V_CHECK(moved(ret), "position");
        if (ret == 0) {
                V_CHECK(ft.parameter.ntypes == n[0] && ft.result.ntypes == n[1], "numbers of types");
                for (j = 0; j < 2; j++) {
                        V_CHECK(j >= n[0] || (uint32_t)ft.parameter.types[j] == t[0][j], "parameter");
                        V_CHECK(j >= n[1] || (uint32_t)ft.result.types[j] == t[1][j], "result");
                }
        } else {
                V_CHECK(g_mctx.allocated == 0, "everything is released");
        }
        V_CANARY(ret == 0 && n[0] == 2 && n[1] == 2, "ok");
        V_CANARY(ret != 0 && n[0] == 2 && n[1] == 2, "fail");
}
//@job h_read_code_section prop=P17 enforce=read_code_section dfcc=0 unwind=18 unwindset=_read_vec_with_ctx_impl.0:2,_read_vec_with_ctx_impl.1:2,read_code_section.0:2,module_funcs_clear.0:2,mem_reserve_one.0:2,mem_reserve_one.1:2 solver=cadical bounded="at most 1 function body, 6 bytes"
void
h_read_code_section(void)
{
        setup_len(6);
        g_m.nimportedfuncs = 0;
        g_m.nfuncs = in_u32();
        V_ASSUME(g_m.nfuncs <= 1);
        g_m.funcs = NULL;
        g_tidx[0] = 0;
        setup_types(0);
        V_ASSUME(g_m.ntypes > 0);
        g_m.functypeidxes = g_tidx;
        g_c1 = in_u32();
        g_c2 = in_u32();
        g_r1 = (int)in_u32();
        g_r2 = (int)in_u32();
        g_nl = in_u32();
        uint32_t n = 0, size = 0;
        bool ok = s_leb(&n);
        V_ASSUME(!ok || n <= 1);
        if (n == 1) {
                ok = ok && s_leb(&size) && size <= N - g_pos && g_r1 == 0 && g_r2 == 0 && g_c1 + g_c2 == size;
                g_x_ep = g_buf + g_pos + size;
                g_x_any = true;
                if (ok) {
                        g_pos += size;
                }
        }
        ok = ok && n == g_m.nfuncs;
        int ret = read_code_section(&g_p, g_ep, &g_lctx);
        V_CHECK(ret == 0 ? ok : !ok || ret == ENOMEM, "read_code_section");
        V_CHECK(moved(ret), "position");
        V_CHECK(ret != 0 || (g_m.funcs != NULL) == (n > 0), "functions");
        V_CHECK(ret == 0 || (g_m.funcs == NULL && g_mctx.allocated == 0), "everything is released");
        V_CANARY(ret == 0 && n == 1, "ok");
        V_CANARY(ret != 0 && n == 1 && g_m.nfuncs == 0, "too many");
        V_CANARY(ret != 0 && n == 0 && g_m.nfuncs == 1, "too few");
}
static struct global g_glob;
//@job h_read_global prop=P17 enforce=read_global dfcc=0 unwind=18 solver=cadical bounded="inputs of at most 17 bytes"
void
h_read_global(void)
{
        setup_buf(N);
        g_c1 = in_u32();
        g_r1 = (int)in_u32();
        g_ncalls = 0;
        uint8_t b = 0, c;
        bool ok = s_u8(&b) && s_valtype(b) && s_u8(&c) && c <= 1 && g_r1 == 0 && g_c1 <= N - g_pos;
        g_xtype = (enum valtype)b;
        g_xexpr = &g_glob.init;
        if (ok) {
                g_pos += g_c1;
        }
        int ret = read_global(&g_p, g_ep, 0, &g_glob, &g_lctx);
        V_CHECK((ret == 0) == ok && moved(ret), "read_global");
        V_CHECK(ret != 0 || (g_ncalls == 1 && (uint32_t)g_glob.type.t == b && g_glob.type.mut == (c ? GLOBAL_VAR : GLOBAL_CONST) &&
                g_glob.init.start == g_buf + g_pos - g_c1), "global");
        V_CANARY(ret == 0 && g_c1 == 15, "ok");
        V_CANARY(ret != 0, "fail");
}

/* ---- segments */
static struct data g_data;
//@job h_read_data prop=P17,P29 enforce=read_data dfcc=0 unwind=18 solver=cadical bounded="inputs of at most 17 bytes"
void
h_read_data(void)
{
        setup_buf(N);
        g_m.nimportedmems = in_u32();
        g_m.nmems = in_u32();
        V_ASSUME(g_m.nmems <= UINT32_MAX - g_m.nimportedmems);
        g_c1 = in_u32();
        g_r1 = (int)in_u32();
        g_ncalls = 0;
        g_xtype = TYPE_i32;
        g_xexpr = &g_data.offset;
        uint32_t kind = 0, mem = 0, n = 0;
        bool ok = s_leb(&kind) && kind <= 2 && (kind != 2 || s_leb(&mem));
        if (kind != 1) {
                ok = ok && mem < g_m.nimportedmems + g_m.nmems && g_r1 == 0 && g_c1 <= N - g_pos;
                if (ok) {
                        g_pos += g_c1;
                }
        }
        ok = ok && s_leb(&n) && n <= N - g_pos;
        unsigned int start = g_pos;
        if (ok) {
                g_pos += n;
        }
        int ret = read_data(&g_p, g_ep, 0, &g_data, &g_lctx);
        V_CHECK((ret == 0) == ok && moved(ret), "read_data");
        V_CHECK(ret != 0 || (g_data.mode == (kind == 1 ? DATA_MODE_PASSIVE : DATA_MODE_ACTIVE) && g_data.init_size == n &&
                g_data.init == g_buf + start && (kind == 1 || (g_data.memory == mem && g_ncalls == 1))), "data segment");
        V_CANARY(ret == 0 && kind == 2 && mem == 70000 && n == 3, "active");
        V_CANARY(ret == 0 && kind == 1 && n == 3, "passive");
        V_CANARY(ret != 0 && kind == 1 && n == UINT32_MAX, "too long");
}
static struct tabletype g_tt[1];
static void
element_kind(uint32_t kind)
{
        setup_buf(10);
        g_m.nimportedtables = 0;
        g_m.ntables = in_u32();
        g_m.nimportedfuncs = in_u32();
        g_m.nfuncs = in_u32();
        V_ASSUME(g_m.nfuncs <= UINT32_MAX - g_m.nimportedfuncs);
        g_c1 = in_u32();
        V_ASSUME(g_c1 <= 2);
        g_r1 = (int)in_u32();
        g_ncalls = 0;
        g_xtype = TYPE_i32;
        g_xexpr = &g_elem.offset;
        uint32_t k, table = 0, n = 0, f[2] = {0, 0};
        uint8_t ek = 0;
        bool active = !(kind & 1), exprs = (kind & 4) != 0;
        bool ok = s_leb(&k);
        V_ASSUME(!ok || k == kind);
        ok = ok && (!(active && (kind & 2)) || s_leb(&table));
        if (active) {
                ok = ok && g_r1 == 0 && g_c1 <= N - g_pos;
                if (ok) {
                        g_pos += g_c1;
                }
        }
        ok = ok && (!(kind & 3) || s_u8(&ek));
        uint32_t type = !exprs || !(kind & 3) ? 0x70 : ek;
        ok = ok && (exprs ? s_reftype((uint8_t)type) : ek == 0);
        ok = ok && s_leb(&n);
        V_ASSUME(n <= 2);
        unsigned int start = g_pos;
        if (!exprs) {
                ok = ok && (n < 1 || s_leb(&f[0])) && (n < 2 || s_leb(&f[1]));
                uint32_t nf = g_m.nimportedfuncs + g_m.nfuncs;
                ok = ok && (n < 1 || f[0] < nf) && (n < 2 || f[1] < nf);
        } else if (n > 0) {
                ok = ok && g_r1 == 0 && n * g_c1 <= N - g_pos;
                if (ok) {
                        g_pos += n * g_c1;
                }
        }
        g_xtype2 = (enum valtype)type;
        g_nexpr = 0;
        g_tt[0].et = in_bool() ? TYPE_funcref : TYPE_externref;
        g_m.tables = g_tt - (size_t)table;
        ok = ok && (!active || (table < g_m.ntables && (uint32_t)g_tt[0].et == type));
        g_bits[0] = 0;
        V_ASSUME(f[0] / 32 == f[1] / 32 || n < 2);
        g_lctx.refs.data = g_bits - (size_t)(f[0] / 32);
        int ret = read_element(&g_p, g_ep, 0, &g_elem, &g_lctx);
        V_CHECK(ret == 0 ? ok : !ok || ret == ENOMEM, "read_element");
        V_CHECK(moved(ret), "position");
        if (ret == 0) {
                V_CHECK(g_elem.mode == (active ? ELEM_MODE_ACTIVE : !(kind & 2) ? ELEM_MODE_PASSIVE : ELEM_MODE_DECLARATIVE), "mode");
                V_CHECK((uint32_t)g_elem.type == type && g_elem.init_size == n, "segment");
                V_CHECK(!active || (g_elem.table == table && g_ncalls == 1), "table");
                if (exprs) {
                        V_CHECK(g_elem.funcs == NULL && (g_elem.init_exprs != NULL) == (n > 0) && g_nexpr == n, "initializers");
                        V_CHECK((n < 1 || g_elem.init_exprs[0].start == g_buf + start) &&
                                (n < 2 || g_elem.init_exprs[1].start == g_buf + start + g_c1), "initializer");
                } else {
                        V_CHECK(g_elem.init_exprs == NULL && (n < 1 || g_elem.funcs[0] == f[0]) && (n < 2 || g_elem.funcs[1] == f[1]), "functions");
                        V_CHECK((n < 1 || ((g_bits[0] >> f[0] % 32) & 1)) && (n < 2 || ((g_bits[0] >> f[1] % 32) & 1)), "function references declared");
                }
        } else {
                V_CHECK(g_mctx.allocated == 0, "everything is released");
        }
        V_CANARY(ret == 0 && n == 2, "ok");
        V_CANARY(ret != 0 && n == 2 && g_r1 == 0, "fail");
}
//@job h_read_element0 prop=P17,P29,P05 enforce=read_element,read_vec_u32 dfcc=0 unwind=18 unwindset=_read_vec_with_ctx_impl.0:3,_read_vec_with_ctx_impl.1:3,read_element.0:3,clear_element.0:3,mem_reserve_one.0:2,mem_reserve_one.1:2 solver=cadical bounded="encodings of at most 10 bytes, segments of at most 2 entries, tables that are not imported"
void h_read_element0(void) { element_kind(0); }
//@job h_read_element1 prop=P17,P29,P05 enforce=read_element,read_vec_u32 dfcc=0 unwind=18 unwindset=_read_vec_with_ctx_impl.0:3,_read_vec_with_ctx_impl.1:3,read_element.0:3,clear_element.0:3,mem_reserve_one.0:2,mem_reserve_one.1:2 solver=cadical bounded="encodings of at most 10 bytes, segments of at most 2 entries, tables that are not imported"
void h_read_element1(void) { element_kind(1); }
//@job h_read_element2 prop=P17,P29,P05 enforce=read_element,read_vec_u32 dfcc=0 unwind=18 unwindset=_read_vec_with_ctx_impl.0:3,_read_vec_with_ctx_impl.1:3,read_element.0:3,clear_element.0:3,mem_reserve_one.0:2,mem_reserve_one.1:2 solver=cadical bounded="encodings of at most 10 bytes, segments of at most 2 entries, tables that are not imported"
void h_read_element2(void) { element_kind(2); }
//@job h_read_element3 prop=P17,P29,P05 enforce=read_element,read_vec_u32 dfcc=0 unwind=18 unwindset=_read_vec_with_ctx_impl.0:3,_read_vec_with_ctx_impl.1:3,read_element.0:3,clear_element.0:3,mem_reserve_one.0:2,mem_reserve_one.1:2 solver=cadical bounded="encodings of at most 10 bytes, segments of at most 2 entries, tables that are not imported"
void h_read_element3(void) { element_kind(3); }
//@job h_read_element4 prop=P17,P29,P05 enforce=read_element,read_vec_u32 dfcc=0 unwind=18 unwindset=_read_vec_with_ctx_impl.0:3,_read_vec_with_ctx_impl.1:3,read_element.0:3,clear_element.0:3,mem_reserve_one.0:2,mem_reserve_one.1:2 solver=cadical bounded="encodings of at most 10 bytes, segments of at most 2 entries, tables that are not imported"
void h_read_element4(void) { element_kind(4); }
//@job h_read_element5 prop=P17,P29,P05 enforce=read_element,read_vec_u32 dfcc=0 unwind=18 unwindset=_read_vec_with_ctx_impl.0:3,_read_vec_with_ctx_impl.1:3,read_element.0:3,clear_element.0:3,mem_reserve_one.0:2,mem_reserve_one.1:2 solver=cadical bounded="encodings of at most 10 bytes, segments of at most 2 entries, tables that are not imported"
void h_read_element5(void) { element_kind(5); }
//@job h_read_element6 prop=P17,P29,P05 enforce=read_element,read_vec_u32 dfcc=0 unwind=18 unwindset=_read_vec_with_ctx_impl.0:3,_read_vec_with_ctx_impl.1:3,read_element.0:3,clear_element.0:3,mem_reserve_one.0:2,mem_reserve_one.1:2 solver=cadical bounded="encodings of at most 10 bytes, segments of at most 2 entries, tables that are not imported"
void h_read_element6(void) { element_kind(6); }
//@job h_read_element7 prop=P17,P29,P05 enforce=read_element,read_vec_u32 dfcc=0 unwind=18 unwindset=_read_vec_with_ctx_impl.0:3,_read_vec_with_ctx_impl.1:3,read_element.0:3,clear_element.0:3,mem_reserve_one.0:2,mem_reserve_one.1:2 solver=cadical bounded="encodings of at most 10 bytes, segments of at most 2 entries, tables that are not imported"
void h_read_element7(void) { element_kind(7); }

/* ---- the module */
#define NS 3
static struct wasm_export g_ex[2];
static char g_exd[2][1];
static unsigned int g_seen;
static int (*g_fns[NS])(const uint8_t **pp, const uint8_t *ep, struct load_context *ctx);
static uint32_t g_szs[NS];
static int g_srets[NS];
static int
vd_section(const uint8_t **pp, const uint8_t *ep,
             int (*read_fn)(const uint8_t **pp, const uint8_t *ep, struct load_context *ctx),
             struct load_context *ctx)
{
        V_CHECK(ctx == &g_lctx && g_seen < NS, "section arguments");
        unsigned int i = g_seen++;
        g_fns[i] = read_fn;
        g_szs[i] = (uint32_t)(ep - *pp);
        if (g_srets[i] == 0) {
                if (i == 0) {
                        g_m.nexports = 2;
                        g_m.exports = g_ex;
                }
                *pp = ep;
        }
        return g_srets[i];
}
static void
vd_qsort(void *base, size_t n, size_t sz, int (*cmp)(const void *, const void *))
{
        V_CHECK(sz == sizeof(struct wasm_export), "sort arguments");
        if (n == 2) {
                struct wasm_export *e = base;
                if (cmp(&e[0], &e[1]) > 0) {
                        struct wasm_export t = e[0];
                        e[0] = e[1];
                        e[1] = t;
                }
        }
}
static unsigned int
s_order(uint8_t id)
{
        /* custom type import function table memory global export start element code data datacount tag */
        static const uint8_t order[14] = {0, 1, 2, 3, 4, 5, 7, 8, 9, 10, 12, 13, 11, 6};
        return order[id];
}
static bool
s_reader(uint8_t id, int (*fn)(const uint8_t **pp, const uint8_t *ep, struct load_context *ctx))
{
        switch (id) {
        case 0: return fn == read_custom_section;
        case 1: return fn == read_type_section;
        case 2: return fn == read_import_section;
        case 3: return fn == read_function_section;
        case 4: return fn == read_table_section;
        case 5: return fn == read_memory_section;
        case 6: return fn == read_global_section;
        case 7: return fn == read_export_section;
        case 8: return fn == read_start_section;
        case 9: return fn == read_element_section;
        case 10: return fn == read_code_section;
        case 11: return fn == read_data_section;
        case 12: return fn == read_datacount_section;
        default: return fn == read_tag_section;
        }
}
//@job h_module_load_into prop=P17,P19 enforce=module_load_into,section_load dfcc=0 unwind=18 unwindset=module_load_into.0:5 solver=cadical bounded="at most 3 sections in 17 bytes, 2 exports with one-byte names"
void
h_module_load_into(void)
{
        setup_buf(N);
        g_seen = 0;
        unsigned int i;
        for (i = 0; i < NS; i++) {
                g_srets[i] = (int)in_u32();
        }
        for (i = 0; i < 2; i++) {
                g_exd[i][0] = (char)in_u8();
                g_ex[i].name.nbytes = 1;
                g_ex[i].name.data = g_exd[i];
                g_ex[i].desc.idx = i;
        }
        g_lctx.has_datacount = in_bool();
        g_lctx.ndatas_in_datacount = in_u32();
        unsigned int len = N - g_pos;
        bool ok = len >= 8;
        static const uint8_t head[8] = {0, 'a', 's', 'm', 1, 0, 0, 0};
        for (i = 0; i < 8; i++) {
                ok = ok && g_buf[g_pos + i] == head[i];
        }
        g_pos += 8;
        uint8_t ids[NS];
        uint32_t szs[NS];
        unsigned int n = 0, order = 0;
        for (i = 0; i < NS; i++) {
                if (!ok || g_pos == N) {
                        break;
                }
                ok = s_u8(&ids[i]) && s_leb(&szs[i]) && szs[i] <= N - g_pos && ids[i] <= 13;
                if (ok && ids[i] != 0) {
                        ok = s_order(ids[i]) > order;
                        order = s_order(ids[i]);
                }
                if (ok) {
                        n++;
                        ok = g_srets[i] == 0;
                        g_pos += szs[i];
                }
        }
        V_ASSUME(!ok || g_pos == N); /* at most NS sections */
        int ret = module_load_into(&g_m, g_p, g_ep, &g_lctx);
        V_CHECK(g_seen == n, "the sections are read");
        for (i = 0; i < n; i++) {
                V_CHECK(s_reader(ids[i], g_fns[i]) && g_szs[i] == szs[i], "section dispatch");
        }
        ok = ok && !(n > 0 && g_exd[0][0] == g_exd[1][0]) && !(g_lctx.has_datacount && g_lctx.ndatas_in_datacount != 0);
        V_CHECK((ret == 0) == ok, "module_load_into");
        V_CHECK(ret != 0 || n == 0 || compare_name(&g_m.exports[0].name, &g_m.exports[1].name) < 0, "exports are sorted");
        V_CANARY(ret == 0 && n == 3 && ids[0] == 0 && ids[1] == 5 && ids[2] == 13, "sections");
        V_CANARY(ret != 0 && n == 2 && g_seen == 2 && ids[0] == 12 && ids[1] == 10 && g_srets[0] == 0 && g_srets[1] == 0, "duplicate name");
        V_CANARY(ret != 0 && n == 1 && ids[0] == 13 && g_srets[0] == 0 && ids[1] == 5 && szs[1] == 0, "order");
}
