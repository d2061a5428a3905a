"""Contracts of the validators of the instructions without control flow.

One table, keyed by opcode, from the WebAssembly specification: immediates,
operand types, result types.  Instructions with the same rule share a job.
"""
import collections
import os

import oplist

HEAD = """//@family base=insn
//@stub *read_leb_u32 it reads a number at the position; value and length are functions of the position (P16)
//@stub *read_leb_i32 (the same)
//@stub *read_leb_i64 (the same)
//@stub *read_leb_s (the same)
//@stub *read_leb_u32_nocheck (the same)
//@stub *read_leb_i32_nocheck (the same)
//@stub *read_leb_i64_nocheck (the same)
//@stub *read_leb_s33_nocheck (the same)
//@stub *module_tabletype it gives the type of a table which exists (P18)
//@stub *module_globaltype it gives the type of a global which exists (P18)
//@stub *module_functype it gives the type of a function which exists (P18)
//@stub *module_tagtype it gives the type of a tag which exists (P18)
//@stub *module_tagtype_functype it gives the function type of a tag which exists (P18)
//@stub *array_extend it fails, or makes room (P32)
//@stub *read_vec_u32 it reads up to 2 numbers (P17)
//@stub table_init it is not called: validators do not execute
//@trusted memcpy (as a loop over bytes)
#define V_N_read_leb_u32 real_read_leb_u32
#define V_N_read_leb_i32 real_read_leb_i32
#define V_N_read_leb_i64 real_read_leb_i64
#define V_N_read_leb_s real_read_leb_s
#define V_N_read_leb_u32_nocheck real_read_leb_u32_nocheck
#define V_N_read_leb_i32_nocheck real_read_leb_i32_nocheck
#define V_N_read_leb_i64_nocheck real_read_leb_i64_nocheck
#define V_N_read_leb_s33_nocheck real_read_leb_s33_nocheck
#define V_N_module_tabletype real_module_tabletype
#define V_N_module_globaltype real_module_globaltype
#define V_N_module_functype real_module_functype
#define V_N_module_tagtype real_module_tagtype
#define V_N_module_tagtype_functype real_module_tagtype_functype
#define V_N_read_vec_u32 real_read_vec_u32
#define V_N_array_extend real_array_extend
#include "bytes.h"
#include "verif.h"
#include "type.h"
#include "exec_context.h"
#include "instance.h"
#include "valid_common.h"
"""

T = {"i": "i32", "I": "i64", "f": "f32", "F": "f64", "v": "v128"}
R = collections.OrderedDict()   # (prefix, opcode) -> (immediates, operands, results)


def r(pre, lo, hi, sig, imm=""):
    a, b = sig.split(">")
    for o in range(lo, hi + 1):
        R[(pre, o)] = (imm, a, b)


# numeric
r("", 0x45, 0x45, "i>i")
r("", 0x46, 0x4f, "ii>i")
r("", 0x50, 0x50, "I>i")
r("", 0x51, 0x5a, "II>i")
r("", 0x5b, 0x60, "ff>i")
r("", 0x61, 0x66, "FF>i")
r("", 0x67, 0x69, "i>i")
r("", 0x6a, 0x78, "ii>i")
r("", 0x79, 0x7b, "I>I")
r("", 0x7c, 0x8a, "II>I")
r("", 0x8b, 0x91, "f>f")
r("", 0x92, 0x98, "ff>f")
r("", 0x99, 0x9f, "F>F")
r("", 0xa0, 0xa6, "FF>F")
r("", 0xa7, 0xa7, "I>i")
r("", 0xa8, 0xa9, "f>i")
r("", 0xaa, 0xab, "F>i")
r("", 0xac, 0xad, "i>I")
r("", 0xae, 0xaf, "f>I")
r("", 0xb0, 0xb1, "F>I")
r("", 0xb2, 0xb3, "i>f")
r("", 0xb4, 0xb5, "I>f")
r("", 0xb6, 0xb6, "F>f")
r("", 0xb7, 0xb8, "i>F")
r("", 0xb9, 0xba, "I>F")
r("", 0xbb, 0xbb, "f>F")
r("", 0xbc, 0xbc, "f>i")
r("", 0xbd, 0xbd, "F>I")
r("", 0xbe, 0xbe, "i>f")
r("", 0xbf, 0xbf, "I>F")
r("", 0xc0, 0xc1, "i>i")
r("", 0xc2, 0xc4, "I>I")
r("fc", 0, 1, "f>i")
r("fc", 2, 3, "F>i")
r("fc", 4, 5, "f>I")
r("fc", 6, 7, "F>I")
# constants
r("", 0x41, 0x41, ">i", "leb")
r("", 0x42, 0x42, ">I", "leb")
r("", 0x43, 0x43, ">f", "skip4")
r("", 0x44, 0x44, ">F", "skip8")
# loads and stores
for o, t, al in ((0x28, "i", 2), (0x29, "I", 3), (0x2a, "f", 2), (0x2b, "F", 3), (0x2c, "i", 0), (0x2d, "i", 0),
                 (0x2e, "i", 1), (0x2f, "i", 1), (0x30, "I", 0), (0x31, "I", 0), (0x32, "I", 1),
                 (0x33, "I", 1), (0x34, "I", 2), (0x35, "I", 2)):
    r("", o, o, "i>" + t, "mem%d" % al)
for o, t, al in ((0x36, "i", 2), (0x37, "I", 3), (0x38, "f", 2), (0x39, "F", 3), (0x3a, "i", 0), (0x3b, "i", 1),
                 (0x3c, "I", 0), (0x3d, "I", 1), (0x3e, "I", 2)):
    r("", o, o, "i" + t + ">", "mem%d" % al)
r("", 0x3f, 0x3f, ">i", "memidx")
r("", 0x40, 0x40, "i>i", "memidx")
# vectors
r("fd", 0, 0, "i>v", "mem4")
r("fd", 1, 6, "i>v", "mem3")
for k in range(4):
    r("fd", 7 + k, 7 + k, "i>v", "mem%d" % k)
r("fd", 11, 11, "iv>", "mem4")
r("fd", 12, 12, ">v", "skip16")
r("fd", 13, 13, "vv>v", "shuffle")
r("fd", 14, 14, "vv>v")
for k, t in enumerate("iiiIfF"):
    r("fd", 15 + k, 15 + k, t + ">v")
for lo, n, t, ne in ((21, 16, "i", 2), (24, 8, "i", 2), (27, 4, "i", 1), (29, 2, "I", 1), (31, 4, "f", 1), (33, 2, "F", 1)):
    r("fd", lo, lo + ne - 1, "v>" + t, "lane%d" % n)
    r("fd", lo + ne, lo + ne, "v" + t + ">v", "lane%d" % n)
r("fd", 0x23, 0x4c, "vv>v")
r("fd", 0x4d, 0x4d, "v>v")
r("fd", 0x4e, 0x51, "vv>v")
r("fd", 0x52, 0x52, "vvv>v")
r("fd", 0x53, 0x53, "v>i")
for k in range(4):
    r("fd", 0x54 + k, 0x54 + k, "iv>v", "mem%d lane%d" % (k, 16 >> k))
    r("fd", 0x58 + k, 0x58 + k, "iv>", "mem%d lane%d" % (k, 16 >> k))
r("fd", 0x5c, 0x5c, "i>v", "mem2")
r("fd", 0x5d, 0x5d, "i>v", "mem3")
r("fd", 0x5e, 0x5f, "v>v")
for b in (0x60, 0x80, 0xa0, 0xc0):
    r("fd", b, b + 1, "v>v")
    r("fd", b + 3, b + 4, "v>i")
    r("fd", b + 0xb, b + 0xd, "vi>v")
    for o in {0x60: (0x65, 0x66, 0x6e, 0x6f, 0x70, 0x71, 0x72, 0x73, 0x76, 0x77, 0x78, 0x79, 0x7b),
              0x80: (0x82, 0x85, 0x86, 0x8e, 0x8f, 0x90, 0x91, 0x92, 0x93, 0x95, 0x96, 0x97, 0x98, 0x99, 0x9b,
                     0x9c, 0x9d, 0x9e, 0x9f),
              0xa0: (0xae, 0xb1, 0xb5, 0xb6, 0xb7, 0xb8, 0xb9, 0xba, 0xbc, 0xbd, 0xbe, 0xbf),
              0xc0: (0xce, 0xd1, 0xd5, 0xd6, 0xd7, 0xd8, 0xd9, 0xda, 0xdb, 0xdc, 0xdd, 0xde, 0xdf)}[b]:
        r("fd", o, o, "vv>v")
    for o in {0x60: (0x62, 0x67, 0x68, 0x69, 0x6a, 0x74, 0x75, 0x7a, 0x7c, 0x7d, 0x7e, 0x7f),
              0x80: (0x87, 0x88, 0x89, 0x8a, 0x94), 0xa0: (0xa7, 0xa8, 0xa9, 0xaa),
              0xc0: (0xc7, 0xc8, 0xc9, 0xca)}[b]:
        r("fd", o, o, "v>v")
for b in (0xe0, 0xec):
    r("fd", b, b + 1, "v>v")
    r("fd", b + 3, b + 3, "v>v")
    r("fd", b + 4, b + 11, "vv>v")
r("fd", 0xf8, 0xff, "v>v")
# atomics
r("fe", 0, 0, "ii>i", "amem2")
r("fe", 1, 1, "iiI>i", "amem2")
r("fe", 2, 2, "iII>i", "amem3")
r("fe", 3, 3, ">", "zero")
for k, (t, al) in enumerate((("i", 2), ("I", 3), ("i", 0), ("i", 1), ("I", 0), ("I", 1), ("I", 2))):
    r("fe", 0x10 + k, 0x10 + k, "i>" + t, "amem%d" % al)
    r("fe", 0x17 + k, 0x17 + k, "i" + t + ">", "amem%d" % al)
    for b in (0x1e, 0x25, 0x2c, 0x33, 0x3a, 0x41):
        r("fe", b + k, b + k, "i" + t + ">" + t, "amem%d" % al)
    r("fe", 0x48 + k, 0x48 + k, "i" + t + t + ">" + t, "amem%d" % al)

# rules with the types of the module's things
SPECIAL = {
    ("", 0x00): ("unreachable", "s_unreachable();", 0),
    ("", 0x01): ("nop", "", 0),
    ("", 0x1a): ("drop", "s_annot(s_pop(TYPE_UNKNOWN));", 0),
    ("", 0x1b): ("select", """s_pop(TYPE_i32);
        enum valtype t = s_pop(TYPE_UNKNOWN);
        s_pop(t);
        s_require(!s_ref(t));
        s_annot(t);
        s_push(t);""", 0),
    ("", 0x1c): ("select_t", """s_require(s_idx() == 1);
        uint8_t t = s_byte();
        s_require(s_valtype(t));
        s_pop(TYPE_i32);
        s_pop(t);
        s_pop(t);
        s_push(t);""", 1),
    ("", 0x20): ("local_get", """uint32_t i = s_idx();
        s_require(i < g_v.locals.lsize);
        s_push(g_locals[i & 1]);""", 1),
    ("", 0x21): ("local_set", """uint32_t i = s_idx();
        s_require(i < g_v.locals.lsize);
        s_pop(g_locals[i & 1]);""", 1),
    ("", 0x22): ("local_tee", """uint32_t i = s_idx();
        s_require(i < g_v.locals.lsize);
        s_pop(g_locals[i & 1]);
        s_push(g_locals[i & 1]);""", 1),
    ("", 0x23): ("global_get", """uint32_t i = s_idx();
        s_require(i < g_mod.nimportedglobals + g_mod.nglobals);
        s_require(!g_v.const_expr || (i < g_mod.nimportedglobals && g_gt[i & 1].mut == GLOBAL_CONST));
        s_push(g_gt[i & 1].t);""", 1),
    ("", 0x24): ("global_set", """uint32_t i = s_idx();
        s_require(i < g_mod.nimportedglobals + g_mod.nglobals);
        s_require(g_gt[i & 1].mut == GLOBAL_VAR);
        s_pop(g_gt[i & 1].t);""", 1),
    ("", 0x25): ("table_get", """uint32_t i = s_idx();
        s_require(i < g_mod.nimportedtables + g_mod.ntables);
        s_pop(TYPE_i32);
        s_push(g_tt[i & 1].et);""", 1),
    ("", 0x26): ("table_set", """uint32_t i = s_idx();
        s_require(i < g_mod.nimportedtables + g_mod.ntables);
        s_pop(g_tt[i & 1].et);
        s_pop(TYPE_i32);""", 1),
    ("", 0xd0): ("ref_null", """uint8_t t = s_byte();
        s_require(s_ref(t));
        s_push(t);""", 0),
    ("", 0xd1): ("ref_is_null", """s_annot(s_pop(TYPE_ANYREF));
        s_push(TYPE_i32);""", 0),
    ("", 0xd2): ("ref_func", """uint32_t i = s_idx();
        s_require(i < g_mod.nimportedfuncs + g_mod.nfuncs);
        s_require(g_v.const_expr || s_bit(i));
        s_refbit = g_v.const_expr && s_ok;
        s_ref_i = i;
        s_push(TYPE_funcref);""", 1),
    ("fc", 8): ("memory_init", """uint32_t d = s_idx();
        uint32_t m = s_idx();
        s_require(g_v.has_datacount && d < g_v.ndatas_in_datacount);
        s_require(m < g_mod.nimportedmems + g_mod.nmems);
        s_pop(TYPE_i32);
        s_pop(TYPE_i32);
        s_pop(TYPE_i32);""", 1),
    ("fc", 9): ("data_drop", """uint32_t d = s_idx();
        s_require(g_v.has_datacount && d < g_v.ndatas_in_datacount);""", 1),
    ("fc", 10): ("memory_copy", """uint32_t a = s_idx();
        uint32_t b = s_idx();
        s_require(a < g_mod.nimportedmems + g_mod.nmems);
        s_require(b < g_mod.nimportedmems + g_mod.nmems);
        s_pop(TYPE_i32);
        s_pop(TYPE_i32);
        s_pop(TYPE_i32);""", 1),
    ("fc", 11): ("memory_fill", """uint32_t a = s_idx();
        s_require(a < g_mod.nimportedmems + g_mod.nmems);
        s_pop(TYPE_i32);
        s_pop(TYPE_i32);
        s_pop(TYPE_i32);""", 1),
    ("fc", 12): ("table_init", """uint32_t e = s_idx();
        uint32_t t = s_idx();
        s_require(t < g_mod.nimportedtables + g_mod.ntables);
        s_require(e < g_mod.nelems);
        s_require(g_tt[t & 1].et == g_elem[e & 1].type);
        s_pop(TYPE_i32);
        s_pop(TYPE_i32);
        s_pop(TYPE_i32);""", 1),
    ("fc", 13): ("elem_drop", """uint32_t e = s_idx();
        s_require(e < g_mod.nelems);""", 1),
    ("fc", 14): ("table_copy", """uint32_t a = s_idx();
        uint32_t b = s_idx();
        s_require(a < g_mod.nimportedtables + g_mod.ntables);
        s_require(b < g_mod.nimportedtables + g_mod.ntables);
        s_require(g_tt[a & 1].et == g_tt[b & 1].et);
        s_pop(TYPE_i32);
        s_pop(TYPE_i32);
        s_pop(TYPE_i32);""", 1),
    ("fc", 15): ("table_grow", """uint32_t a = s_idx();
        s_require(a < g_mod.nimportedtables + g_mod.ntables);
        s_pop(TYPE_i32);
        s_pop(g_tt[a & 1].et);
        s_push(TYPE_i32);""", 1),
    ("fc", 16): ("table_size", """uint32_t a = s_idx();
        s_require(a < g_mod.nimportedtables + g_mod.ntables);
        s_push(TYPE_i32);""", 1),
    ("fc", 17): ("table_fill", """uint32_t a = s_idx();
        s_require(a < g_mod.nimportedtables + g_mod.ntables);
        s_pop(TYPE_i32);
        s_pop(g_tt[a & 1].et);
        s_pop(TYPE_i32);""", 1),
}
# how the sources skip over these without a module is of no interest
NOSKIP = {("", 0x21), ("", 0x22)}

EXTRA = r"""
static struct element g_elem[2];
static uint32_t g_bits[2]; /* functions which may be referred to, 64 of them */
static struct bitmap g_bm;
static bool s_refbit;
static uint32_t s_ref_i;
static bool s_an;
static enum valtype s_an_t;
static bool
s_bit(uint32_t i)
{
        return i < 64 && (g_bits[i / 32] & ((uint32_t)1 << (i % 32))) != 0;
}
/* the instruction depends on the type: it is noted for the execution */
static void
s_annot(enum valtype t)
{
        s_an = s_ok && !s_un;
        s_an_t = t;
}
static struct type_annotations g_ta0;
/* the size of the value for the code at pc, as the execution looks it up */
static uint32_t
s_size_at(const struct type_annotations *an, uint32_t pc)
{
        uint32_t i, sz = an->default_size;
        for (i = 0; i < 3 && i < an->ntypes; i++) {
                if (an->types[i].pc <= pc) {
                        sz = an->types[i].size;
                }
        }
        return sz;
}
static void
setup_module(void)
{
        uint32_t i;
        g_mod.nimportedtables = in_u32();
        g_mod.ntables = in_u32();
        g_mod.nimportedglobals = in_u32();
        g_mod.nglobals = in_u32();
        g_mod.nimportedfuncs = in_u8();
        g_mod.nfuncs = in_u8();
        V_ASSUME(g_mod.nimportedtables <= UINT32_MAX - g_mod.ntables);
        V_ASSUME(g_mod.nimportedglobals <= UINT32_MAX - g_mod.nglobals);
        V_ASSUME(g_mod.nimportedfuncs + g_mod.nfuncs <= 64);
        g_mod.nelems = in_u8();
        V_ASSUME(g_mod.nelems <= 2);
        g_mod.elems = g_elem;
        g_v.has_datacount = in_bool();
        g_v.ndatas_in_datacount = in_u32();
        g_v.const_expr = in_bool();
        for (i = 0; i < 2; i++) {
                g_tt[i].et = in_valtype();
                V_ASSUME(s_ref(g_tt[i].et));
                g_elem[i].type = in_valtype();
                V_ASSUME(s_ref(g_elem[i].type));
                g_gt[i].t = in_valtype();
                g_gt[i].mut = in_bool() ? GLOBAL_VAR : GLOBAL_CONST;
                g_locals[i] = in_valtype();
                g_bits[i] = in_u32();
        }
        g_v.locals.p = g_locals;
        g_v.locals.lsize = in_u8();
        V_ASSUME(g_v.locals.lsize <= 2);
        g_v.locals.psize = 2;
        g_bm.data = g_bits;
        g_v.refs = &g_bm;
        s_an = false;
        s_refbit = false;
        g_ta0 = g_ei.type_annotations;
}
static void
check_notes(int ret)
{
        uint32_t pc = (uint32_t)(g_p0 - g_buf);
        uint32_t other = in_u8();
        if (ret == 0 && s_ok) {
                if (s_an) {
                        V_CHECK(s_size_at(&g_ei.type_annotations, pc) == s_csz(s_an_t),
                                "the size of the value is noted for the execution");
                } else {
                        V_CHECK(g_ei.type_annotations.ntypes == g_ta0.ntypes &&
                                        g_ei.type_annotations.default_size == g_ta0.default_size,
                                "nothing is noted for the execution");
                }
                if (other < pc && g_ta0.default_size != 0) {
                        V_CHECK(s_size_at(&g_ei.type_annotations, other) == s_size_at(&g_ta0, other),
                                "notes for earlier code are kept");
                }
                if (s_refbit) {
                        V_CHECK(s_bit(s_ref_i), "the function may be referred to");
                }
        }
}
"""


def imm(s):
    out = []
    for x in s.split():
        if x == "leb":
            out.append("s_num();")
        elif x == "memidx":
            out.append("s_require(s_idx() < g_mod.nimportedmems + g_mod.nmems);")
        elif x == "shuffle":
            out.append("uint32_t k;\n        for (k = 0; k < 16; k++) {\n                s_lane(32);\n        }")
        elif x == "zero":
            out.append("s_require(s_byte() == 0);")
        elif x.startswith("skip"):
            out.append("s_skip(%s);" % x[4:])
        elif x.startswith("amem"):
            out.append("s_memarg(%s, true);" % x[4:])
        elif x.startswith("mem"):
            out.append("s_memarg(%s, false);" % x[3:])
        elif x.startswith("lane"):
            out.append("s_lane(%s);" % x[4:])
    return "\n        ".join(out)


def job(name, fns, rule, about, nlebs, nin, nout, extra, prop, skip=True):
    maxn = 4 if extra else max(nin + 1, 2)
    run = []
    for f in fns:
        run.append("""        restore_valid();
        RUN(process_%(f)s);
        check_valid(ret, p);
        %(notes)s
%(can)s%(skip)s""" % dict(
            f=f, notes="check_notes(ret);" if extra else "",
            can="" if f != fns[-1] else '        V_CANARY(ret == 0, "%s accepted");\n' % f +
                ("" if not rule or "s_unreachable" in rule else '        V_CANARY(ret != 0, "%s rejected");\n' % f),
            skip="        SKIP(process_%s);\n" % f if skip else ""))
    return """
//@job %(name)s prop=%(prop)s enforce=process_%(f0)s dfcc=0 unwind=%(unw)d unwindset=setup_imm.0:25,setup_valid.0:5,s_begin.0:5 timeout=300 about="%(about)s"
void
%(name)s(void)
{
        const uint8_t *p = NULL, *sp = NULL;
        int ret = 0;
        setup_valid(%(maxn)d);
        setup_imm(%(nlebs)d);
        %(mod)s
        s_begin(%(maxn)d);
        %(rule)s
%(run)s}
""" % dict(name=name, prop=prop, f0=fns[0], unw=18 if "16" in rule else 5, about=about, maxn=maxn, nlebs=nlebs,
           mod="setup_module();" if extra else "", rule=rule, run="".join(run))


CONST = [0x0b, 0x23, 0x41, 0x42, 0x43, 0x44, 0x6a, 0x6b, 0x6c, 0x7c, 0x7d, 0x7e, 0xd0, 0xd2]


def dispatch():
    return """
//@job h_vc_const prop=P14 enforce=fetch_process_next_insn dfcc=0 unwind=11 unwindset=setup_imm.0:25 timeout=300 about="in a constant expression, instructions which are not constant are rejected"
void
h_vc_const(void)
{
        const uint8_t *p;
        setup_ctl();
        g_mod.nimportedfuncs = g_mod.nfuncs = 0; /* (ref.func is h_valid_ref_func's) */
        g_mod.nimportedglobals = in_u32();
        g_mod.nglobals = in_u32();
        V_ASSUME(g_mod.nimportedglobals <= UINT32_MAX - g_mod.nglobals);
        g_gt[0].t = in_valtype();
        g_gt[1].t = in_valtype();
        g_v.const_expr = true;
        p = g_p0;
        int ret = fetch_process_next_insn(&p, g_ep, &g_c);
        uint8_t op = s_byte();
        uint32_t sub = 0;
        if (s_ok && op >= 0xfc && op <= 0xfe) {
                sub = s_idx();
                s_require(op == 0xfd && sub == 12);
        } else {
                s_require(%s);
        }
        V_CHECK(s_ok || ret == EINVAL, "constant expressions have constant instructions only");
%s}
""" % (" || ".join("op == 0x%02x" % o for o in CONST),
       "".join('        V_CANARY(ret == 0 && op == 0x%02x, "%02x");\n' % (o, o) for o in CONST if o != 0xd2))


def generate(repo):
    table = oplist.table(repo)
    groups = collections.OrderedDict()
    for k, v in R.items():
        if k in table:
            groups.setdefault(v, []).append((k, table[k]))
    out = [HEAD]
    for (im, a, b), fs in groups.items():
        CH = 3 if "mem" in im else 8  # instructions in a job
        for c in range(0, len(fs), CH):
            part = fs[c:c + CH]
            rule = imm(im)
            rule += "".join("\n        s_pop(TYPE_%s);" % T[t] for t in reversed(a))
            rule += "".join("\n        s_push(TYPE_%s);" % T[t] for t in b)
            nm = "h_valid_%s_%s%s" % (a or "n", b or "n", "_" + im.replace(" ", "_") if im else "")
            if len(fs) > CH:
                nm += "_%d" % (c // CH)
            nm = nm.replace("I", "l").replace("F", "d")
            ab = "%d instructions of type [%s] -> [%s] %s" % (
                len(part), " ".join(T[t] for t in a), " ".join(T[t] for t in b), im and "immediates " + im)
            out.append(job(nm, [f for _, f in part], rule.strip(), ab,
                           1 if "mem" in im or "leb" in im else 0, len(a), len(b), False,
                           "P15" if "amem" in im or "lane" in im else "P14,P15" if im else "P14"))
    sp = [HEAD, EXTRA]
    for k, (n, rule, nl) in SPECIAL.items():
        if k not in table:
            continue
        sp.append(job("h_valid_" + n, [table[k]], rule, "%s: operand, immediate and result types" % n, nl, 0, 0, True,
                      "P14,P15", k not in NOSKIP))
    return [("valid_num", "\n".join(out)), ("valid_var", "\n".join(sp)),
            ("valid_ctl", HEAD + open(os.path.join(os.path.dirname(os.path.abspath(__file__)), "valid_ctl.h")).read()
             + dispatch())]
