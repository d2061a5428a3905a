"""Generates the contracts of the scalar numeric instructions (P07, P08).

The opcode -> function mapping is read from the instruction list of the
sources under test; the specification is keyed by opcode.
"""
import oplist

I32, I64, F32, F64 = "i32", "i64", "f32", "f64"
NC = {I32: 1, I64: 2, F32: 1, F64: 2}

OPS = []  # (prefix, op, name, ins, out, traps[(cond,id)], ok-expression over r, opts)


def op(code, name, ins, out, expr=None, ok=None, traps=(), pre="", prop="P07", **o):
    if ok is None:
        ok = "r == (%s)" % expr
    OPS.append((pre, code, name, ins, out, list(traps), ok, prop, o))


for w, t, base, cmpb in ((32, I32, 0x67, 0x45), (64, I64, 0x79, 0x50)):
    u, s = "uint%d_t" % w, "int%d_t" % w
    n = t + "."
    op(cmpb, n + "eqz", [t], I32, "a == 0")
    for i, (nm, c, sg) in enumerate([
            ("eq", "==", 0), ("ne", "!=", 0), ("lt_s", "<", 1), ("lt_u", "<", 0),
            ("gt_s", ">", 1), ("gt_u", ">", 0), ("le_s", "<=", 1), ("le_u", "<=", 0),
            ("ge_s", ">=", 1), ("ge_u", ">=", 0)]):
        # signed order = unsigned order after flipping the sign bit
        f = "^ ((%s)1 << %d)" % (u, w - 1) if sg else ""
        op(cmpb + 1 + i, n + nm, [t, t], I32, "(a %s) %s (b %s)" % (f, c, f))
    op(base, n + "clz", [t], t, ok="a == 0 ? r == %d : (r < %d && (a >> (%d - r)) == 1)" % (w, w, w - 1))
    op(base + 1, n + "ctz", [t], t,
       ok="a == 0 ? r == %d : (r < %d && ((a >> r) & 1) == 1 && (a & (((%s)1 << r) - 1)) == 0)" % (w, w, u))
    op(base + 2, n + "popcnt", [t], t, ok="r == spec_popcnt(a)", unwind=66, solver="kissat")
    op(base + 3, n + "add", [t, t], t, "(%s)(a + b)" % u)
    op(base + 4, n + "sub", [t, t], t, "(%s)(a - b)" % u)
    op(base + 5, n + "mul", [t, t], t, "(%s)(a * b)" % u, solver="kissat", fixed=1)
    z = ("b == 0", "TRAP_DIV_BY_ZERO")
    mn = "((%s)1 << %d)" % (u, w - 1)
    ov = ("a == %s && b == (%s)-1" % (mn, u), "TRAP_INTEGER_OVERFLOW")
    wide = "uint64_t" if w == 32 else "unsigned __int128"
    K = dict(solver="kissat", fixed=1, timeout=500)
    sp = [("_%s%s" % ("np"[1 - x], "np"[1 - y]), "(a >> %d) == %d && (b >> %d) == %d" % (w - 1, x, w - 1, y), {})
          for x in (0, 1) for y in (0, 1)]
    if w == 64:
        sp = [x for y in sp for x in ([y] if y[0] in ("_pp", "_nn") else
              [(y[0], y[1] + " && mag64(a) < UINT64_C(1) << 40",
                dict(bounded="dividends of magnitude below 2^40 when the operand signs differ; all operands in the thorough tier")),
               (y[0] + "_full", y[1], dict(tier="thorough", timeout=1500))])]
    rq = [("", "(g_maxq = 2, true)", dict(bounded="exact remainder only for quotients below 2 and power-of-two divisors; range and sign for all operands"))]
    rf = [("_full", "(g_maxq = 8, true)", dict(bounded="exact remainder only for quotients below 8 and power-of-two divisors; range and sign for all operands",
          tier="thorough", timeout=1500))]
    op(base + 6, n + "div_s", [t, t], t, ok="div_s%d_ok(a, b, r)" % w, traps=[z, ov], split=sp, **K)
    op(base + 7, n + "div_u", [t, t], t, ok="div_u%d_ok(a, b, r)" % w, traps=[z], **K)
    op(base + 8, n + "rem_s", [t, t], t, ok="rem_s%d_ok(a, b, r)" % w, traps=[z], split=rq + rf, **K)
    op(base + 9, n + "rem_u", [t, t], t, ok="rem_u%d_ok(a, b, r)" % w, traps=[z], split=rq + rf, **K)
    op(base + 10, n + "and", [t, t], t, "a & b")
    op(base + 11, n + "or", [t, t], t, "a | b")
    op(base + 12, n + "xor", [t, t], t, "a ^ b")
    k = "(b %% %d)" % w
    op(base + 13, n + "shl", [t, t], t, "(%s)(a << %s)" % (u, k))
    op(base + 14, n + "shr_s", [t, t], t,
       "(a >> %s) | ((a >> %d) != 0 && %s != 0 ? ~(((%s)-1) >> %s) : 0)" % (k, w - 1, k, u, k))
    op(base + 15, n + "shr_u", [t, t], t, "a >> %s" % k)
    op(base + 16, n + "rotl", [t, t], t, "%s == 0 ? a : ((a << %s) | (a >> (%d - %s)))" % (k, k, w, k))
    op(base + 17, n + "rotr", [t, t], t, "%s == 0 ? a : ((a >> %s) | (a << (%d - %s)))" % (k, k, w, k))


def sx(frm, to):
    u = "uint%d_t" % to
    m = "((%s)1 << %d)" % (u, frm)
    return "((a & (%s - 1)) ^ (%s >> 1)) - (%s >> 1)" % (m, m, m)


op(0xa7, "i32.wrap_i64", [I64], I32, "(uint32_t)(a & 0xffffffff)")
op(0xac, "i64.extend_i32_s", [I32], I64, "(uint64_t)a | (a >> 31 ? 0xffffffff00000000 : 0)")
op(0xad, "i64.extend_i32_u", [I32], I64, "(uint64_t)a")
op(0xc0, "i32.extend8_s", [I32], I32, "(uint32_t)(%s)" % sx(8, 32))
op(0xc1, "i32.extend16_s", [I32], I32, "(uint32_t)(%s)" % sx(16, 32))
op(0xc2, "i64.extend8_s", [I64], I64, sx(8, 64))
op(0xc3, "i64.extend16_s", [I64], I64, sx(16, 64))
op(0xc4, "i64.extend32_s", [I64], I64, sx(32, 64))

# ---- floats.  fa/fb: operands as float/double, a/b their bits
for w, t, cb, ab in ((32, F32, 0x5b, 0x8b), (64, F64, 0x61, 0x99)):
    n = t + "."
    F = dict(prop="P08")
    u = "uint%d_t" % w
    sign = "((%s)1 << %d)" % (u, w - 1)
    for i, (nm, e) in enumerate([
            ("eq", "!un && (a == b || bothzero)"),
            ("ne", "!(!un && (a == b || bothzero))"),
            ("lt", "!un && flt%d(a, b)" % w), ("gt", "!un && flt%d(b, a)" % w),
            ("le", "!un && !flt%d(b, a)" % w), ("ge", "!un && !flt%d(a, b)" % w)]):
        e = e.replace("un", "(isnan%d(a) || isnan%d(b))" % (w, w)).replace(
            "bothzero", "((a | b) & ~%s) == 0" % sign)
        op(cb + i, n + nm, [t, t], I32, e, **F)
    op(ab, n + "abs", [t], t, "a & ~%s" % sign, **F)
    op(ab + 1, n + "neg", [t], t, "a ^ %s" % sign, **F)
    for i, nm in enumerate(["ceil", "floor", "trunc", "nearest"]):
        op(ab + 2 + i, n + nm, [t], t, ok="%s%d_ok(a, r)" % (nm, w), prop="P08",
           solver="kissat", fixed=1, timeout=400)
    op(ab + 6, n + "sqrt", [t], t,
       ok="feq%d(r, f%das(__CPROVER_uninterpreted_sqrt%d(asf%d(a))))" % (w, w, w, w),
       prop="P08", fixed=1, defs="sqrt")
    KF = dict(prop="P08", solver="kissat", fixed=1, timeout=600)
    for i, (nm, c) in enumerate([("add", "+"), ("sub", "-"), ("mul", "*"), ("div", "/")]):
        ko = dict(KF)
        if t + nm in ("f64mul", "f32div", "f64div"):
            # the multiplier/divider circuits are beyond the solver at full width
            sb = 10 if nm == "mul" else 3
            ko["split"] = [("", "(a & FMASK%d(%d)) == 0 && (b & FMASK%d(%d)) == 0" % (w, sb, w, sb),
                            dict(bounded="operands whose significand has at most %d bits (any sign and exponent)" % sb))]
        if nm == "div":
            ko["split"].append(("_pow2", "(b & FMASK%d(0)) == 0" % w, dict(
                bounded="divisors with a zero fraction (powers of two, zeros, infinities)")))
        op(ab + 7 + i, n + nm, [t, t], t,
           ok="feq%d(r, f%das(asf%d(a) %s asf%d(b)))" % (w, w, w, c, w), **ko)
    op(ab + 11, n + "min", [t, t], t,
       "isnan%d(a) || isnan%d(b) ? (isnan%d(r) ? r : ~r) : flt0%d(b, a) ? b : a" % (w, w, w, w), **F)
    op(ab + 12, n + "max", [t, t], t,
       "isnan%d(a) || isnan%d(b) ? (isnan%d(r) ? r : ~r) : flt0%d(b, a) ? a : b" % (w, w, w, w), **F)
    op(ab + 13, n + "copysign", [t, t], t, "(a & ~%s) | (b & %s)" % (sign, sign), **F)

# conversions
for code, to, fr, sg in ((0xa8, 32, 32, 1), (0xa9, 32, 32, 0), (0xaa, 32, 64, 1), (0xab, 32, 64, 0),
                         (0xae, 64, 32, 1), (0xaf, 64, 32, 0), (0xb0, 64, 64, 1), (0xb1, 64, 64, 0)):
    op(code, "i%d.trunc_f%d_%s" % (to, fr, "su"[1 - sg]), ["f%d" % fr], "i%d" % to,
       ok="trunc_ok(f%d_mag(a), %d, %d, r)" % (fr, to, sg),
       traps=[("isnan%d(a)" % fr, "TRAP_INVALID_CONVERSION_TO_INTEGER"),
              ("!trunc_fits(f%d_mag(a), %d, %d)" % (fr, to, sg), "TRAP_INTEGER_OVERFLOW")],
       prop="P08", solver="cadical", fixed=1, timeout=400)
for i, (to, fr, sg) in enumerate([(32, 32, 1), (32, 32, 0), (32, 64, 1), (32, 64, 0),
                                  (64, 32, 1), (64, 32, 0), (64, 64, 1), (64, 64, 0)]):
    op(i, "i%d.trunc_sat_f%d_%s" % (to, fr, "su"[1 - sg]), ["f%d" % fr], "i%d" % to,
       ok="isnan%d(a) ? r == 0 : trunc_sat_ok(f%d_mag(a), %d, %d, r)" % (fr, fr, to, sg),
       pre="fc", prop="P08", solver="cadical", fixed=1, timeout=400)
for code, to, fr, sg in ((0xb2, 32, 32, 1), (0xb3, 32, 32, 0), (0xb4, 32, 64, 1), (0xb5, 32, 64, 0),
                         (0xb7, 64, 32, 1), (0xb8, 64, 32, 0), (0xb9, 64, 64, 1), (0xba, 64, 64, 0)):
    op(code, "f%d.convert_i%d_%s" % (to, fr, "su"[1 - sg]), ["i%d" % fr], "f%d" % to,
       ok="convert_ok%d(%s, r)" % (to, ("(__int128)(int%d_t)a" if sg else "(__int128)a") % ((fr,) if sg else ())),
       prop="P08", solver="cadical", fixed=1, timeout=400)
op(0xb6, "f32.demote_f64", [F64], F32, ok="demote_ok(a, r)", prop="P08", solver="cadical", fixed=1)
op(0xbb, "f64.promote_f32", [F32], F64, ok="promote_ok(a, r)", prop="P08", solver="cadical", fixed=1)
op(0xbc, "i32.reinterpret_f32", [F32], I32, "a", prop="P08")
op(0xbd, "i64.reinterpret_f64", [F64], I64, "a", prop="P08")
op(0xbe, "f32.reinterpret_i32", [I32], F32, "a", prop="P08")
op(0xbf, "f64.reinterpret_i64", [I64], F64, "a", prop="P08")

def emit(ops, table, fixed, extra_head=""):
    out = ["//@family base=all" + (" def=FIXED_STACK" if fixed else "")]
    if fixed:
        out.append("//@trusted the operand stack of these jobs has a fixed height "
                   "(instruction handlers only use it relative to the stack pointer)")
    out += [extra_head, '#include "exec_common.h"', '#include "num_spec.h"', ""]
    used = set()
    for pre, code, name, ins, outt, traps, ok, prop, o in ops:
        if (pre, code) not in table:
            raise SystemExit("opcode %s %x not in the instruction lists" % (pre, code))
        fn = "fetch_exec_" + table[(pre, code)]
        idn = name.replace(".", "_")
        if fn in used:
            # two opcodes share a handler: contract on an alias
            out.append("static int alias_%s(const uint8_t *p, struct cell *stack, "
                       "struct exec_context *ctx) { return %s(p, stack, ctx); }" % (idn, fn))
            fn = "alias_" + idn
        used.add(fn)
        nin = sum(NC[x] for x in ins)
        nout = NC[outt]
        args = []
        off = 0
        for v, x in zip("abc", ins):
            args.append("        uint%d_t %s = in%d(%d);" % (32 * NC[x], v, 32 * NC[x], off))
            off += NC[x]
        body = "\n".join(args)
        tr = "".join("        if (%s) {\n                return trapped(ret, %s);\n        }\n" % t for t in traps)
        out.append("""
static bool
post_%(idn)s(int ret)
{
%(body)s
%(tr)s        if (!done(ret, %(nout)d, g_pc0)) {
                return false;
        }
        uint%(w)d_t r = out%(w)d(0);
        return %(ok)s;
}
static int %(fn)s(const uint8_t *p, struct cell *stack, struct exec_context *ctx)
        V_REQ(!ctx->trapped && stack == ctx->stack.p + g_h0 + %(nin)d)
        V_ASG_INSN(%(mx)d)
        V_ENS(post_%(idn)s(V_RET));
""" % dict(idn=idn, body=body, tr=tr, nout=nout, w=32 * nout, ok=ok, fn=fn, nin=nin,
           mx=max(nin, nout)))
        for sfx, asm, opts in o.get("split", [("", "", {})]):
            oo = dict(o)
            oo.update(opts)
            out.append("""
//@job h_%(idn)s%(sfx)s prop=%(prop)s enforce=%(fn)s replace=v_trap_with_id unwind=%(unwind)s solver=%(solver)s timeout=%(timeout)d tier=%(tier)s %(bounded)s
void
h_%(idn)s%(sfx)s(void)
{
        uint8_t code[1];
        struct cell *stack = setup_stack(%(nin)d, %(nout)d);
        g_pc0 = code;
%(body)s
        V_ASSUME(%(asm)s);
        int ret = %(fn)s(code, stack, &g_ctx);
        V_CHECK(post_%(idn)s(ret), "%(name)s");
        V_CANARY(ret == 0, "completes");
%(tc)s}
""" % dict(idn=idn, body=body, nout=nout, fn=fn, nin=nin, sfx=sfx, asm=asm or "true",
           prop=prop, unwind=oo.get("unwind", 9), tier=oo.get("tier", "quick"),
           bounded='bounded="%s"' % oo["bounded"] if "bounded" in oo else "",
           solver=oo.get("solver", "minisat"), timeout=oo.get("timeout", 200), name=name,
           tc="".join('        V_CANARY(ret != 0 && g_ctx.trap.trapid == %s, "%s");\n' % (t[1], t[1])
                      for t in traps if not asm or 'maxq' in asm)))
    return "\n".join(out)


def generate(repo):
    table = oplist.table(repo)
    b = [x for x in OPS if not x[8].get("defs")]
    c = [x for x in OPS if x[8].get("defs") == "sqrt"]
    return [("num_int", emit([x for x in b if x[7] == "P07"], table, True)),
            ("num_float", emit([x for x in b if x[7] == "P08"], table, True)),
            ("num_sqrt", emit(c, table, True,
             "//@trusted the C library's sqrt/sqrtf are uninterpreted functions here\n"
             "#define SQRT_SPEC 1"))]
