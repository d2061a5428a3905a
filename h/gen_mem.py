"""memory access instructions: contracts keyed by opcode"""
import oplist

OPS = []


def op(pre, code, name, kind, n, stack, **k):
    OPS.append((pre, code, name, kind, n, stack, k))


def cells(bits):
    return bits // 32


# opcode, name, bytes, value bits, sign extended
for c, nm, n, st, sg in (
        (0x28, "i32.load", 4, 32, 0), (0x29, "i64.load", 8, 64, 0), (0x2a, "f32.load", 4, 32, 0),
        (0x2b, "f64.load", 8, 64, 0), (0x2c, "i32.load8_s", 1, 32, 1), (0x2d, "i32.load8_u", 1, 32, 0),
        (0x2e, "i32.load16_s", 2, 32, 1), (0x2f, "i32.load16_u", 2, 32, 0),
        (0x30, "i64.load8_s", 1, 64, 1), (0x31, "i64.load8_u", 1, 64, 0), (0x32, "i64.load16_s", 2, 64, 1),
        (0x33, "i64.load16_u", 2, 64, 0), (0x34, "i64.load32_s", 4, 64, 1), (0x35, "i64.load32_u", 4, 64, 0)):
    v = "le_old(%d)" % n
    if sg:
        v = "sx(%s, %d)" % (v, 8 * n)
    op("", c, nm, "load", n, st, expect=v, prop="P01,P02")
for c, nm, n, st in ((0x36, "i32.store", 4, 32), (0x37, "i64.store", 8, 64), (0x38, "f32.store", 4, 32),
                     (0x39, "f64.store", 8, 64), (0x3a, "i32.store8", 1, 32), (0x3b, "i32.store16", 2, 32),
                     (0x3c, "i64.store8", 1, 64), (0x3d, "i64.store16", 2, 64), (0x3e, "i64.store32", 4, 64)):
    op("", c, nm, "store", n, st, prop="P01,P02")
# atomics
AT = ((4, 32, "i32.%s%s"), (8, 64, "i64.%s%s"), (1, 32, "i32.%s8%s_u"), (2, 32, "i32.%s16%s_u"),
      (1, 64, "i64.%s8%s_u"), (2, 64, "i64.%s16%s_u"), (4, 64, "i64.%s32%s_u"))
for k, (n, st, f) in enumerate(AT):
    op("fe", 0x10 + k, f % ("atomic.load", ""), "load", n, st, expect="le_old(%d)" % n, atomic=1, prop="P10,P01")
    op("fe", 0x17 + k, f % ("atomic.store", ""), "store", n, st, atomic=1, prop="P10,P01")
for j, (nm, e) in enumerate((("add", "m + v"), ("sub", "m - v"), ("and", "m & v"), ("or", "m | v"),
                             ("xor", "m ^ v"), ("xchg", "v"))):
    for k, (n, st, f) in enumerate(AT):
        op("fe", 0x1e + 7 * j + k, f % ("atomic.rmw", "." + nm), "rmw", n, st, expr=e, atomic=1, prop="P10")
for k, (n, st, f) in enumerate(AT):
    op("fe", 0x48 + k, f % ("atomic.rmw", ".cmpxchg"), "cmpxchg", n, st, atomic=1, prop="P10")
# v128
op("fd", 0x00, "v128.load", "vload", 16, 128, bytes_="g_old[WPRE + i]")
for c, w, cnt in ((1, 8, 8), (3, 16, 4), (5, 32, 2)):
    for s in (0, 1):
        op("fd", c + s, "v128.load%dx%d_%s" % (w, cnt, "su"[s]), "vload", 8, 128,
           bytes_="(uint8_t)(%s >> (8 * (i %% %d)))" % (
               ("sx(lane_old(i / %d, %d), %d)" if s == 0 else "lane_old(i / %d, %d)") %
               ((w // 4, w // 8, w) if s == 0 else (w // 4, w // 8)), w // 4))
for c, n in ((7, 1), (8, 2), (9, 4), (10, 8)):
    op("fd", c, "v128.load%d_splat" % (8 * n), "vload", n, 128, bytes_="g_old[WPRE + i %% %d]" % n)
op("fd", 0x5c, "v128.load32_zero", "vload", 4, 128, bytes_="(i < 4 ? g_old[WPRE + i] : 0)")
op("fd", 0x5d, "v128.load64_zero", "vload", 8, 128, bytes_="(i < 8 ? g_old[WPRE + i] : 0)")
op("fd", 0x0b, "v128.store", "vstore", 16, 128)
for k, n in enumerate((1, 2, 4, 8)):
    op("fd", 0x54 + k, "v128.load%d_lane" % (8 * n), "vloadlane", n, 128)
    op("fd", 0x58 + k, "v128.store%d_lane" % (8 * n), "vstorelane", n, 128)


def emit(ops, table):
    out = ["//@family base=all def=FIXED_STACK",
           "//@trusted memory access instructions: the accessed bytes are already backed by "
           "storage; on-demand extension is the separate contract of memory_instance_getptr2",
           '#include "mem_common.h"',
           "static uint64_t lane_old(unsigned int lane, unsigned int nb)\n{\n"
           "        uint64_t v = 0;\n        unsigned int j;\n        for (j = 0; j < nb; j++) {\n"
           "                v |= (uint64_t)g_old[WPRE + lane * nb + j] << (8 * j);\n        }\n        return v;\n}"]
    for pre, code, name, kind, n, st, o in ops:
        if (pre, code) not in table:
            raise SystemExit("opcode %s %x not in the instruction lists" % (pre, code))
        fn = "fetch_exec_" + table[(pre, code)]
        idn = name.replace(".", "_")
        nc = cells(st)
        lane = kind in ("vloadlane", "vstorelane")
        nin, nout = {"load": (1, nc), "store": (1 + nc, 0), "rmw": (1 + nc, nc), "cmpxchg": (1 + 2 * nc, nc),
                     "vload": (1, 4), "vstore": (5, 0), "vloadlane": (5, 4), "vstorelane": (5, 0)}[kind]
        mx = max(nin, nout)
        al = {1: 0, 2: 1, 4: 2, 8: 3, 16: 4}[n]
        mask = "lowbits(%%s, %d)" % (8 * n)
        unsg = "in%d(%%d)" % st if st < 128 else ""
        if kind == "load":
            chk = "return out%d(0) == (uint%d_t)(%s) && mem_unchanged();" % (st, st, o["expect"])
        elif kind == "store":
            chk = "return le_new(%d) == %s && mem_only();" % (n, mask % (unsg % 1))
        elif kind == "rmw":
            chk = ("uint64_t m = le_old(%d);\n        uint64_t v = %s;\n"
                   "        return out%d(0) == m && le_new(%d) == %s && mem_only();" %
                   (n, unsg % 1, st, n, mask % ("(%s)" % o["expr"])))
        elif kind == "cmpxchg":
            chk = ("uint64_t m = le_old(%d);\n        uint64_t e = %s;\n        uint64_t v = %s;\n"
                   "        return out%d(0) == m && le_new(%d) == (m == e ? %s : m) && mem_only();" %
                   (n, unsg % 1, unsg % (1 + nc), st, n, mask % "v"))
        elif kind == "vload":
            chk = ("unsigned int i = g_ww %% 16;\n        return out8(i) == %s && mem_unchanged();" % o["bytes_"])
        elif kind == "vstore":
            chk = ("unsigned int i = g_ww % 16;\n        return g_win[WPRE + i] == in8(1, i) && mem_only();")
        elif kind == "vloadlane":
            chk = ("unsigned int i = g_ww %% 16;\n        unsigned int lane = g_pc0[0];\n"
                   "        return out8(i) == (i / %d == lane ? g_old[WPRE + i %% %d] : in8(1, i)) && mem_unchanged();" %
                   (n, n))
        else:
            chk = ("unsigned int i = g_ww %% %d;\n        unsigned int lane = g_pc0[0];\n"
                   "        return g_win[WPRE + i] == in8(1, lane * %d + i) && mem_only();" % (n, n))
        unal = ""
        if o.get("atomic"):
            unal = ("        if (g_ea %% %d != 0) {\n"
                    "                return trapped(ret, TRAP_UNALIGNED_ATOMIC_OPERATION) && mem_unchanged();\n"
                    "        }\n" % n) if n > 1 else ""
            oob = "trapped(ret, TRAP_OUT_OF_BOUNDS_MEMORY_ACCESS)"
            if n > 1:
                oob = "(%s || (g_ea %% %d != 0 && trapped(ret, TRAP_UNALIGNED_ATOMIC_OPERATION)))" % (oob, n)
        else:
            oob = "trapped(ret, TRAP_OUT_OF_BOUNDS_MEMORY_ACCESS)"
        out.append("""
static bool
post_%(idn)s(int ret)
{
        if (mem_oob()) {
                return %(oob)s && mem_unchanged();
        }
%(unal)s        if (!done(ret, %(nout)d, g_pc0%(ext)s)) {
                return false;
        }
        %(chk)s
}
static int %(fn)s(const uint8_t *p, struct cell *stack, struct exec_context *ctx)
        V_REQ(!ctx->trapped && stack == ctx->stack.p + g_h0 + %(nin)d)
        V_ASG_MEM(%(mx)d)
        V_ENS(post_%(idn)s(V_RET));
//@job h_%(idn)s prop=%(prop)s enforce=%(fn)s replace=v_trap_with_id,memory_instance_getptr2,read_memarg_nocheck unwind=9 unwindset=setup_mem.0:17,setup_mem.1:49 timeout=200 solver=%(solver)s
void
h_%(idn)s(void)
{
        struct cell *stack = setup_stack(%(nin)d, %(nout)d);
        setup_mem(in32(0), %(n)d, %(amin)d, %(amax)d);
%(lane)s        int ret = %(fn)s(g_code, stack, &g_ctx);
        V_CHECK(post_%(idn)s(ret), "%(name)s");
        V_CANARY(ret == 0, "completes");
        V_CANARY(ret != 0 && g_ctx.trap.trapid == TRAP_OUT_OF_BOUNDS_MEMORY_ACCESS, "traps");
%(uc)s}
""" % dict(idn=idn, oob=oob, unal=unal, nout=nout, solver="cadical" if kind in ("rmw", "cmpxchg") else "minisat", ext=" + 1" if lane else "", chk=chk, fn=fn, nin=nin, mx=mx,
           prop=o.get("prop", "P09,P01"), n=n, amin=al if o.get("atomic") else 0, amax=al,
           lane="        V_ASSUME(g_pc0[0] < %d);\n" % (16 // n) if lane else "", name=name,
           uc='        V_CANARY(ret != 0 && g_ctx.trap.trapid == TRAP_UNALIGNED_ATOMIC_OPERATION, "unaligned");\n'
           if unal else ""))
    if ops[0][0] == "":
        out.append("""
//@job h_read_memarg_nocheck prop=P01,P02,P09,P10,P15 enforce=read_memarg_nocheck unwind=9 unwindset=setup_mem.0:17,setup_mem.1:49
void
h_read_memarg_nocheck(void)
{
        setup_mem(in_u32(), 1, 0, UINT32_MAX);
        const uint8_t *p = g_code;
        struct memarg arg;
        read_memarg_nocheck(&p, &arg);
        V_CHECK(arg.offset == g_offset && arg.align == g_align && arg.memidx == g_memidx &&
                        p == g_code + g_memarg_len, "memarg");
        V_CANARY(arg.memidx == 3, "completes");
}
""")
    return "\n".join(out)


def generate(repo):
    t = oplist.table(repo)
    return [("mem_scalar", emit([x for x in OPS if x[0] == ""], t)),
            ("mem_atomic", emit([x for x in OPS if x[0] == "fe"], t)),
            ("mem_simd", emit([x for x in OPS if x[0] == "fd"], t))]
