"""Mechanical extraction of /repo's C sources for the verifier.

The sources are copied verbatim into a scratch directory with exactly three
kinds of edits, so that several translation units can be compiled as one:
 * headers that lack an include guard get '#pragma once' as first line
   (the instruction template/list headers, which are meant to be included
   several times, are left alone);
 * identifiers with internal linkage (static functions, struct tags private
   to a .c file) that occur in more than one .c file are renamed with a
   per-file suffix through '#define' around that file's '#include';
 * the variadic diagnostics functions (VARIADIC below) are called through
 * fixed-argument wrappers, because contract instrumentation does not support
 * variadic calls: their declarations and definitions get the name
 * parenthesised, and macros of the same name redirect the calls.  The message
 * arguments are dropped, and formatting (vasprintf) is replaced by its failure.
 * functions that some harness stands in for with code implementing their
   contract (//@stub lines; a name with '*' is replaced by V_N_<name>, so that
   uses of its address are covered too) get their name parenthesised in declarations and
   definitions, so that a macro of the family can redirect the calls.
Nothing else is changed; file contents are otherwise byte-identical.
"""
import glob, os, re, collections

VARIADIC = {
    "trap_with_id": ("(ctx, id, ...)", "v_trap_with_id(ctx, id)"),
    "validation_failure": ("(ctx, ...)", "v_validation_failure(ctx)"),
    "host_func_trap": ("(ctx, ...)", "v_host_func_trap(ctx)"),
    "report_error": ("(r, ...)", "((void)(r))"),
    "xlog_printf": ("(...)", "((void)0)"),
    "xlog_printf_raw": ("(...)", "((void)0)"),
    "xlog__trace": ("(...)", "((void)0)"),
    "xlog_error": ("(...)", "((void)0)"),
    "vasprintf": ("(p, f, a)", "v_vasprintf(p)"),
    "nbio_printf": ("(...)", "((void)0)"),
    "nbio_fprintf": ("(...)", "((void)0)"),
}
VDECL = re.compile(rb'\b(' + "|".join(VARIADIC).encode() + rb')\((?=\s*(?:struct|const|FILE)\b)')
VPRE = """#include <stdint.h>
#include <stdio.h>
static inline int v_vasprintf(char **p) { *p = 0; return -1; }
struct exec_context;
struct validation_context;
"""
VPOST = """
int v_trap_with_id(struct exec_context *ctx, enum trapid id) { return (trap_with_id)(ctx, id, ""); }
int v_host_func_trap(struct exec_context *ctx) { return (host_func_trap)(ctx, ""); }
int v_validation_failure(struct validation_context *ctx) { return (validation_failure)(ctx, ""); }
"""

MULTI = re.compile(r'^(insn_impl.*|insn_list.*|insn_undef)\.h$')

def declre(names):
    if not names:
        return None
    return re.compile(rb'(?m)(^|^[^\n#=;{}()/]*[\s*])(' + "|".join(sorted(names)).encode() +
                      rb')\((?=\s*(?:struct|const|enum|FILE|u?int\w*|void|size_t|bool|char|unsigned|va_list|clockid_t|pthread_\w*|wasi_\w*|read_elem\w*|__wasi\w*)\b)')

def mirror(repo, dirs, out, stubs=()):
    """copy repo/<d>/*.[ch] to out/<d>/"""
    sdecl = declre([s for s in stubs if s[0] != "*"])
    ndecl = declre([s[1:] for s in stubs if s[0] == "*"])
    for d in dirs:
        os.makedirs(f"{out}/{d}", exist_ok=True)
        for f in glob.glob(f"{repo}/{d}/*.[ch]"):
            b = os.path.basename(f)
            s = open(f, "rb").read()
            s = VDECL.sub(rb"(\1)(", s)
            if sdecl:
                s = sdecl.sub(rb"\1(\2)(", s)
            names = set()
            if ndecl:
                names = set(m.group(2) for m in ndecl.finditer(s))
                s = ndecl.sub(rb"\1V_N_\2(", s)
            if b.endswith(".h") and not MULTI.match(b) and b"#pragma once" not in s:
                # keep line numbers: put the pragma on line 1 with a #line reset
                s = b'#pragma once\n#line 1 "' + f.encode() + b'"\n' + s
            else:
                s = b'#line 1 "' + f.encode() + b'"\n' + s
            for n in sorted(names):
                s = b"#ifndef V_N_%s\n#define V_N_%s %s\n#endif\n" % (n, n, n) + s
            with open(f"{out}/{d}/{b}", "wb") as o:
                o.write(s)

STATIC_FN = re.compile(r'^(?:__attribute__\(\(\w+\)\)\s*)?static\s+(?:(?!=|;)[^;{}()=])*?\b(\w+)\s*\(', re.M)
ANY_FN = re.compile(r'^(\w+)\(', re.M)
TAG = re.compile(r'^(?:static\s+const\s+|const\s+|static\s+)*struct\s+(\w+)\s*\{', re.M)

def unity(repo, out, files, name):
    """write out/<name> including the given files (relative to repo)"""
    stat = collections.defaultdict(set)
    allfn = collections.defaultdict(set)
    tags = collections.defaultdict(set)
    for f in files:
        s = open(f"{repo}/{f}").read()
        s = re.sub(r'/\*.*?\*/', '', s, flags=re.S)
        for m in STATIC_FN.finditer(s):
            stat[m.group(1)].add(f)
        # functions are written with the name at the start of a line
        for m in ANY_FN.finditer(s):
            allfn[m.group(1)].add(f)
        for m in TAG.finditer(s):
            tags[m.group(1)].add(f)
    lines = ["#pragma once", VPRE]
    for n, (a, b) in VARIADIC.items():
        lines.append(f"#define {n}{a} {b}")
    lines.append("""#include "exec_context.h"
struct validation_context;
int v_trap_with_id(struct exec_context *, enum trapid);
int v_host_func_trap(struct exec_context *);
int v_validation_failure(struct validation_context *);""")
    for f in files:
        ren = set()
        for n, fs in stat.items():
            if f in fs and len(allfn.get(n, set()) | fs) > 1:
                ren.add(n)
        for n, fs in tags.items():
            if f in fs and len(fs) > 1:
                ren.add(n)
        sfx = re.sub(r'\W', '_', f)
        for n in sorted(ren):
            lines.append(f"#define {n} {n}__{sfx}")
        lines.append("#undef SECTION")
        lines.append(f'#include "{f}"')
        for n in sorted(ren):
            lines.append(f"#undef {n}")
    with open(f"{out}/{name}", "w") as o:
        o.write("\n".join(lines) + "\n" + VPOST)
