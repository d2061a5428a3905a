#!/usr/bin/env python3
"""Contract checker driver.

For one property: collect the jobs of the harness files, compile the real
sources of /repo together with the contracts, instrument them with
goto-instrument --dfcc, let cbmc discharge every obligation, and classify.

Exit codes: 0 all obligations discharged, 1 some obligation refuted
(with a VIOLATION line), 2 no answer (tool limit, extraction problem).
"""
import concurrent.futures
import importlib
import json
import os
import re
import shlex
import shutil
import signal
import subprocess
import sys
import tempfile
import threading
import time

HERE = os.path.dirname(os.path.abspath(__file__))
VERIF = os.path.dirname(HERE)
REPO = os.environ.get("VERIF_REPO", "/repo")
sys.path.insert(0, HERE)
import mirror  # noqa: E402

T0 = time.time()
LIMIT = float(os.environ.get("VERIF_LIMIT", "840"))
NPROC = int(os.environ.get("VERIF_JOBS", str(os.cpu_count() or 4)))
VERBOSE = os.environ.get("VERIF_VERBOSE")
KEEP = os.environ.get("VERIF_KEEP")


def log(*a):
    print(*a, flush=True)


def remaining():
    return LIMIT - (time.time() - T0)


class Fail(Exception):
    pass


TMP = ["/tmp"]
_children = set()
_lock = threading.Lock()


def sh(cmd, timeout=None, cwd=None, mem_gb=7):
    """run a command; return (rc, stdout, stderr, seconds); rc None: timeout"""
    t = time.time()
    lim = remaining()
    timeout = lim if timeout is None else min(timeout, lim)
    if timeout <= 1:
        return None, "", "out of time", 0.0
    p = subprocess.Popen(
        ["prlimit", "--as=%d" % (mem_gb << 30)] + cmd, stdout=subprocess.PIPE,
        stderr=subprocess.PIPE, cwd=cwd, start_new_session=True,
        env=dict(os.environ, TMPDIR=TMP[0]))
    with _lock:
        _children.add(p)
    try:
        out, err = p.communicate(timeout=timeout)
        rc = p.returncode
    except subprocess.TimeoutExpired:
        rc = None
        try:
            os.killpg(p.pid, signal.SIGKILL)
        except ProcessLookupError:
            pass
        out, err = p.communicate()
    finally:
        with _lock:
            _children.discard(p)
    return (rc, out.decode(errors="replace"), err.decode(errors="replace"),
            time.time() - t)


# ---------------------------------------------------------------- job specs

class Job:
    def __init__(self, fam, name, kv):
        self.fam = fam
        self.name = name
        self.props = kv.pop("prop", "").split(",")
        self.enforce = [x for x in kv.pop("enforce", "").split(",") if x]
        self.replace = [x for x in kv.pop("replace", "").split(",") if x]
        self.unwind = int(kv.pop("unwind", "4"))
        self.unwindset = kv.pop("unwindset", "")
        self.solver = kv.pop("solver", "minisat")
        self.timeout = int(kv.pop("timeout", "300"))
        self.flags = shlex.split(kv.pop("flags", ""))
        self.gflags = shlex.split(kv.pop("gflags", ""))
        self.tier = kv.pop("tier", "quick")
        self.bounded = kv.pop("bounded", "")
        self.about = kv.pop("about", "")
        self.replaybody = [x for x in kv.pop("stub", "").split(",") if x]
        self.need = [x for x in kv.pop("need", "").split(",") if x]
        self.loops = kv.pop("loops", "")
        self.dfcc = kv.pop("dfcc", "1") == "1"
        self.object_bits = kv.pop("objbits", "10")
        self.mem = int(kv.pop("mem", "7"))
        self.group = kv.pop("group", "")
        if kv:
            raise Fail("unknown job keys %s in %s" % (kv, name))


class Family:
    """one translation unit: real sources + contracts + harnesses"""

    def __init__(self, path, text):
        self.path = path
        self.name = os.path.splitext(os.path.basename(path))[0]
        self.text = text
        self.base = "core"
        self.defs = []
        self.fptr = []
        self.jobs = []
        self.trusted = []
        self.stubs = []
        for ln in text.splitlines():
            m = re.match(r"\s*//@(\w+)\s+(.*)$", ln)
            if not m:
                continue
            kind, rest = m.groups()
            if kind == "family":
                for tok in shlex.split(rest):
                    k, v = tok.split("=", 1)
                    if k == "base":
                        self.base = v
                    elif k == "def":
                        self.defs.append(v)
                    elif k == "fptr":
                        self.fptr += ["--restrict-function-pointer", v]
            elif kind == "stub":
                self.stubs.append(rest.strip().split(None, 1))
            elif kind == "trusted":
                self.trusted.append(rest.strip())
            elif kind == "job":
                toks = shlex.split(rest)
                kv = dict(t.split("=", 1) for t in toks[1:])
                self.jobs.append(Job(self, toks[0], kv))


def load_families():
    fams = []
    hd = os.path.join(VERIF, "h")
    for f in sorted(os.listdir(hd)):
        p = os.path.join(hd, f)
        if f.endswith(".c"):
            fams.append(Family(p, open(p).read()))
        elif f.startswith("gen_") and f.endswith(".py"):
            sys.path.insert(0, hd)
            m = importlib.import_module(f[:-3])
            for name, text in m.generate(REPO):
                fams.append(Family(name + ".c", text))
    return fams


# ---------------------------------------------------------------- building

BASES = {
    "core": (["lib"], lambda f: f not in ("usched.c", "insn.c"), None),
    "all": (["lib"], lambda f: f not in ("usched.c",), None),
    "insn": (["lib"], lambda f: f not in ("usched.c",), None),
    "wasi": (["lib", "libwasi"], lambda f: f not in ("usched.c", "insn.c"), None),
    "dyld": (["lib", "libdyld"], lambda f: f not in ("usched.c", "insn.c"), None),
}


class Build:
    def __init__(self, scratch, stubs=()):
        self.scratch = scratch
        self.mm = os.path.join(scratch, "mm")
        dirs = [d for d in ("lib", "libwasi", "libdyld", "libwasi_threads")
                if os.path.isdir(os.path.join(REPO, d))]
        mirror.mirror(REPO, dirs, self.mm, stubs)
        self.units = {}
        self.natives = {}
        self.names = {}

    def unity(self, base):
        if base in self.units:
            return
        dirs, pred, _ = BASES[base]
        files = []
        for d in dirs:
            fs = sorted(f for f in os.listdir(os.path.join(self.mm, d))
                        if f.endswith(".c") and pred(f))
            # insn.c needs the others' prototypes only; keep it last
            fs.sort(key=lambda f: f == "insn.c")
            files += [d + "/" + f for f in fs]
        mirror.unity(REPO, self.mm, files, "u_%s.h" % base)
        self.units[base] = files

    def incs(self):
        cfg = os.path.join(VERIF, "config")
        return ["-I" + cfg, "-I" + os.path.join(VERIF, "h"), "-I" + self.mm,
                "-I" + self.mm + "/lib", "-I" + self.mm + "/libwasi",
                "-I" + self.mm + "/libdyld"]

    def family(self, fam, jobs):
        self.unity(fam.base)
        d = os.path.join(self.scratch, "fam_" + fam.name)
        os.makedirs(d, exist_ok=True)
        src = os.path.join(d, fam.name + ".c")
        with open(src, "w") as f:
            f.write(fam.text)
        wrap = os.path.join(d, "root.c")
        names = self.names[fam.name] = sorted(set(j.name for j in jobs))
        with open(wrap, "w") as f:
            f.write('#include "%s"\nvoid verif_root(void)\n{\n' % src)
            f.write("".join("        %s();\n" % n for n in names))
            f.write("}\n")
        a, b, c = (os.path.join(d, x) for x in ("a.gb", "b.gb", "c.gb"))
        rc, out, err, dt = sh(["goto-cc", "-std=gnu11", "-D_GNU_SOURCE", "-DVERIF"] +
                          ["-D" + x for x in fam.defs] + self.incs() +
                          [wrap, "-o", a, "--function", "verif_root"])
        if rc != 0:
            raise Fail("%s: sources do not compile with the contracts:\n%s"
                       % (fam.name, (err + out)[-3000:]))
        rc, out, err, _ = sh(["goto-instrument"] + fam.fptr + ["--drop-unused-functions", a, b])
        if rc != 0:
            raise Fail("drop-unused-functions: " + (err + out)[-1000:])
        rc, out, err, _ = sh(["goto-instrument", "--slice-global-inits", b, c])
        if rc != 0:
            raise Fail("slice-global-inits: " + (err + out)[-1000:])
        self_fns = self.functions(c)
        return c, self_fns, wrap

    def functions(self, gb):
        rc, out, err, _ = sh(["goto-instrument", "--list-goto-functions", gb])
        fns = {}
        for ln in out.splitlines():
            m = re.match(r"^(\S+)\s*/\*.*\*/\s*(.*)$", ln) or \
                re.match(r"^(\S+)\s*(.*)$", ln.strip())
            if m:
                nobody = "body not available" in ln or "no body" in ln
                fns[m.group(1)] = fns.get(m.group(1), False) or not nobody
        return fns


SOLVER_FLAGS = {
    "minisat": [],
    "cadical": ["--sat-solver", "cadical"],
    "kissat": ["--external-sat-solver", "kissat"],
    "z3": ["--z3"],
    "cvc5": ["--cvc5"],
    "cvc5": ["--cvc5"],
    "z3": ["--z3"],
}

ERR_DESC = re.compile(
    r"unwinding assertion|undefined function should be unreachable|"
    r"no body for callee|recursion unwinding|"
    r"Check that .* was unwound|no candidates for dereferenced function pointer")
EXCL = re.compile(r"pointer relation: |same object violation")
UNW = re.compile(r"unwinding assertion|recursion unwinding")


class Result:
    def __init__(self, job):
        self.job = job
        self.state = "error"
        self.msg = ""
        self.total = 0
        self.discharged = 0
        self.kinds = {}
        self.canaries = 0
        self.failed = []
        self.solver_s = 0.0
        self.wall = 0.0
        self.vcc = 0
        self.nobody = []
        self.replaced = []
        self.enforced = []
        self.backend = job.solver
        self.unwind = job.unwind


def parse_cbmc(out):
    try:
        j = json.loads(out)
    except Exception:
        return None
    res, msgs = None, []
    for e in j:
        if "result" in e:
            res = e["result"]
        if "messageText" in e:
            msgs.append((e.get("messageType"), e["messageText"]))
    return res, msgs


def cbmc_cmd(job, gb, unwind, solver, extra=()):
    cmd = ["cbmc", gb, "--json-ui", "--object-bits", job.object_bits,
           "--unwind", str(unwind), "--unwinding-assertions", "--slice-formula",
           "--verbosity", "8"]
    if job.unwindset:
        us = []
        for u in job.unwindset.split(","):
            f, rest = u.split(".", 1)
            if job.dfcc and f in job.enforce:
                f += "_wrapped_for_contract_checking"
            us.append(f + "." + rest)
        cmd += ["--unwindset", ",".join(us)]
    return cmd + job.flags + SOLVER_FLAGS[solver] + list(extra)


def kind_of(pid, desc):
    m = re.search(r"\.([a-z_-]+)\.\d+$", pid)
    k = m.group(1) if m else "other"
    if desc.startswith("verif: "):
        k = "spec_assertion"
    return k


def run_job(build, job, gb, fns, d):
    r = Result(job)
    t = time.time()
    jd = os.path.join(d, "j_" + job.name)
    os.makedirs(jd, exist_ok=True)
    x1, x2, x3 = (os.path.join(jd, n) for n in ("1.gb", "2.gb", "3.gb"))
    r.gb = None
    try:
        for f in job.enforce + job.need:
            if not fns.get(f) and not fns.get("real_" + f):
                r.msg = "function under contract not found in the sources: " + f
                return r
        rc, out, err, _ = sh(["goto-cc", gb, "--function", job.name, "-o", x1])
        if rc != 0:
            r.msg = "relink: " + (err + out)[-500:]
            return r
        rc, out, err, _ = sh(["goto-instrument", "--drop-unused-functions", x1, x2])
        if rc != 0:
            r.msg = "drop: " + (err + out)[-500:]
            return r
        here = build.functions(x2)
        r.replaced = [f for f in job.replace if f in here]
        r.enforced = [f for f in job.enforce if f in here or "real_" + f in here]
        cur = x2
        if job.gflags:
            rc, out, err, _ = sh(["goto-instrument"] + job.gflags + [cur, x1])
            if rc != 0:
                r.msg = "goto-instrument %s: %s" % (job.gflags, (err + out)[-500:])
                return r
            cur = x1
        if job.dfcc and (r.enforced or r.replaced or job.loops):
            cmd = ["goto-instrument", "--dfcc", job.name]
            for f in r.enforced:
                cmd += ["--enforce-contract", f]
            for f in r.replaced:
                cmd += ["--replace-call-with-contract", f]
            if job.loops:
                cmd += ["--apply-loop-contracts"]
            rc, out, err, _ = sh(cmd + [cur, x3], timeout=max(120, job.timeout))
            if rc != 0:
                r.msg = "dfcc: " + (err + out)[-800:]
                return r
            cur = x3
        r.gb = cur
        unwind = job.unwind
        solvers = [job.solver]
        attempt = 0
        excl = []
        while True:
            solver = solvers[-1]
            rc, out, err, dt = sh(cbmc_cmd(job, cur, unwind, solver, excl),
                                  timeout=job.timeout, mem_gb=job.mem)
            if rc is None or rc not in (0, 10):
                why = "time limit" if rc is None else \
                    "exit %s %s" % (rc, re.sub(r"\s+", " ", (err + out)[-300:]))
                alt = "kissat" if solver != "kissat" else "cadical"
                if alt not in solvers and remaining() > job.timeout / 2 and len(solvers) < 2:
                    solvers.append(alt)
                    continue
                r.msg = "cbmc gave no answer (%s, %s)" % (solver, why)
                return r
            pr = parse_cbmc(out)
            if not pr or pr[0] is None:
                r.msg = "cbmc output not understood: " + out[-300:]
                return r
            res, msgs = pr
            if not excl and any(x["status"] == "FAILURE" and EXCL.match(x["description"])
                   for x in res):
                # comparing pointers past the end of an object is not judged
                excl = [a for x in res if not EXCL.match(x["description"])
                        and ".unwind." not in x["property"] and ".recursion" not in x["property"]
                        for a in ("--property", x["property"])]
                continue
            unw = [x for x in res if x["status"] == "FAILURE"
                   and UNW.search(x["description"])]
            if unw and attempt < 2:
                attempt += 1
                unwind = unwind * 2 + 1
                continue
            break
        r.unwind = unwind
        r.backend = solver
        for mt, m in msgs:
            mm = re.search(r"Runtime Solver: ([\d.e+-]+)s", m)
            if mm:
                r.solver_s += float(mm.group(1))
            mm = re.search(r"Generated (\d+) VCC\(s\), (\d+) remaining", m)
            if mm:
                r.vcc += int(mm.group(2))
        bad, errs, canary_dead = [], [], []
        for x in res:
            desc = x["description"]
            if desc.startswith("canary: "):
                r.canaries += 1
                if x["status"] != "FAILURE":
                    canary_dead.append(desc)
                continue
            r.total += 1
            k = kind_of(x["property"], desc)
            r.kinds[k] = r.kinds.get(k, 0) + 1
            if x["status"] == "SUCCESS":
                r.discharged += 1
            elif x["status"] == "FAILURE":
                (errs if ERR_DESC.search(desc) else bad).append(x)
            else:
                errs.append(x)
        r.failed = bad
        if bad and not any(UNW.search(e["description"]) for e in errs):
            r.state = "violation"
            return r
        if bad:
            r.state = "violation"
            return r
        if errs:
            r.msg = "undecided: " + "; ".join(
                "%s %s: %s" % (e["status"], e["property"], e["description"])
                for e in errs[:4])
            return r
        if not r.total:
            r.msg = "no obligations were generated"
            return r
        if canary_dead:
            # the situations the contract talks about became unreachable
            r.msg = "vacuity guard: not reachable: " + "; ".join(canary_dead)
            r.state = "vacuous"
            return r
        if not r.canaries:
            r.msg = "no vacuity guard in harness"
            return r
        r.state = "ok"
        return r
    finally:
        r.wall = time.time() - t
        if r.state == "ok" and not KEEP:
            shutil.rmtree(jd, ignore_errors=True)


# ---------------------------------------------------------------- replay

def trace_inputs(build, r, pid):
    job = r.job
    rc, out, err, dt = sh(cbmc_cmd(job, r.gb, r.unwind, r.backend,
                               ["--trace", "--property", pid]),
                      timeout=max(60, job.timeout))
    pr = parse_cbmc(out) if rc in (0, 10) else None
    if not pr or not pr[0]:
        return None, out[-2000:]
    for x in pr[0]:
        if x.get("property") == pid and "trace" in x:
            vals = []
            for st in x["trace"]:
                if st.get("stepType") == "function-call" and \
                        re.match(r"in_(u8|u16|u32|u64|bool)$", st.get("function", {}).get("identifier", "")):
                    vals.append((False, 0))
                if st.get("stepType") != "assignment":
                    continue
                lhs = st.get("lhs", "")
                if re.match(r"verif_in(1|8|16|32|64)$", lhs.split("!")[0].split("::")[-1]):
                    if st.get("assignmentType") == "actual-parameter":
                        continue
                    v = st.get("value", {})
                    b = v.get("binary")
                    d = v.get("data")
                    if b is None:
                        if d in ("TRUE", "FALSE", "true", "false"):
                            n = 1 if str(d).lower() == "true" else 0
                        else:
                            continue
                    else:
                        n = int(b, 2)
                    vals[-1] = (st.get("hidden"), n)
            text = []
            for st in x["trace"]:
                if st.get("hidden") or st.get("stepType") not in (
                        "assignment", "failure", "function-call"):
                    continue
                sl = st.get("sourceLocation", {})
                loc = "%s:%s" % (sl.get("file", ""), sl.get("line", ""))
                if st["stepType"] == "assignment":
                    v = st.get("value", {})
                    text.append("%s %s = %s" % (loc, st.get("lhs"), v.get("data", v.get("name"))))
                elif st["stepType"] == "failure":
                    text.append("%s FAILURE %s" % (loc, st.get("reason")))
                else:
                    text.append("%s call %s" % (loc, st.get("function", {}).get("displayName")))
            return [n for h, n in vals], "\n".join(text[-4000:])
    return None, ""


NATIVE_MAIN = """
int verif_ninputs, verif_pos;
unsigned long long verif_inputs[100000];
int main(int argc, char **argv)
{
        FILE *f = fopen(argv[2], "r");
        while (f && verif_ninputs < 100000 &&
               fscanf(f, "%%llu", &verif_inputs[verif_ninputs]) == 1)
                verif_ninputs++;
        %s
        printf("REPLAY-PASSED\\n");
        return 0;
}
"""


def native_exe(build, fam, wrap):
    """the same translation unit compiled by gcc with sanitizers"""
    if fam.name in build.natives:
        return build.natives[fam.name]
    d = os.path.join(build.scratch, "native_" + fam.name)
    os.makedirs(d, exist_ok=True)
    src = os.path.join(d, "main.c")
    names = build.names[fam.name]
    with open(src, "w") as f:
        f.write('#include "%s"\n' % os.path.join(os.path.dirname(wrap), fam.name + ".c"))
        f.write(NATIVE_MAIN % "\n        ".join(
            'if (!strcmp(argv[1], "%s")) %s();' % (n, n) for n in names))
    exe = os.path.join(d, "a.out")
    rc, out, err, _ = sh(["gcc", "-std=gnu11", "-w", "-g", "-O0", "-D_GNU_SOURCE",
                          "-DVERIF_NATIVE", "-DVERIF"] +
                         ["-D" + x for x in fam.defs] +
                         ["-fsanitize=address,undefined",
                          "-fno-sanitize=alignment,pointer-overflow,shift",
                          "-fno-sanitize-recover=undefined",
                          "-Wl,--unresolved-symbols=ignore-all"] +
                         build.incs() + [src, "-o", exe, "-lm", "-lpthread"],
                         timeout=300, mem_gb=16)
    if rc != 0:
        build.natives[fam.name] = None, "native build failed: " + err[-1500:]
    else:
        build.natives[fam.name] = exe, ""
    return build.natives[fam.name]


def replay(build, r, pid, wrap):
    """compile the same harness natively and run it on the trace's inputs"""
    vals, text = trace_inputs(build, r, pid)
    if vals is None:
        return None, text, "no trace", ""
    exe, msg = native_exe(build, r.job.fam, wrap)
    if exe is None:
        return vals, text, msg, ""
    d = os.path.join(build.scratch, "replay_" + r.job.name)
    os.makedirs(d, exist_ok=True)
    with open(os.path.join(d, "inputs"), "w") as f:
        f.write("".join("%d\n" % v for v in vals))
    env = "ASAN_OPTIONS=detect_leaks=0:allocator_may_return_null=1:max_allocation_size_mb=2048"
    p = None
    try:
        p = subprocess.run(["env", env, exe, r.job.name, os.path.join(d, "inputs")],
                           stdout=subprocess.PIPE,
                           stderr=subprocess.STDOUT, timeout=60, cwd=d)
        out = p.stdout.decode(errors="replace")
        rc = p.returncode
    except subprocess.TimeoutExpired:
        return vals, text, "native run timed out", ""
    bad = ("REPLAY-VIOLATION" in out or "AddressSanitizer" in out or
           "runtime error" in out or "Assertion" in out)
    return vals, text, ("reproduced" if rc != 0 and bad else
                        "not reproduced (exit %s)" % rc), out[-4000:]


# ---------------------------------------------------------------- main

def known_findings():
    p = os.path.join(VERIF, "KNOWN_FINDINGS")
    out = []
    if os.path.exists(p):
        for ln in open(p):
            ln = ln.strip()
            m = re.match(r"known: property=(\S+) job=(\S+) match=/(.*?)/ (.*)$", ln)
            if m:
                out.append(m.groups())
    return out


def source_assumptions(fams):
    out = []
    for f in fams:
        n = len(re.findall(r"\bV_ASSUME\(", f.text))
        for n, t in f.stubs:
            out.append("callee %s stands in by code of its contract: %s" % (n.lstrip("*"), t))
        for t in f.trusted:
            out.append("trusted: " + t)
    return sorted(set(out))


def main():
    if len(sys.argv) < 2:
        print("usage: check <property> [quick|thorough] [job-regex]")
        return 2
    prop = sys.argv[1]
    tier = sys.argv[2] if len(sys.argv) > 2 else os.environ.get("VERIF_TIER", "quick")
    only = sys.argv[3] if len(sys.argv) > 3 else None
    seed = int(os.environ.get("VERIF_SEED", "1") or 1)
    global LIMIT
    if tier == "thorough":
        LIMIT = float(os.environ.get("VERIF_LIMIT", "7200"))
    scratch = tempfile.mkdtemp(prefix="verif-%s-" % prop)
    TMP[0] = scratch
    try:
        return check(prop, tier, only, seed, scratch)
    except Fail as e:
        log("ERROR: property=%s %s" % (prop, e))
        return 2
    finally:
        with _lock:
            ch = list(_children)
        for p in ch:
            try:
                os.killpg(p.pid, signal.SIGKILL)
            except Exception:
                pass
        if KEEP:
            log("kept", scratch)
        else:
            shutil.rmtree(scratch, ignore_errors=True)


def check(prop, tier, only, seed, scratch):
    fams = load_families()
    allenf = set()
    for f in fams:
        for j in f.jobs:
            allenf.update(j.enforce)
    sel = []
    for f in fams:
        js = [j for j in f.jobs
              if (prop in j.props or prop == "ALL")
              and (tier == "thorough" or j.tier == "quick")
              and (not only or re.search(only, j.name))]
        if js:
            sel.append((f, js))
    if not sel:
        raise Fail("no jobs")
    build = Build(scratch, set(s[0] for f in fams for s in f.stubs))
    for f, _ in sel:
        build.unity(f.base)
    results, errors, wraps = [], [], {}
    with concurrent.futures.ThreadPoolExecutor(NPROC) as ex:
        futs = {ex.submit(build.family, f, js): (f, js) for f, js in sel}
        jf = []
        for fu in concurrent.futures.as_completed(futs):
            f, js = futs[fu]
            try:
                gb, fns, wrap = fu.result()
            except Fail as e:
                errors.append(str(e))
                continue
            wraps[f.name] = wrap
            d = os.path.dirname(gb)
            for j in sorted(js, key=lambda j: -j.timeout):
                jf.append(ex.submit(run_job, build, j, gb, fns, d))
        for fu in concurrent.futures.as_completed(jf):
            r = fu.result()
            results.append(r)
            if VERBOSE or r.state != "ok":
                log("%-9s %-40s %d/%d obligations, %d canaries, %.1fs (solver %.1fs, %s, unwind %d) %s"
                    % (r.state, r.job.name, r.discharged, r.total, r.canaries,
                       r.wall, r.solver_s, r.backend, r.unwind, r.msg))
    results.sort(key=lambda r: (r.job.fam.name, r.job.name))
    viol = [r for r in results if r.state == "violation"]
    errs = [r for r in results if r.state in ("error", "vacuous")]
    known = known_findings()
    rdir = os.path.join(VERIF, "replays")
    lines, kf = [], []
    nrep = 0
    for r in viol:
        unlisted = []
        for x in r.failed:
            hit = [k for k in known if k[0] == prop and k[1] == r.job.name
                   and re.search(k[2], x["description"])]
            if hit:
                kf.append("KNOWN-FINDING: property=%s %s" % (prop, hit[0][3]))
            else:
                unlisted.append(x)
        if not unlisted:
            continue
        os.makedirs(rdir, exist_ok=True)
        # prefer a spec assertion: it can be replayed natively
        unlisted.sort(key=lambda x: (not x["description"].startswith("verif: "),
                                     x["property"]))
        path = os.path.join(rdir, "%s-%s.txt" % (prop, r.job.name))
        status, body = "not attempted", ""
        tried = []
        if nrep < 6 and not any(not ln.endswith("found") for ln in lines):
            nrep += 1
            for x in unlisted[:3]:
                vals, text, status, nat = replay(build, r, x["property"],
                                                 wraps[r.job.fam.name])
                tried.append((x["property"], vals, status))
                body = ("inputs (in order of consumption): %s\n\n"
                        "native run: %s\n%s\n\nverifier trace:\n%s\n"
                        % (vals, status, nat, text))
                if status == "reproduced":
                    break
        with open(path, "w") as f:
            f.write("property: %s\njob: %s (%s)\n" % (prop, r.job.name, r.job.about))
            f.write("functions under contract: %s; callees by contract: %s\n"
                    % (r.enforced, r.replaced))
            f.write("failed obligations:\n")
            for x in unlisted:
                sl = x.get("sourceLocation", {})
                f.write("  %s: %s (%s:%s)\n" % (x["property"], x["description"],
                                                sl.get("file"), sl.get("line")))
            f.write("replay attempts: %s\n\n%s" % (tried, body))
        for x in unlisted[:5]:
            log("  refuted: %s: %s" % (x["property"], x["description"]))
        log("  replay: %s" % status)
        lines.append("VIOLATION property=%s replay=%s%s" % (
            prop, path, "" if status == "reproduced" else " no-failing-input-found"))
    for k in sorted(set(kf)):
        log(k)
    write_evidence(prop, tier, seed, sel, results, errors, allenf, len(lines), only)
    # a reproduced violation first
    lines.sort(key=lambda s: s.endswith("found"))
    for ln in lines:
        log(ln)
    tot = sum(r.total for r in results)
    dis = sum(r.discharged for r in results)
    log("%s %s: %d jobs, %d/%d obligations discharged, %d violations, %d errors, %.0fs"
        % (prop, tier, len(results), dis, tot, len(lines), len(errs) + len(errors),
           time.time() - T0))
    for e in errors:
        log("ERROR: %s" % e)
    for r in errs:
        log("ERROR: job %s: %s" % (r.job.name, r.msg))
    if lines:
        return 1
    if errs or errors:
        return 2
    return 0


def write_evidence(prop, tier, seed, sel, results, errors, allenf, nviol, only):
    good = [r for r in results if r.state == "ok"]
    proved = [r for r in good if not r.job.bounded]
    bounded = [r for r in good if r.job.bounded]
    backends = {}
    for r in good:
        b = backends.setdefault(r.backend, {"jobs": 0, "obligations": 0, "solver_s": 0.0})
        b["jobs"] += 1
        b["obligations"] += r.discharged
        b["solver_s"] = round(b["solver_s"] + r.solver_s, 2)
    kinds = {}
    for r in results:
        for k, v in r.kinds.items():
            kinds[k] = kinds.get(k, 0) + v
    repl = sorted(set(f for r in results for f in r.replaced))
    assumed = [f for f in repl if f not in allenf]
    assumptions = source_assumptions([f for f, _ in sel])
    assumptions += ["contract of %s is assumed at its call sites; no job enforces it"
                    % f for f in assumed]
    assumptions += [
        "bounded: job %s: %s" % (r.job.name, r.job.bounded) for r in bounded]
    assumptions += [
        "machine model: x86-64 LP64 little-endian, IEEE-754 binary32/64, "
        "the preprocessor configuration in config/toywasm_config.h",
        "CBMC models malloc/free/memcpy/memmove/memset as in its C library model; "
        "allocation may fail at any call",
        "single-threaded execution of each function (no interleaving); "
        "__atomic_thread_fence has no effect",
        "lib/*.c are verified as one translation unit: headers get an include "
        "guard and clashing private names a per-file suffix, nothing else changes",
    ]
    cov = {
        "obligations": sum(r.total for r in results if not r.job.bounded),
        "discharged": sum(r.discharged for r in results if not r.job.bounded),
        "checker_cmd": "goto-cc; goto-instrument --dfcc --enforce-contract; "
                       "cbmc --unwinding-assertions",
        "trusted_base": ["cbmc 6.11.0 (goto-cc, goto-instrument, cbmc)",
                         "SAT back ends: " + ", ".join(sorted(backends) or ["none"]),
                         "vlib/run.py, vlib/mirror.py"],
        "jobs": len(results),
        "jobs_proved_unbounded": len(proved),
        "jobs_bounded": len(bounded),
        "bounded_obligations": sum(r.total for r in results if r.job.bounded),
        "bounded_discharged": sum(r.discharged for r in bounded),
        "vccs_sent_to_solver": sum(r.vcc for r in results),
        "vacuity_canaries_reached": sum(r.canaries for r in good),
        "functions_under_contract": sorted(set(f for r in good for f in r.enforced)),
        "contracts_checked_as_harness_assertions": sorted(set(
            f for r in good if not r.job.dfcc for f in r.enforced)),
        "harness_entry_points": len(results),
        "callees_by_contract": repl,
        "obligation_kinds": kinds,
        "back_ends": backends,
        "solver_s": round(sum(r.solver_s for r in results), 2),
        "no_answer": [r.job.name for r in results if r.state not in ("ok", "violation")]
        + [e[:200] for e in errors],
    }
    levels = {}
    mp = os.path.join(VERIF, "MANIFEST.json")
    try:
        for c in json.load(open(mp))["checks"]:
            levels[c["property"]] = c["level"]
    except Exception:
        pass
    ev = {"property": prop, "tier": tier if tier in ("quick", "thorough") else "quick",
          "seed": seed, "level": levels.get(prop, "proof"), "coverage": cov,
          "assumptions": assumptions, "violations": nviol,
          "wall_s": round(time.time() - T0, 2)}
    if only:
        return
    os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
    p = os.path.join(VERIF, "evidence", prop + ".json")
    with open(p + ".tmp", "w") as f:
        json.dump(ev, f, indent=1, sort_keys=True)
        f.write("\n")
    os.replace(p + ".tmp", p)


if __name__ == "__main__":
    sys.exit(main())
