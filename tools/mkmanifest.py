#!/usr/bin/env python3
"""Rewrite MANIFEST.json from properties.jsonl and the jobs in h/."""
import json
import os
import sys

V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(V, "vlib"))
import run  # noqa: E402

NA = {
    "P33": "Wait/notify correctness is a statement about thread interleavings. CBMC's code contracts "
           "are sequential (dynamic frame instrumentation does not support concurrency), so no contract "
           "within reach can express or decide it; the sequential parts of the instructions are covered "
           "by P10.",
}
HOLD = {"P09", "P22"}
DEFAULT_NA = "No contract for the functions behind this property has been discharged yet."


def main():
    fams = run.load_families()
    jobs = {}
    for f in fams:
        for j in f.jobs:
            for p in j.props:
                jobs.setdefault(p, []).append(j)
    checks = []
    na = []
    for ln in open(os.path.join(V, "properties.jsonl")):
        p = json.loads(ln)["id"]
        js = jobs.get(p, [])
        q = [j for j in js if j.tier == "quick"]
        if p in NA or p in HOLD or not q:
            na.append({"property": p, "reason": NA.get(p, DEFAULT_NA)})
            continue
        nb = [j for j in q if j.bounded]
        lvl = "model_checking" if 2 * len(nb) > len(q) else "proof"
        note = "%d contract jobs in the quick tier" % len(q)
        if len(js) > len(q):
            note += ", %d more in the thorough tier" % (len(js) - len(q))
        if nb:
            note += ("; %d of the quick jobs are bounded stand-ins (bounds listed in the evidence, their "
                     "obligations are not counted as proved)" % len(nb))
        note += (". Obligations are decided by SAT/SMT on the real sources; assumptions and trusted "
                 "stubs are listed in the evidence.")
        c = {"property": p, "quick_cmd": "./check %s quick" % p,
             "technique": "CBMC code contracts (goto-instrument --dfcc) on the real functions",
             "level": lvl, "level_note": note}
        if len(js) > len(q):
            c["thorough_cmd"] = "./check %s thorough" % p
        c["evidence_file"] = "evidence/%s.json" % p
        checks.append(c)
    m = {"version": 1, "setup_cmd": "./setup", "checks": checks, "not_applicable": na,
         "notes": "Checks rebuild everything from /repo on each run. Exit 2 means the verifier gave no "
                  "answer (time, memory or an extraction problem); it is never reported as a violation."}
    with open(os.path.join(V, "MANIFEST.json"), "w") as f:
        json.dump(m, f, indent=1)
        f.write("\n")
    print(len(checks), "checks;", len(na), "not applicable")


main()
