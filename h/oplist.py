"""opcode -> handler name, from the instruction lists of the sources"""
import glob
import os
import re


def table(repo):
    t = {}
    for path, pre in (("insn_list_base.h", ""), ("insn_list_eh.h", ""),
                      ("insn_list_tailcall.h", ""), ("insn_list_fc.h", "fc"),
                      ("insn_list_simd.h", "fd"), ("insn_list_threads.h", "fe")):
        p = os.path.join(repo, "lib", path)
        if not os.path.exists(p):
            continue
        s = open(p).read()
        s = re.sub(r"/\*.*?\*/", "", s, flags=re.S)
        for m in re.finditer(r'INSTRUCTION\(\s*(0x[0-9a-fA-F]+|\d+)\s*,\s*"[^"]*"\s*,\s*(\w+)\s*,', s):
            t[(pre, int(m.group(1), 0))] = m.group(2)
    return t
