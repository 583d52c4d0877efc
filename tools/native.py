#!/usr/bin/env python3
"""Runs every entry of a harness natively (real PETSc, p4est, MPI, LAPACK) on sampled inputs: how far the models agree with the real libraries.
Not a check: nothing is decided from it.  usage: native.py ID [seeds] [entry]"""
import sys, os, glob, tempfile
sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
import check
ident = sys.argv[1]; seeds = int(sys.argv[2]) if len(sys.argv) > 2 else 5; only = sys.argv[3] if len(sys.argv) > 3 else None
h = glob.glob(os.path.join(check.HARN, ident.lower() + "_*.cpp"))[0]
for e in check.parse_harness(h)["entries"]:
    if only and e["name"] != only: continue
    res = {}
    with tempfile.TemporaryDirectory() as w:
        exe = check.compile_native(h, e["name"], [], w, e["ranks"] > 0)
        for s in range(1, seeds + 1):
            v, out = check.run_native(exe, e["name"], None, w, s, e["ranks"]); res[v] = res.get(v, 0) + 1
            if v not in ("pass", "assume"): print("   seed", s, v, [l for l in out.split("\n") if "SYM" in l or "symbolic" in l or "FAIL" in l or "check" in l or "ERROR" in l or "Sanit" in l][:2])
    print("%-20s %s" % (e["name"], res), flush=True)
