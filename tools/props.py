#!/usr/bin/env python3
"""Source of /verif/properties.jsonl and /verif/MANIFEST.json (run: python3 tools/props.py)."""
import json, os, glob
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
P = []
def p(id, title, statement, over, text, why, files, mech, state=None, observe=None):
    assert len(title) <= 80, (id, len(title))
    a = dict(files=files, mechanism=[dict(name=n, where=w) for n, w in mech])
    if state: a["state"] = [dict(name=n, meaning=m, where=w) for n, m, w in state]
    if observe: a["observe_at"] = observe
    a["hook_needed"] = None
    P.append(dict(id=id, title=title, statement=statement, quantifier=dict(over=over, text=text), why_tests_cant=why, anchors=a))
H = "src/HPSAlgorithm.hpp"; FV = "src/Patches/FiniteVolume/"
exec(open(os.path.join(V, "tools", "props_data.py")).read())
with open(os.path.join(V, "properties.jsonl"), "w") as f:
    for x in P: f.write(json.dumps(x) + "\n")
have = {os.path.basename(h)[:3].upper() for h in glob.glob(os.path.join(V, "harness", "c[0-9][0-9]_*.cpp"))}
checks, na = [], []
for x in P:
    i = x["id"]
    if i in NA: na.append(dict(property=i, reason=NA[i]))
    elif i in have:
        checks.append(dict(property=i, quick_cmd="python3 check.py %s" % i, thorough_cmd="VERIF_TIER=thorough python3 check.py %s" % i, evidence_file="evidence/%s.json" % i,
            technique="symbolic execution of the compiled LLVM IR with z3 (efsym); counterexamples replayed natively under ASan/UBSan", level="other",
            level_note="Solver verdict over all inputs within the bounds listed in DESIGN.md and in the evidence file: real-valued inputs range over the exact reals, libraries are replaced by the stated contracts (BLAS/LAPACK/PETSc/MPI/p4est/FISHPACK models), nothing is claimed outside the bounds or about floating-point rounding."))
    else: na.append(dict(property=i, reason="check under construction; not claimed yet"))
m = dict(version=1, setup_cmd="make -C efsym -j8", checks=checks, not_applicable=na, notes="No hooks are needed in /repo: the checks compile its unmodified sources to LLVM IR. See DESIGN.md.")
json.dump(m, open(os.path.join(V, "MANIFEST.json"), "w"), indent=1)
print(len(P), "properties,", len(checks), "checks,", len(na), "not applicable")
