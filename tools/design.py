#!/usr/bin/env python3
"""Writes /verif/DESIGN.md."""
import json, os, re, glob, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
T = os.path.join(V, "tools")
sys.path.insert(0, V)
exec(open(os.path.join(T, "design_how.py")).read())
META = re.compile(r"^//\s*@(\w+)\s+(.*)$", re.M)
props = [json.loads(l) for l in open(os.path.join(V, "properties.jsonl"))]
known = [json.loads(l) for l in open(os.path.join(V, "known_findings.jsonl")) if l.strip()]
planted = json.load(open(os.path.join(T, "planted.json"))) if os.path.exists(os.path.join(T, "planted.json")) else {}
o = [open(os.path.join(T, "design_head.md")).read().rstrip(), ""]
o += ["| property | commit | what failed |", "|---|---|---|"]
for k in known:
    if k["status"] == "fixed":
        m = re.match(r"fixed: property=\S+ (\S+) (.*)", k["note"]); o.append("| %s | %s | %s |" % (k["property"], m[1], m[2]))
o += ["", "Recorded, not repaired (listed in `known_findings.jsonl`, printed as KNOWN-FINDING):", ""]
for k in known:
    if k["status"] == "known": o.append("* **%s** (%s, entry `%s`): %s. %s" % (k["id"], k["property"], k["entry"].strip("^$"), k["what"], k.get("why", "")))
o += ["", open(os.path.join(T, "design_tail.md")).read().rstrip() if os.path.exists(os.path.join(T, "design_tail.md")) else "", "", "## 4. Properties", ""]
for p in props:
    i = p["id"]; h = glob.glob(os.path.join(V, "harness", i.lower() + "_*.cpp"))
    o += ["### %s %s" % (i, p["title"]), "", "*How it is decided.* " + HOW[i], ""]
    tags = META.findall(open(h[0]).read()); g = lambda t: " ".join(v for k, v in tags if k == t)
    for t, n in (("bounds", "Bounds"), ("stubs", "Contracts and models"), ("assume", "Assumed"), ("outside", "Outside")):
        if g(t): o += ["*%s.* %s" % (n, g(t)), ""]
    o += ["*Entries* (`%s`): %s." % (os.path.relpath(h[0], V), ", ".join("`%s`" % v.split()[0] + (" (thorough)" if "tier=thorough" in v else "") + (" (%s ranks)" % re.search(r"ranks=(\d)", v)[1] if "ranks=" in v else "") for k, v in tags if k == "entry")), ""]
    o += ["*Beyond tests.* " + p["why_tests_cant"], ""]
    pb = [(k, v) for k, v in sorted(planted.items()) if v["property"] == i]
    if pb: o += ["*Planted bugs.* " + "; ".join("`%s` (%s): %s" % (k, v["what"], "caught" if v["caught"] else "**missed**") for k, v in pb) + ".", ""]
open(os.path.join(V, "DESIGN.md"), "w").write("\n".join(o) + "\n")
print(len(o), "lines")
