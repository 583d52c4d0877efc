#!/usr/bin/env python3
"""Driver: decide one property by symbolic execution of /repo's current source (efsym), replay counterexamples.

usage: check.py <PROPERTY> [--only entry] [--keep]
exit 0: held on everything explored; 1: VIOLATION line printed; 2: no answer (tool error)."""
import sys, os, re, json, glob, hashlib, subprocess, time, shutil, threading, concurrent.futures as cf

VERIF = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get("VERIF_REPO", "/repo")
EFSYM = os.path.join(VERIF, "efsym", "obj", "efsym")
HARN = os.path.join(VERIF, "harness")
BUILD = os.environ.get("VERIF_BUILD", os.path.join(VERIF, "build"))
CLANG = "/usr/bin/clang++"
MPIINC = "/usr/lib/x86_64-linux-gnu/openmpi/include"
INC = ["-I%s/src" % REPO, "-I/usr/lib/petsc/include", "-I" + MPIINC, "-I" + MPIINC + "/openmpi", "-I" + HARN]
DEFS = ["-DNDEBUG", "-DUSE_PETSC", "-DOMPI_SKIP_MPICXX", "-D_GLIBCXX_ASSERTIONS"]
IRFLAGS = ["-std=c++20", "-O1", "-fno-vectorize", "-fno-slp-vectorize", "-ffp-contract=off", "-fno-math-errno", "-fno-pic", "-fno-pie",
           "-emit-llvm", "-c", "-w", "-DSYM_ENGINE", "-include", os.path.join(HARN, "sym_pre.h"), "-include", os.path.join(HARN, "p4decl.h")] + DEFS + INC
NATFLAGS = ["-std=c++20", "-O1", "-g", "-w", "-fpermissive", "-fsanitize=address,undefined", "-fno-sanitize-recover=undefined",
            "-include", "functional", "-include", os.path.join(HARN, "p4decl.h")] + DEFS + INC
NATLIBS = ["-L/usr/lib/petsc/lib", "-lpetsc", "-lp4est", "-lsc", "-llapack", "-lblas", "-lmpi", "-lz", "-ldl", "-lpthread"]
NCPU = 8

def sh(cmd, **kw):
    return subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, errors="replace", **kw)

class ToolError(Exception): pass

def repo_sources():
    return sorted(f for f in glob.glob(REPO + "/src/**/*.cpp", recursive=True) if os.path.getsize(f) >= 0)

def tree_hash(extra=()):
    h = hashlib.sha256()
    fs = sorted(glob.glob(REPO + "/src/**/*", recursive=True)) + sorted(glob.glob(HARN + "/*"))
    for f in fs:
        if os.path.isfile(f) and f.rsplit(".", 1)[-1] in ("cpp", "hpp", "h", "c", "hh", "inc", "ipp", "txx"):
            h.update(f.encode()); h.update(open(f, "rb").read())
    for e in extra: h.update(str(e).encode())
    return h.hexdigest()[:16]

META = re.compile(r"^//\s*@(\w+)\s+(.*)$", re.M)
def parse_harness(path):
    m = dict(entries=[], bounds=[], stubs=[], assume=[], outside=[])
    for k, v in META.findall(open(path).read()):
        if k == "entry":
            parts = v.split(); e = dict(name=parts[0], reach=[], tier="quick", ranks=0, jobs=0, time=0, native="yes")
            for p in parts[1:]:
                a, b = p.split("=", 1)
                e[a] = b.split(",") if a == "reach" else (int(b) if a in ("ranks", "jobs", "time") else b)
            m["entries"].append(e)
        elif k in m: m[k].append(v)
        else: m[k] = v
    return m

def compile_ir(harness, defs, outdir):
    os.makedirs(outdir, exist_ok=True)
    key = tree_hash(IRFLAGS + defs + [harness])
    out = os.path.join(outdir, os.path.basename(harness)[:-4] + "." + key + ".bc")
    if os.path.exists(out): return out
    srcs = [harness, os.path.join(HARN, "sym_models.cpp"), os.path.join(HARN, "sym_p4est.cpp")] + repo_sources()
    tmp = os.path.join(outdir, "ir." + key + "." + str(os.getpid())); os.makedirs(tmp, exist_ok=True)
    def one(i_s):
        i, s = i_s; o = os.path.join(tmp, "%d.bc" % i)
        r = sh([CLANG] + IRFLAGS + defs + [s, "-o", o])
        if r.returncode: raise ToolError("cannot compile %s:\n%s" % (s, r.stdout[-4000:]))
        return o
    with cf.ThreadPoolExecutor(NCPU) as ex: objs = list(ex.map(one, enumerate(srcs)))
    r = sh(["/usr/bin/llvm-link"] + objs + ["-o", out + ".tmp"])
    if r.returncode: raise ToolError("llvm-link: " + r.stdout[-2000:])
    os.rename(out + ".tmp", out); shutil.rmtree(tmp, ignore_errors=True)
    return out

_natlock = threading.Lock(); _natobj = {}
def compile_native(harness, entry, defs, outdir, mpi):
    with _natlock:
        odir = os.path.join(outdir, "nat." + tree_hash(NATFLAGS)); os.makedirs(odir, exist_ok=True)
        def one(s):
            o = os.path.join(odir, hashlib.sha256((s + repr(defs)).encode()).hexdigest()[:16] + ".o")
            if not os.path.exists(o):
                r = sh(["g++"] + NATFLAGS + defs + ["-c", s, "-o", o])
                if r.returncode: raise ToolError("native compile %s:\n%s" % (s, r.stdout[-4000:]))
            return o
        with cf.ThreadPoolExecutor(NCPU) as ex: objs = list(ex.map(one, [harness] + repo_sources()))
        exe = os.path.join(odir, os.path.basename(harness)[:-4] + "." + entry)
        r = sh(["g++"] + NATFLAGS + defs + ["-DSYM_ENTRY=" + entry] + (["-DSYM_MPI"] if mpi else []) +
               [os.path.join(HARN, "sym_native.cpp")] + objs + ["-o", exe] + NATLIBS)
        if r.returncode: raise ToolError("native link:\n" + r.stdout[-4000:])
        return exe

def native_env(extra):
    env = dict(os.environ); env.update(extra)
    env.update(ASAN_OPTIONS="detect_leaks=0:exitcode=43:allocator_may_return_null=1", UBSAN_OPTIONS="print_stacktrace=0:exitcode=43",
               OMPI_MCA_btl="self,vader,tcp", OMPI_MCA_rmaps_base_oversubscribe="1", OMPI_ALLOW_RUN_AS_ROOT="1", OMPI_ALLOW_RUN_AS_ROOT_CONFIRM="1",
               OMPI_MCA_plm_rsh_agent="", HWLOC_COMPONENTS="-gl", OMPI_MCA_btl_vader_single_copy_mechanism="none")
    return env

def run_native(exe, entry, model, workdir, seed=None, ranks=0):
    os.makedirs(workdir, exist_ok=True)
    rep = os.path.join(workdir, "model.tsv")
    with open(rep, "w") as f:
        for k, v in (model or {}).items(): f.write("%s\t%s\n" % (k, v))
    env = native_env({"SYM_REPLAY": rep, "SYM_SEED": str(seed or 1), "SYM_WORKDIR": workdir})
    cmd = ([ "mpirun", "--oversubscribe", "-n", str(ranks)] if ranks else []) + [exe]
    try: r = sh(cmd, env=env, timeout=90, cwd=workdir)
    except subprocess.TimeoutExpired as e: return "hang", (e.stdout or b"").decode(errors="replace")[-3000:] if isinstance(e.stdout, bytes) else str(e.stdout)[-3000:]
    rc, out = r.returncode, r.stdout
    if "SYM-FAIL" in out or "AddressSanitizer" in out or "runtime error:" in out: return "fail", out[-4000:]
    if rc == 0: return "pass", out[-1500:]
    if rc == 77 or "SYM-ASSUME-FALSE" in out: return "assume", out[-1500:]
    return "fail", out[-4000:]

def load_known():
    p = os.path.join(VERIF, "known_findings.jsonl"); r = []
    if os.path.exists(p):
        for l in open(p):
            l = l.strip()
            if l and not l.startswith("#"): r.append(json.loads(l))
    return r

def main():
    if len(sys.argv) < 2: print(__doc__); return 2
    pid = sys.argv[1]; only = None; keep = False
    i = 2
    while i < len(sys.argv):
        if sys.argv[i] == "--only": i += 1; only = sys.argv[i]
        elif sys.argv[i] == "--keep": keep = True
        i += 1
    tier = os.environ.get("VERIF_TIER", "quick"); seed = int(os.environ.get("VERIF_SEED", "1") or 1)
    thorough = tier == "thorough"
    t0 = time.time(); limit = 820 if not thorough else 6 * 3600
    hs = sorted(glob.glob(os.path.join(HARN, pid.lower() + "_*.cpp")) + glob.glob(os.path.join(HARN, pid.lower() + ".cpp")))
    if not hs: print("no harness for", pid); return 2
    if not os.path.exists(EFSYM):
        r = sh(["make", "-C", os.path.join(VERIF, "efsym"), "-j8"])
        if r.returncode: print(r.stdout[-3000:]); return 2
    work = os.path.join(BUILD, pid); os.makedirs(work, exist_ok=True)
    defs = ["-DSYM_THOROUGH=1"] if thorough else []
    jobs = []
    try:
        for h in hs:
            meta = parse_harness(h); bc = compile_ir(h, defs, work)
            for e in meta["entries"]:
                if only and e["name"] != only: continue
                if e["tier"] == "thorough" and not thorough: continue
                jobs.append((h, meta, bc, e))
    except ToolError as ex:
        print("TOOL-ERROR", ex); return 2
    results = {}
    def run(job):
        h, meta, bc, e = job
        out = os.path.join(work, e["name"] + ".jsonl")
        left = limit - (time.time() - t0)
        tl = e["time"] or (600 if not thorough else 4 * 3600)
        wd = os.path.join(work, "run." + e["name"]); shutil.rmtree(wd, ignore_errors=True); os.makedirs(wd)
        env = dict(os.environ, SYM_WORKDIR=wd, EFSYM_STOP=stop)
        par = e["jobs"] or max(1, NCPU // max(1, min(len(jobs), NCPU)))
        r = sh([EFSYM, "--bc", bc, "--entry", e["name"], "--out", out, "--time", str(max(20, min(tl, left - 60))), "--jobs", str(par), "--max-fails", "6"], env=env, cwd=wd)
        lines = []
        try:
            for l in open(out, errors="replace"):
                try: lines.append(json.loads(l))
                except ValueError: pass
        except OSError: pass
        fails = [l for l in lines if l.get("kind") == "fail"]; known_, viol_, errs_ = set(), None, []
        with replaylock:
            for f in fails:
                k = next((k for k in known if re.search(k["entry"], e["name"]) and re.search(k["match"], f["msg"] + " @ " + f.get("where", "") + " # " + f.get("notes", ""))), None)
                if k: known_.add((k["id"], k["what"]))
                elif viol_ is None and not os.path.exists(stop): viol_, x = replay(job, f); errs_ += x
            if viol_: open(stop, "w").close() # the entries still running are cut off
        return job, r, lines, known_, viol_, errs_
    known = [k for k in load_known() if k.get("property") == pid and k.get("status") == "known"]
    replaylock = threading.Lock(); stop = os.path.join(work, "found"); 
    if os.path.exists(stop): os.remove(stop)
    def replay(job, f): # a counterexample counts once the natively compiled code shows it too
        h, meta, bc, e = job; name = e["name"]
        rd = os.path.join(work, "replay." + name); os.makedirs(rd, exist_ok=True)
        rec = dict(property=pid, entry=name, harness=h, failure=f, confirmed_by=None)
        try:
            exe = compile_native(h, name, defs, work, e["ranks"] > 0)
            ints = {a: b for a, b in (f.get("model") or {}).items() if re.fullmatch(r"-?\d+", str(b))}
            for s in [1] + list(range(2, 14)):
                mdl, how = (f.get("model"), "solver model") if s == 1 else (ints, "solver model integers + random reals seed %d" % (seed * 100 + s))
                verdict, out = run_native(exe, name, mdl, rd, 1 if s == 1 else seed * 100 + s, e["ranks"])
                if verdict in ("fail", "hang") or time.time() - t0 > limit + 30: break
            if verdict in ("fail", "hang"):
                rec["confirmed_by"] = how; rec["native_output"] = out
                dst = os.path.join(work, "counterexample.%s.json" % name); shutil.copy(os.path.join(rd, "model.tsv"), os.path.join(work, "counterexample.%s.tsv" % name))
                rec["replay"] = "SYM_REPLAY=%s %s%s" % (os.path.join(work, "counterexample.%s.tsv" % name), "mpirun -n %d " % e["ranks"] if e["ranks"] else "", exe)
                json.dump(rec, open(dst, "w"), indent=1); return (dst, f, out), []
            return None, ["%s: counterexample did not reproduce natively (%s): %s @ %s | %s" % (name, verdict, f["msg"][:600], f.get("where", "")[:300], json.dumps(f.get("model"))[:600])]
        except ToolError as ex: return None, ["%s: replay build failed: %s" % (name, str(ex)[-2500:])]
    with cf.ThreadPoolExecutor(min(NCPU, max(1, len(jobs)))) as ex:
        done = list(ex.map(run, jobs))
    viol, knownhits, errors = [], set(), []
    cov = dict(entries=[], evaluations=0, distinct_nontrivial=0, queries=0, obligations=0, solver_s=0.0, samples=[]); fnset = set(); assumptions = []; bounds = []
    for job, r, lines, known_, viol_, errs_ in done:
        h, meta, bc, e = job; name = e["name"]
        summ = next((l for l in lines if l.get("kind") == "summary"), None)
        fails = [l for l in lines if l.get("kind") == "fail"]; errs = [l for l in lines if l.get("kind") == "error"]
        reached = {l["label"] for l in lines if l.get("kind") == "reach"}
        paths = [l for l in lines if l.get("kind") == "path"]
        if summ is None: errors.append("%s: engine gave no summary: %s" % (name, r.stdout[-1500:])); continue
        ok_reach = [x for x in e["reach"] if x not in reached]
        for a in meta["bounds"]:
            if a not in bounds: bounds.append(a)
        for a in meta["stubs"] + meta["assume"] + meta["outside"]:
            if a not in assumptions: assumptions.append(a)
        fnset |= set(summ.get("functions", []))
        cov["entries"].append({k: summ[k] for k in ("entry", "paths", "infeasible", "instrs", "obligations", "trivial", "equalities", "queries", "nonlinear_queries", "solver_s", "wall_s", "repo_functions", "max_monomials", "fails", "errors") if k in summ} | {"reached": sorted(reached)})
        cov["evaluations"] += summ["paths"]; cov["obligations"] += summ["obligations"]; cov["queries"] += summ["queries"]; cov["solver_s"] += summ["solver_s"]
        cov["distinct_nontrivial"] += max(0, summ["obligations"] - summ["trivial"])
        if len(cov["samples"]) < 12:
            for p in paths[:2]: cov["samples"].append({"entry": name, "choices": p.get("choices", ""), "notes": p.get("notes", ""), "symbolic_inputs": p.get("inputs", 0)})
        knownhits |= known_; errors += errs_
        if viol_: viol.append(viol_)
        for x in errs: errors.append("%s: %s %s" % (name, x["msg"], x.get("where", "")))
        if ok_reach and not fails and summ.get("stopped") != 3: errors.append("%s: vacuous, never reached %s" % (name, ok_reach))
    wall = time.time() - t0
    ev = dict(property=pid, tier=tier, seed=seed, level="model_checking" if False else "other", wall_s=round(wall, 2), violations=len(viol), assumptions=assumptions,
              coverage=dict(explanation="Symbolic execution of the LLVM IR of /repo's current sources (efsym + z3). Each path is a set of inputs; every obligation is a solver verdict over all values on that path.",
                            bounds=bounds, paths=cov["evaluations"], obligations=cov["obligations"], decided_by_solver=cov["distinct_nontrivial"], solver_queries=cov["queries"], solver_s=round(cov["solver_s"], 3),
                            functions_encoded=sorted(fnset), entries=cov["entries"], samples=cov["samples"], known_findings_seen=sorted(k[0] for k in knownhits), inconclusive=errors[:20]))
    os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
    json.dump(ev, open(os.path.join(VERIF, "evidence", pid + ".json"), "w"), indent=1)
    for kid, what in sorted(knownhits): print("KNOWN-FINDING: property=%s %s" % (pid, what))
    for k in known:
        if k["id"] not in {x[0] for x in knownhits}: print("note: known finding %s not observed in this run" % k["id"])
    for c in cov["entries"]: print("  %-34s paths=%-6d obligations=%-7d queries=%-6d solver=%.1fs wall=%.1fs fails=%d errors=%d" % (c["entry"], c["paths"], c["obligations"], c["queries"], c["solver_s"], c["wall_s"], c["fails"], c["errors"]))
    for e in errors[:12]: print("INCONCLUSIVE", e[:3000])
    for dst, f, out in viol:
        print("  counterexample: %s" % f["msg"][:700]); print("    at %s" % f.get("where", "")[:400]); print("    model %s" % json.dumps(f.get("model"))[:800]); print("    native: %s" % out.strip()[-600:].replace("\n", "\n            "))
    if not keep:
        for d in glob.glob(os.path.join(work, "run.*")): shutil.rmtree(d, ignore_errors=True)
    if viol:
        for dst, f, out in viol: print("VIOLATION property=%s replay=%s" % (pid, dst))
        return 1
    if errors: return 2
    print("OK property=%s %d paths, %d obligations, %.1fs" % (pid, cov["evaluations"], cov["obligations"], wall)); return 0

if __name__ == "__main__": sys.exit(main())
