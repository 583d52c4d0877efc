#!/usr/bin/env python3
"""Confirms planted bugs (seeded/<id>): works in a private mount namespace on copies of /repo and /verif, so several can run at once.
usage: plant.py [--nocheck] [-j N] ID..."""
import sys,os,subprocess,json,shutil,concurrent.futures as cf
def sh(cmd,cwd=None,timeout=1200,log=None):
    with open(log,"ab") as f:
        f.write(("\n$ "+cmd+"\n").encode()); f.flush()
        try: return subprocess.run(["bash","-c",cmd],cwd=cwd,stdout=f,stderr=subprocess.STDOUT,timeout=timeout).returncode
        except subprocess.TimeoutExpired: return 124
def inner(i,check):
    S="/tmp/plant/%s"%i; log=S+"/log"; D=S+"/seed"
    r={"id":i}
    r["apply"]=sh("git -C /repo apply --check %s/patch.diff"%D,log=log)==0
    sh("bash /opt/vp/build.sh",log=log)
    r["demo_clean"]=sh("bash %s/demo.sh"%D,cwd="/repo",timeout=300,log=log)
    if r["apply"]:
        sh("git -C /repo apply %s/patch.diff"%D,log=log)
        r["build"]=sh("bash /opt/vp/test.sh %s/out.json"%S,log=log)
        try:
            got=json.load(open(S+"/out.json"))["passed"]; base=json.load(open("/opt/vp/BASELINE.json"))["stable"]; r["tests"]="ok" if set(base)<=set(got) else "BROKEN %s"%sorted(set(base)-set(got))
        except Exception as e: r["tests"]="?%s"%e
        r["demo_bug"]=sh("bash %s/demo.sh"%D,cwd="/repo",timeout=300,log=log)
        if check:
            prop=json.load(open(D+"/meta.json"))["property"]
            r["check"]=sh("cd /verif && VERIF_SEED=1 VERIF_TIER=quick timeout 900 python3 check.py %s > %s/check.out 2>&1"%(prop,S),log=log)
            r["lines"]=[l.strip()[:160] for l in open(S+"/check.out",errors="replace") if l.startswith("VIOLATION") or "counterexample" in l]; r["lines"]=[l for l in r["lines"] if l.startswith("VIOLATION property="+prop+" ")][:1]+[l for l in r["lines"] if "counterexample" in l][:1]
    good=r.get("apply") and r.get("demo_clean")==0 and r.get("tests")=="ok" and r.get("demo_bug") not in (0,None)
    r["counts"]=bool(good)
    if check: r["caught"]=r.get("check")==1 and any("VIOLATION" in l for l in r["lines"])
    print(json.dumps(r)); open(S+"/result.json","w").write(json.dumps(r))
def outer(i,check):
    S="/tmp/plant/%s"%i; shutil.rmtree(S,ignore_errors=True); os.makedirs(S)
    subprocess.check_call(["cp","-a","/repo",S+"/repo"]); subprocess.check_call("mkdir -p %s/verif && cd /verif && tar c --exclude=./build --exclude=./.git --exclude=./seeded . | tar x -C %s/verif"%(S,S),shell=True)
    shutil.copytree("/verif/seeded/"+i,S+"/seed")
    out=subprocess.run(["unshare","-m","bash","-c","mount --bind %s/repo /repo && mount --bind %s/verif /verif && cd / && exec python3 %s --inner %s %s"%(S,S,"/verif/tools/plant.py",i,"" if check else "--nocheck")],capture_output=True,text=True)
    shutil.rmtree(S+"/repo",ignore_errors=True); shutil.rmtree(S+"/verif",ignore_errors=True)
    return i,out.stdout.strip() or out.stderr[-500:]
if __name__=="__main__":
    a=sys.argv[1:]; check="--nocheck" not in a; a=[x for x in a if x!="--nocheck"]
    if a[0]=="--inner": inner(a[1],check); sys.exit()
    j=3
    if a[0]=="-j": j=int(a[1]); a=a[2:]
    if a==["all"]: a=sorted(os.listdir("/verif/seeded"))
    with cf.ThreadPoolExecutor(j) as ex:
        for f in cf.as_completed([ex.submit(outer,i,check) for i in a]):
            i,o=f.result()
            try:
                r=json.loads(o); print("%-28s counts=%s caught=%s demo %s/%s tests=%s check=%s %s"%(i,r["counts"],r.get("caught"),r.get("demo_clean"),r.get("demo_bug"),r.get("tests"),r.get("check"),r.get("lines",[""])[1:2]),flush=True)
            except Exception: print(i,"ERROR",o,flush=True)
