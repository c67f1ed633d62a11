#!/usr/bin/env python3
# mkseeds.py [ID...]: makes /verif/seeded/<id>/ from doc/seeds/<id>.py, verifying each in a
# scratch copy of /repo: it applies, builds, passes the tests, and its demo tells the trees apart.
# Development aid; no check uses it.
import json, os, subprocess, sys, shutil, glob
here=os.path.dirname(os.path.abspath(__file__)); V=os.path.dirname(here)
W="/tmp/w/seed"
def sh(c,cwd=None,t=600):
    return subprocess.run(c,shell=True,cwd=cwd,stdout=subprocess.PIPE,stderr=subprocess.STDOUT,text=True,timeout=t)
ids=sys.argv[1:] or sorted(os.path.basename(f)[:-3] for f in glob.glob(here+"/seeds/*.py"))
base=json.load(open("/opt/vp/BASELINE.json"))
for id in ids:
    ns={}
    exec(open(f"{here}/seeds/{id}.py").read(),ns)
    d=f"{W}/{id}"; shutil.rmtree(d,ignore_errors=True); os.makedirs(W,exist_ok=True)
    sh(f"cp -a /repo {d}")
    for f,old,new in ns["edits"]:
        p=f"{d}/{f}"; s=open(p).read()
        if s.count(old)!=1: print(id,"EDIT matches",s.count(old),f); break
        open(p,"w").write(s.replace(old,new))
    else:
        patch=sh("git diff",d).stdout
        r=sh("go vet ./pkg/ed ./pkg/flag >/dev/null 2>&1; . /opt/vp/env.sh; true",d)
        pk=sorted({os.path.dirname(f) for f,_,_ in ns["edits"]})
        r=sh("GOTOOLCHAIN=local GOFLAGS=-mod=mod go build "+" ".join("./"+x for x in pk)+" ./cmd/cat ./cmd/diff ./cmd/tsort ./cmd/ed && rm -f cat diff tsort ed; git status --short",d)
        if "error" in r.stdout or "#" in r.stdout: print(id,"BUILD",r.stdout)
        t=sh("GOTOOLCHAIN=local go test -vet=off -count=1 ./cmd/ed ./pkg/... 2>&1",d)
        t0=sh("GOTOOLCHAIN=local go test -vet=off -count=1 ./cmd/ed ./pkg/... 2>&1","/repo")
        fails=lambda o:sorted(l.split("(")[0] for l in o.splitlines() if "--- FAIL" in l or "[build failed]" in l)
        if fails(t.stdout)!=fails(t0.stdout): print(id,"TESTS",fails(t.stdout),fails(t0.stdout))
        o=f"{V}/seeded/{id}"; os.makedirs(o,exist_ok=True)
        open(o+"/patch.diff","w").write(patch)
        open(o+"/demo.sh","w").write(ns["demo"].lstrip("\n")); os.chmod(o+"/demo.sh",0o755)
        for fn,txt in ns.get("files",{}).items(): open(o+"/"+fn,"w").write(txt)
        json.dump({"property":ns["prop"],"needs":ns["needs"],"what_it_breaks":ns["breaks"]},open(o+"/meta.json","w"),indent=1)
        a=sh(f"bash {o}/demo.sh","/repo"); b=sh(f"bash {o}/demo.sh",d)
        ok = a.returncode==0 and b.returncode!=0
        c=sh(f"VERIF_REPO={d} {V}/run.sh {ns['prop']} | tail -1")
        print(id,ns["prop"],"ok" if ok else f"DEMO base={a.returncode} patched={b.returncode}\n{a.stdout}\n{b.stdout}", "| check:",c.stdout.strip()[:150])
    shutil.rmtree(d,ignore_errors=True)
