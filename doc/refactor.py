#!/usr/bin/env python3
# refactor.py [NAME...]: runs the claimed checks against behaviour-preserving rewrites
# (doc/refactor/*.txt, each a whole file headed by its path). Development aid; no check uses it.
import glob, os, subprocess, sys, shutil, json
from concurrent.futures import ThreadPoolExecutor
here=os.path.dirname(os.path.abspath(__file__)); V=os.path.dirname(here)
PROPS={"cmd/cat":"C01 C02 C03","cmd/cmp":"C02 C03 C05 C06","cmd/head":"C02 C03 C10","cmd/kill":"C03 C11","pkg/locale/locale.go":"C03 C16",
"cmd/cksum":"C02 C03 C04"}
try: exec(open(here+"/refactor_props.py").read())
except FileNotFoundError: pass
TASK=lambda f:os.path.dirname(f).split("/")[1] if f.startswith("cmd/") else {"pkg/locale":"locale","pkg/tsort":"tsort","pkg/diff":"diff"}.get(os.path.dirname(f),"")
def sh(c,cwd=None): return subprocess.run(c,shell=True,cwd=cwd,stdout=subprocess.PIPE,stderr=subprocess.STDOUT,text=True)
names=[a for a in sys.argv[1:] if not a.startswith("C")] or sorted(os.path.basename(f)[:-4] for f in glob.glob(here+"/refactor/*.txt"))
onlyp=[a for a in sys.argv[1:] if a.startswith("C")]

def one(n):
    s=open(f"{here}/refactor/{n}.txt").read(); first,body=s.split("\n",1); f=first.split(": ")[1].strip()
    d=f"/tmp/w/ref/{n}"; shutil.rmtree(d,ignore_errors=True); os.makedirs("/tmp/w/ref",exist_ok=True); sh(f"cp -a /repo {d}")
    open(f"{d}/{f}","w").write(body)
    r=sh("GOTOOLCHAIN=local go vet ./"+os.path.dirname(f),d); out=[]
    r=sh("GOTOOLCHAIN=local go build -o /dev/null ./"+os.path.dirname(f),d)
    if r.returncode: return f"{n}: BUILD {r.stdout}"
    key=[k for k in PROPS if f.startswith(k)]
    for p in PROPS[key[0]].split():
        if onlyp and p not in onlyp: continue
        o="/tmp/w/ref/out-"+n; os.makedirs(o,exist_ok=True)
        task=f"-task {TASK(f)}" if p in ("C02","C03","C22") and TASK(f) not in ("","ed") else ""
        r=sh(f"GOTOOLCHAIN=local GOPROXY=off CGO_ENABLED=0 timeout 600 {V}/bin/vtool -repo {d} -out {o} -prop {p} {task}")
        open(f"{o}/{p}.log","w").write(r.stdout)
        st="+".join(sorted({w for l in r.stdout.splitlines() if l.startswith(p+" ") for w in l.replace(":"," ").split() if w.isupper() and len(w)>4}))
        out.append(f"{p}={st or r.stdout[-200:]}")
    shutil.rmtree(d,ignore_errors=True)
    return f"{n}: "+" ".join(out)
with ThreadPoolExecutor(4) as ex:
    for r in ex.map(one,names): print(r,flush=True)
