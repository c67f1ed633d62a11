#!/usr/bin/env python3
# Writes /verif/MANIFEST.json: a check per property listed in TECH, the others not_applicable.
import json, os
V=os.path.join(os.path.dirname(os.path.abspath(__file__)),"..")
ids=[json.loads(l)["id"] for l in open(V+"/properties.jsonl")]
TECH={}
NA={}
exec(open(V+"/doc/claims.py").read())
m={"version":1,"setup_cmd":"./setup.sh",
 "hooks":{"guard":"none","enable":"no hooks: the checks read the source as it is","source_commits":[]},
 "checks":[],"not_applicable":[],
 "notes":"Static analysis only: an abstract interpreter over the SSA form of the current source (tool/). See DESIGN.md."}
for i in ids:
    if i in TECH:
        t,n=TECH[i]
        m["checks"].append({"property":i,"quick_cmd":f"./run.sh {i} quick","thorough_cmd":f"./run.sh {i} thorough",
          "evidence_file":f"evidence/{i}.json","technique":t,"level":"other","level_note":n})
    else:
        m["not_applicable"].append({"property":i,"reason":NA[i]})
json.dump(m,open(V+"/MANIFEST.json","w"),indent=1)
