#!/usr/bin/env python3
# mktable.py: rewrites the table of planted bugs in DESIGN.md from seeded/*/meta.json.
import glob, json, os
V=os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
rows=[]
for f in glob.glob(V+"/seeded/*/meta.json"):
    m=json.load(open(f)); rows.append((m["property"],os.path.basename(os.path.dirname(f)),m["needs"],m["what_it_breaks"]))
s=open(V+"/DESIGN.md").read().split("\n")
i=s.index("| caught by | change | needs | breaks |")+2; j=i
while s[j].startswith("|"): j+=1
s[i:j]=["| "+" | ".join(x.replace("|","\\|") for x in r)+" |" for r in sorted(rows)]
open(V+"/DESIGN.md","w").write("\n".join(s))
