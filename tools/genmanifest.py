#!/usr/bin/env python3
# Builds MANIFEST.json and groups.txt from the registered checks.
import json,subprocess,os
V=os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
env=dict(os.environ,PATH="/opt/veriftools/go1.27.3/bin:"+os.environ["PATH"],GOTOOLCHAIN="local",GOPROXY="off",GOFLAGS="-mod=mod",HOME="/root")
docs={}
groups=[]
for g in ("vlib","vnet"):
    if not os.path.exists(f"{V}/harness/cmd/{g}/main.go"): continue
    out=subprocess.run(["go","run","-buildvcs=false",f"./cmd/{g}","-doc"],cwd=V+"/harness",env=env,capture_output=True,text=True)
    if out.returncode: raise SystemExit(out.stderr)
    for l in out.stdout.splitlines():
        d=json.loads(l); docs[d["ID"]]=d; groups.append(f'{d["ID"]} {g}'+(" race" if d["Race"] else ""))
open(V+"/groups.txt","w").write("\n".join(sorted(groups))+"\n")
props=[json.loads(l) for l in open(V+"/properties.jsonl")]
NA={}  # id -> reason
try: NA=json.load(open(V+"/tools/not_applicable.json"))
except FileNotFoundError: pass
checks=[];na=[]
for p in props:
    i=p["id"]
    if i in docs:
        d=docs[i]
        checks.append(dict(property=i,quick_cmd=f"VERIF_TIER=quick ./run.sh {i}",thorough_cmd=f"VERIF_TIER=thorough ./run.sh {i}",
            evidence_file=f"evidence/{i}.json",technique=d["Technique"],level="exploration",level_note=d["Note"]))
    else:
        na.append(dict(property=i,reason=NA.get(i,"check not built yet")))
m=dict(version=1,setup_cmd="./setup.sh",checks=checks,not_applicable=na,
  notes="No hooks: every check drives the unmodified tree through exported API and network protocols. Known findings: known_findings.json.")
json.dump(m,open(V+"/MANIFEST.json","w"),indent=1); open(V+"/MANIFEST.json","a").write("\n")
print(len(checks),"claimed",len(na),"not")
