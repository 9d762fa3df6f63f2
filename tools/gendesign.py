#!/usr/bin/env python3
"""Writes DESIGN.md."""
import json,os,glob,subprocess,re
V=os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
env=dict(os.environ,PATH="/opt/veriftools/go1.27.3/bin:"+os.environ["PATH"],GOTOOLCHAIN="local",GOPROXY="off",GOFLAGS="-mod=mod",HOME="/root")
docs={}
for g in ("vlib","vnet"):
    for l in subprocess.run(["go","run","-buildvcs=false",f"./cmd/{g}","-doc"],cwd=V+"/harness",env=env,capture_output=True,text=True,check=True).stdout.splitlines():
        d=json.loads(l); docs[d["ID"]]=d
out=[open(V+"/design/head.md").read()]
for l in open(V+"/properties.jsonl"):
    p=json.loads(l); d=docs.get(p["id"])
    out.append(f"### {p['id']} {p['title']}\n")
    if not d: out.append("not claimed\n"); continue
    out.append(f"*Oracle*: {d['Technique']}.\n\n*Workload*: {d['Rule']}.\n\n*Bounds*: {d['Note']}; {d['Quick']} cases quick, {d['Thorough']} thorough.\n")
out.append(open(V+"/design/tail.md").read())
rows=[]
for m in sorted(glob.glob(V+"/seeded/*/meta.json")):
    j=json.load(open(m)); rows.append(f"| {os.path.basename(os.path.dirname(m))} | {j['property']} | {j['what_it_breaks']} | {j['needs']} | {j.get('caught_by','')} |")
out.append("| bug | property | breaks | needs | caught by |\n|---|---|---|---|---|\n"+"\n".join(rows)+"\n")
k=json.load(open(V+"/known_findings.json"))
out.append("## Defects found\n\nRecorded, not repaired:\n\n"+"\n".join(f"* {f['property']} `{f['key']}`: {f['what']}" for f in k["findings"])+"\n\nRepaired (commits \"fix:\" in /repo):\n\n"+"\n".join("* "+re.sub(r"^fixed: property=","",f) for f in k["fixed"])+"\n")
open(V+"/DESIGN.md","w").write("\n".join(out))
