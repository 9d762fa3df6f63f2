#!/usr/bin/env python3
"""hand.py DEFS.py LOG [ids]: hand-written changes, in copies of /repo and
/verif. DEFS.py defines M = [(id, "C01 C02", file, old, new[, old, new...])]."""
import json,os,re,runpy,shutil,subprocess,sys
defs=runpy.run_path(sys.argv[1])["M"]; log=sys.argv[2]; only=sys.argv[3:]
R,V=(d+os.environ.get('HAND','') for d in('/tmp/hr','/tmp/hv'))
env=dict(os.environ,PATH="/opt/veriftools/go1.27.3/bin:"+os.environ["PATH"],GOTOOLCHAIN="local",GOPROXY="off",GOFLAGS="-mod=mod",HOME="/root",VERIF_SEED="1")
for a,b in(('/repo',R),('/verif',V)):
    shutil.rmtree(b,ignore_errors=True)
    shutil.copytree(a,b,ignore=shutil.ignore_patterns('.git','seeded','evidence'))
p=V+'/harness/go.mod'; s=open(p).read(); open(p,'w').write(s.replace('=> /repo','=> '+R))
def say(*a):
    print(*a,file=open(log,'a'),flush=True)
def tests():
    p=subprocess.run('go test ./... 2>&1',shell=True,cwd=R,env=env,capture_output=True,text=True,timeout=200)
    return set(re.findall(r'^\s*--- FAIL: (\S+)',p.stdout,re.M)),'panic:' in p.stdout or '[build failed]' in p.stdout
b0=tests()[0]
for id,checks,f,*ed in defs:
    if only and id not in only: continue
    src=open(f"{R}/{f}").read(); new=src; bad=False
    for o,n in zip(ed[::2],ed[1::2]):
        if new.count(o)!=1: say(f"{id}: {new.count(o)} matches of {o!r} in {f}"); bad=True; break
        new=new.replace(o,n)
    if bad: continue
    open(f"{R}/{f}",'w').write(new)
    try:
        b=subprocess.run(['go','build','./...'],cwd=R,env=env,capture_output=True,text=True)
        if b.returncode: say(f"{id}: does not build {b.stderr[:300]}"); continue
        try: t=tests()
        except subprocess.TimeoutExpired: say(f"{id}: tests time out"); continue
        if t[1] or t[0]-b0: say(f"{id}: TESTS FAIL {t[0]-b0 or 'panic'}"); continue
        res='SURVIVED '+checks
        for c in checks.split():
            try: p=subprocess.run([V+'/run.sh',c],env=env,capture_output=True,text=True,timeout=700)
            except subprocess.TimeoutExpired: res=f'{c} TIMEOUT'; break
            if p.returncode==1: res=f'killed {c} '+next((x[:160] for x in p.stdout.splitlines() if x.startswith('case')),''); break
            if p.returncode: res=f'{c} ERROR {p.returncode} {p.stdout[-300:]}'; break
        say(f"{id}: {res}")
    finally:
        open(f"{R}/{f}",'w').write(src)
say('done')
