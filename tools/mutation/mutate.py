#!/usr/bin/env python3
"""Mutation testing of the checks, in copies: mutate.py LOG SEED N [path prefix...]
Each mutant that compiles and passes the stable tests is given to the checks
of its file until one reports a violation."""
import json,os,random,re,shutil,subprocess,sys
log,seed,N=sys.argv[1],int(sys.argv[2]),int(sys.argv[3]); pre=sys.argv[4:]
R,V='/tmp/mr','/tmp/mv'
env=dict(os.environ,PATH="/opt/veriftools/go1.27.3/bin:"+os.environ["PATH"],GOTOOLCHAIN="local",GOPROXY="off",GOFLAGS="-mod=mod",HOME="/root")
MAP={'libaac/':'C37','libamf/':'C17 C18 C11','libavc/':'C37 C20 C28','libdash/dash.go':'C24 C40 C36 C39 C09','libdash/mpd':'C24 C40','libflv/':'C18 C03','libhls/hls.go':'C21 C20 C22 C36 C40 C39','libhls/a':'C20','libhls/m3u8':'C21 C22 C40',
'libmp4/':'C23 C24','libmpeg/':'C19 C20','librtmp/aggregate':'C01','librtmp/app':'C07 C08 C40 C36 C09 C39','librtmp/audio':'C02 C01 C03','librtmp/video':'C02 C01 C03','librtmp/data':'C02 C01 C03','librtmp/chunk':'C01 C02 C13',
'librtmp/client':'C38','librtmp/command':'C11 C07 C08 C13 C38','librtmp/control':'C12 C01 C02 C13','librtmp/gop':'C04 C05 C06 C08','librtmp/handshake':'C10 C13 C38','librtmp/message':'C01 C13 C12','librtmp/room':'C05 C08 C03 C39','librtmp/rtmp.go':'C11 C12 C08 C09 C13 C38',
'librtmp/rtsp_ingest':'C28 C29 C14 C09','librtmp/rtsp_server':'C27 C29 C14 C09 C07','librtmp/server':'C03 C40 C15 C36 C38 C35','librtmp/srt':'C34 C16 C09','librtmp/websocket':'C35 C15','librtsp/message':'C29 C14','librtsp/sdp.go':'C26 C27','librtsp/sdp_parse':'C26 C28','librtsp/':'C25 C27 C28',
'libsrt/tsdemux':'C33 C34 C16','libsrt/listener':'C31 C30 C16 C34','libsrt/':'C32 C31 C30'}
def checks(f):
    k=max((k for k in MAP if f.startswith(k)),key=len,default=None)
    return MAP[k].split() if k else []
for a,b in(('/repo',R),('/verif',V)):
    shutil.rmtree(b,ignore_errors=True)
    shutil.copytree(a,b,ignore=shutil.ignore_patterns('.git','seeded','evidence'))
p=V+'/harness/go.mod'; s=open(p).read(); open(p,'w').write(s.replace('=> /repo','=> '+R))
stable=set(json.load(open('/opt/vp/BASELINE.json')).get('stable',[])) if False else None
files=[f for f in subprocess.run(['git','-C','/repo','ls-files','*.go'],capture_output=True,text=True).stdout.split() if not f.endswith('_test.go') and 'demo' not in f and (not pre or any(f.startswith(x) for x in pre))]
subprocess.run(['go','build','-o','/tmp/mutgen',os.path.dirname(os.path.abspath(__file__))+'/mutgen.go'],env=env,check=True)
muts=[]
for f in files:
    for l in subprocess.run(['/tmp/mutgen',f'{R}/{f}'],capture_output=True,text=True).stdout.splitlines():
        m=json.loads(l); m['file']=f; muts.append(m)
rng=random.Random(seed)
# every file gets its share
by={}
for m in muts: by.setdefault(m['file'],[]).append(m)
sel=[]
for f,l in by.items():
    rng.shuffle(l); sel+=l[:max(2,N*len(l)//len(muts))]
rng.shuffle(sel)
def say(*a):
    print(*a,file=open(log,'a'),flush=True)
say('mutants',len(muts),'selected',len(sel))
base=None
def tests():
    p=subprocess.run('go test ./... 2>&1',shell=True,cwd=R,env=env,capture_output=True,text=True,timeout=200)
    return set(re.findall(r'^\s*--- FAIL: (\S+)',p.stdout,re.M)),('[build failed]' in p.stdout or 'FAIL' in p.stdout and '--- FAIL' not in p.stdout and 'panic' not in p.stdout),'panic:' in p.stdout
b0=tests()[0]
n=k=0
for m in sel:
    src=open(f"{R}/{m['file']}",'rb').read()
    new=src[:m['off']]+m['new'].encode()+src[m['off']+m['len']:]
    open(f"{R}/{m['file']}",'wb').write(new)
    try:
        if subprocess.run(['go','build','./...'],cwd=R,env=env,capture_output=True).returncode: continue
        try: t=tests()
        except subprocess.TimeoutExpired: continue
        if t[1] or t[2] or t[0]-b0: continue
        n+=1; res='SURVIVED'
        for c in checks(m['file']):
            try: p=subprocess.run([V+'/run.sh',c],capture_output=True,text=True,timeout=600)
            except subprocess.TimeoutExpired: res=f'{c} TIMEOUT'; break
            if p.returncode==1:
                res=f'killed {c} '+next((x[:110] for x in p.stdout.splitlines() if x.startswith('case')),''); break
            if p.returncode: res=f'{c} ERROR {p.returncode} {p.stdout[:200]}'; break
        k+=res.startswith('killed')
        say(f"{m['file']}:{m['line']} [{m['op']!r}] {res}")
    finally:
        open(f"{R}/{m['file']}",'wb').write(src)
    # a copy of the repository's own state
say('done',n,'tested',k,'killed')
