#!/usr/bin/env python3
"""Removes the locking of one function of /repo at a time and runs C39 (or the
check given) against it: which removals does the race monitor see?"""
import re,subprocess,sys,os
repo='/repo'
check=sys.argv[1] if len(sys.argv)>1 else 'C39'
only=sys.argv[2:]
out=subprocess.run("grep -rln 'Lock()' --include=*.go . | grep -v _test",shell=True,cwd=repo,capture_output=True,text=True).stdout.split()
for f in sorted(out):
    src=open(f'{repo}/{f}').read()
    for m in re.finditer(r'(?ms)^func .*?^}\n',src):
        body=m.group(0)
        if not re.search(r'\.R?Lock\(\)',body): continue
        name=re.match(r'func (\([^)]*\) )?(\w+)',body).group(2)
        tag=f'{f[2:]}:{name}'
        if only and not any(o in tag for o in only): continue
        if 'cond.Wait' in body:
            print(tag,'skipped (cond)',flush=True); continue
        nb=re.sub(r'(?m)^(\s*)(defer )?[\w.]+\.R?(Unl|L)ock\(\)$',r'\1',body)
        open(f'{repo}/{f}','w').write(src[:m.start()]+nb+src[m.end():])
        try:
            p=subprocess.run(['/verif/run.sh',check],capture_output=True,text=True)
            l=[x for x in p.stdout.split('\n') if x.startswith('case') or 'error' in x]
            print(tag,p.returncode,(l or [''])[0][:150],flush=True)
        finally:
            open(f'{repo}/{f}','w').write(src)
