#!/bin/bash
# runs the repo's stable tests; prints those that no longer pass
bash /opt/vp/build.sh || exit 1
bash /opt/vp/test.sh /tmp/o.json >/dev/null
python3 - <<'P'
import json
b=json.load(open('/opt/vp/BASELINE.json')); o=json.load(open('/tmp/o.json'))
def passed(d):
    for k in ('passed','stable','pass','tests'):
        if k in d: return set(d[k] if isinstance(d[k],list) else [t for t,v in d[k].items() if v in(True,'pass','passed')])
    raise SystemExit(str(d.keys()))
m=passed(b)-passed(o)
print(len(passed(b)),"stable,", "missing:",sorted(m))
P
