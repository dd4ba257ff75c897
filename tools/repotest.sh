#!/bin/bash
# developer helper: run the repository's own suite and compare with the baseline
bash /opt/vp/build.sh >/tmp/rb.log 2>&1 || { tail -20 /tmp/rb.log; exit 1; }
bash /opt/vp/test.sh /tmp/rt.json >/tmp/rt.log 2>&1
python3 - <<'P'
import json
b=json.load(open('/opt/vp/BASELINE.json')); r=json.load(open('/tmp/rt.json'))
def passed(d):
    for k in ('passed','stable','pass','tests'):
        if k in d: 
            v=d[k]; return set(v if isinstance(v,list) else [n for n,s in v.items() if s in('passed','pass',True)])
print({k:(len(v) if hasattr(v,'__len__') else v) for k,v in b.items()},{k:(len(v) if hasattr(v,'__len__') else v) for k,v in r.items()})
m=passed(b)-passed(r); print("missing",sorted(m)[:10], "ok" if not m else "FAIL")
P
