#!/bin/bash
# run the repository's tests and compare with the baseline of stable tests
bash /opt/vp/test.sh /tmp/vt_out.json >/tmp/vt_log.txt 2>&1
python3 - <<'P'
import json
b=json.load(open('/opt/vp/BASELINE.json')); o=json.load(open('/tmp/vt_out.json'))
def passed(d):
    for k in ('passed','pass','stable'):
        if k in d: return set(d[k])
    return set(k for k,v in d.items() if v in ('pass','passed'))
pb,po=passed(b),passed(o)
print('baseline',len(pb),'now',len(po),'missing',sorted(pb-po)[:20])
P
