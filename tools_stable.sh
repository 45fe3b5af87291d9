#!/bin/bash
# builds /repo and reports the stable tests that fail (developer aid)
bash /opt/vp/build.sh >/tmp/b.log 2>&1 || { tail -30 /tmp/b.log; exit 1; }
bash /opt/vp/test.sh /tmp/o.json >/tmp/t.log 2>&1
python3 - <<'PY'
import json
b=json.load(open('/opt/vp/BASELINE.json')); o=json.load(open('/tmp/o.json'))
st=set(b['stable']); print("stable",len(st),"failing:",sorted(st-set(o['passed'])), "newly passing:", sorted(set(o['passed'])-st))
PY
