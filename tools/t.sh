#!/bin/bash
# developer: build + repo tests, compare against the baseline
bash /opt/vp/build.sh >/tmp/build.log 2>&1 || { tail -40 /tmp/build.log; exit 1; }
grep -E "^warning: unused" -A4 /tmp/build.log | head -20
bash /opt/vp/test.sh /tmp/t.json >/tmp/test.log 2>&1
python3 - <<'P'
import json
b=json.load(open('/opt/vp/BASELINE.json')); t=json.load(open('/tmp/t.json'))
print({k:(len(v) if hasattr(v,'__len__') else v) for k,v in t.items()})
bs=set(b.get('passed') or b.get('stable') or b.get('tests') or [])
print('missing', sorted(bs-set(t.get('passed',[])))[:10], len(bs))
P
