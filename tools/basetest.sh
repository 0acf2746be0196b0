#!/bin/sh
# builds and tests /repo and names the baseline tests that fail
bash /opt/vp/build.sh >/tmp/b.log 2>&1 || { tail -20 /tmp/b.log; exit 1; }
bash /opt/vp/test.sh /tmp/t.json >/tmp/t.log 2>&1
python3 - <<'P'
import json
b=json.load(open('/opt/vp/BASELINE.json'))['stable']; t=json.load(open('/tmp/t.json'))
miss=[x for x in b if x not in t['passed']]
print(len(b), 'stable,', len(miss), 'not passing', miss[:5])
P
