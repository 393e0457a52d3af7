#!/bin/bash
# build, run the stable tests of /repo and report those that no longer pass
bash /opt/vp/build.sh > /tmp/vp-build.log 2>&1 || { tail -5 /tmp/vp-build.log; exit 1; }
bash /opt/vp/test.sh /tmp/vp-t.json > /tmp/vp-test.log 2>&1
python3 -c "
import json
t=set(json.load(open('/tmp/vp-t.json'))['passed']); b=json.load(open('/opt/vp/BASELINE.json'))['stable']
m=[x for x in b if x not in t]; print('stable',len(b),'missing',m); raise SystemExit(bool(m))"
