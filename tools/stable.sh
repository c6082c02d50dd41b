#!/bin/bash
# Rebuilds /repo and runs its test suite; prints stable tests that no longer pass.
bash /opt/vp/build.sh >/tmp/zk_build.log 2>&1 || { tail -20 /tmp/zk_build.log; exit 1; }
bash /opt/vp/test.sh /tmp/zk_test.json >/dev/null 2>&1
python3 - <<'E'
import json
t=json.load(open('/tmp/zk_test.json')); b=json.load(open('/opt/vp/BASELINE.json'))
p=set(t['passed']); miss=[x for x in b['stable'] if x not in p]
print("passed",len(p),"stable missing",miss)
E
