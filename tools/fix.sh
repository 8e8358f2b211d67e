#!/bin/bash
# Usage: fix.sh PROPERTY "message" "what failed" -- commits /repo's edits as one fix after running the suite.
set -e
. /opt/vp/env.sh
bash /opt/vp/build.sh >/tmp/build.out 2>&1 || { tail /tmp/build.out; exit 1; }
bash /opt/vp/test.sh /tmp/t.json >/tmp/test.out 2>&1 || true
python3 - <<'P'
import json,sys
t=json.load(open('/tmp/t.json')); b=json.load(open('/opt/vp/BASELINE.json'))
miss=[x for x in b['stable'] if x not in t['passed']]
print('tests missing:', miss)
sys.exit(1 if miss else 0)
P
git -C /repo commit -qam "fix: $2"
echo "fixed: property=$1 $(git -C /repo rev-parse --short HEAD) $3" >> /verif/known-findings.txt
git -C /repo log --oneline | head -1
