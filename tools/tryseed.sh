#!/bin/bash
# usage: tryseed.sh <id>...  : apply each seeded patch in /repo, build, run stable tests, run demo, run the property's check; restore
cd /repo; test -z "$(git status --short)" || { echo dirty; exit 1; }
for id in "$@"; do
 d=/verif/seeded/$id; p=$(python3 -c "import json;print(json.load(open('$d/meta.json'))['property'])")
 git apply $d/patch.diff || { echo "$id: patch does not apply"; continue; }
 r=""
 if [ -z "$NOBUILD" ]; then
 if bash /opt/vp/build.sh >/tmp/seed.build 2>&1; then
  bash /opt/vp/test.sh /tmp/seed.json >/tmp/seed.test 2>&1
  t=$(python3 -c "
import json;b=json.load(open('/opt/vp/BASELINE.json'));o=json.load(open('/tmp/seed.json'))
s=set(b.get('stable',b.get('passed',b)));m=[x for x in s if x not in o['passed']];print('ok' if not m else 'FAIL '+str(m[:5]))")
  timeout 300 bash $d/demo.sh >/tmp/seed.demo 2>&1; dr=$?
  r="tests=$t demo_rc=$dr"
 else r="BUILD FAILED"; fi
 fi
 (cd /verif; python3 sa/check.py $p > /tmp/seed.check 2>&1); rc=$?
 echo "$id $p: $r check_rc=$rc $(grep -m1 -v '^C' /tmp/seed.check | cut -c1-260)"
 git checkout -q -- .
done
if [ -z "$NOBUILD" ]; then bash /opt/vp/build.sh >/dev/null 2>&1; for id in "$@"; do timeout 300 bash /verif/seeded/$id/demo.sh >/tmp/seed.demo 2>&1; echo "$id clean demo_rc=$?"; done; fi
