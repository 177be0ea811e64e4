#!/bin/bash
# Development tool: confirms planted bugs in /repo (restored afterwards) and runs their check.
#   seedtest.sh confirm ID...   builds and tests with the patch, demo with and without it
#   seedtest.sh check ID...     runs the property's quick check with the patch
cd /verif
what=$1; shift
for id in "$@"; do
  S=/verif/seeded/$id
  pid=$(python3 -c "import json;print(json.load(open('$S/meta.json'))['property'])")
  git -C /repo diff --quiet || { echo "/repo is dirty"; exit 2; }
  git -C /repo apply $S/patch.diff || { echo "$id: patch does not apply"; continue; }
  if [ $what = confirm ]; then
    bash /opt/vp/test.sh /tmp/seed.json > /tmp/seed.log 2>&1
    t=$(python3 -c "
import json
r=json.load(open('/tmp/seed.json')); b=json.load(open('/opt/vp/BASELINE.json'))
b=b['stable']
m=[x for x in b if x not in r['passed']]
print('tests ok' if not m else 'TESTS FAIL %d %s'%(len(m),m[:3]))")
    (cd /repo && bash $S/demo.sh > /tmp/seed.demo 2>&1); d1=$?
    git -C /repo checkout -- .
    bash /opt/vp/build.sh > /dev/null 2>&1
    (cd /repo && bash $S/demo.sh > /tmp/seed.demo0 2>&1); d0=$?
    echo "$id: $t; demo with patch $d1, without $d0 $([ $d1 != 0 ] && [ $d0 = 0 ] && [ "$t" = "tests ok" ] && echo CONFIRMED || echo REJECTED)"
    [ $d0 = 0 ] || tail -5 /tmp/seed.demo0
  else
    timeout 900 python3 lib/check.py $pid > /tmp/seed.check 2>&1; rc=$?
    git -C /repo checkout -- .
    echo "$id: $pid rc=$rc $(grep -c '^VIOLATION' /tmp/seed.check) $([ $rc = 1 ] && echo CAUGHT || echo MISSED)"
  fi
done
