#!/bin/bash
# seedtest.sh ID... : apply to /repo, build, run the repository's tests, undo; reports stable tests that fail
for id in "$@"; do
  git -C /repo apply /verif/seeded/$id/patch.diff || { echo "$id: patch does not apply"; continue; }
  bash /opt/vp/build.sh >/dev/null 2>&1; b=$?
  bash /opt/vp/test.sh /tmp/seedtest.json >/dev/null 2>&1
  git -C /repo checkout -- .
  python3 - $id $b <<'P'
import json, sys
s = json.load(open('/opt/vp/BASELINE.json'))['stable']
o = json.load(open('/tmp/seedtest.json'))
bad = [t for t in s if t not in o['passed']]
print(sys.argv[1], 'build', sys.argv[2], 'stable tests', 'ok' if not bad else 'FAIL %s' % bad)
P
done
