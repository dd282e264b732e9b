#!/bin/bash
# runs the stable tests of /repo with every planted change named (default: all), one after another
cd /verif/seeded || exit 1
for i in ${*:-*}; do
  git -C /repo apply /verif/seeded/$i/patch.diff || { echo "$i: does not apply"; continue; }
  bash /opt/vp/test.sh /tmp/t.json > /dev/null 2>&1
  git -C /repo checkout -q -- .
  python3 - $i <<'P'
import json, sys
b = json.load(open('/opt/vp/BASELINE.json'))['stable']
t = set(json.load(open('/tmp/t.json'))['passed'])
bad = [x for x in b if x not in t]
print(sys.argv[1], "tests pass" if not bad else "BREAKS TESTS %s" % bad[:3])
P
done
