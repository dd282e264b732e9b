#!/bin/bash
# nothing to build: the executor is interpreted; only check that its tools run
set -e
cd "$(dirname "$0")"
test -x /usr/bin/java && test -f /usr/share/java/jython.jar
echo '(check-sat)' | z3-new -in | grep -q sat
/usr/bin/python3 -c 'import json; json.load(open("MANIFEST.json"))'
echo ok
