#!/bin/bash
# bash replay.sh replays/ID.json      run a reported counterexample on the real code
cd "$(dirname "$0")" && exec /usr/bin/python3 - "$(realpath "$1")" <<'PY'
import json, os, sys, tempfile, shutil
sys.path.insert(0, "engine")
c = json.load(open(sys.argv[1]))
os.environ["VERIF_TIER"] = c.get("tier", "quick")
import run_check
w = tempfile.mkdtemp(prefix="symx-replay-")
try:
    src = run_check.snapshot(w)
    print(json.dumps(run_check.replay(c["check"], src, w, [c]), indent=1))
finally:
    shutil.rmtree(w, ignore_errors=True)
PY
