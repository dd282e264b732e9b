#!/usr/bin/python3
"""plant.py ID PROPERTY FILE  < spec     (spec: OLD\\n=====\\nNEW[\\n#####\\nOLD\\n=====\\nNEW...]\\n@@@@@\\nneeds\\n@@@@@\\nbreaks\\n@@@@@\\ndemo.py)
writes /verif/seeded/ID from an edit of FILE (below lib/daeso unless it starts with bin/).
A further edit of another file starts with a line '%%%%% FILE'."""
import sys, os, json, subprocess, shutil
i, prop, file = sys.argv[1:4]
V = "/verif/seeded/" + i
edits, needs, breaks, demo = sys.stdin.read().split("\n@@@@@\n")
work = "/tmp/plant"
shutil.rmtree(work, ignore_errors=True)
subprocess.check_call(["git", "clone", "-q", "/repo", work])
for e in edits.split("\n#####\n"):
    if e.startswith("%%%%% "):
        file, e = e[6:].split("\n", 1)
    p = os.path.join(work, file if file.startswith("bin/") else "lib/daeso/" + file)
    s = open(p, encoding="latin-1", newline="").read()
    old, new = e.split("\n=====\n")
    if s.count(old) != 1:
        sys.exit("%d occurrences of %r" % (s.count(old), old))
    open(p, "w", encoding="latin-1", newline="").write(s.replace(old, new))
os.makedirs(V, exist_ok=True)
d = subprocess.check_output(["git", "-C", work, "diff"])
open(V + "/patch.diff", "wb").write(d)
open(V + "/demo.py", "w").write(demo)
open(V + "/demo.sh", "w").write('''#!/bin/bash
here=$(cd "$(dirname "$0")" && pwd)
scratch=$(mktemp -d)
trap 'rm -rf "$scratch"' EXIT
. /opt/jy/env.sh
export JYTHONPATH=$PWD/lib:/opt/jy/lib SCRATCH=$scratch
jython2 "$here/demo.py"
''')
json.dump({"property": prop, "needs": needs.strip(), "what_it_breaks": breaks.strip()}, open(V + "/meta.json", "w"), indent=1)
env = dict(os.environ)
def demo_in(d):
    return subprocess.run(["bash", V + "/demo.sh"], cwd=d, capture_output=True, text=True)
r = demo_in(work)
print("patched demo:", r.returncode, (r.stderr or r.stdout).strip().split("\n")[-1])
ok = r.returncode != 0
subprocess.check_call(["git", "-C", work, "checkout", "-q", "--", "."])
r = demo_in(work)
print("clean demo:", r.returncode, (r.stderr or r.stdout).strip().split("\n")[-1] if r.returncode else "")
ok = ok and r.returncode == 0
subprocess.check_call(["git", "-C", work, "apply", V + "/patch.diff"])
r = subprocess.run(["bash", "/verif/check.sh", prop], env=dict(env, SYMX_REPO=work), capture_output=True, text=True)
print("check:", r.returncode, [l for l in r.stdout.split("\n") if "VIOLATION" in l][:1], r.stdout.strip().split("\n")[-1][:200])
shutil.rmtree(work)
print("OK" if ok else "BAD DEMO", i)
