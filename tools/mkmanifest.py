#!/usr/bin/python3
"""writes /verif/MANIFEST.json: one check per file in checks/, the other
properties under not_applicable"""
import json, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
props = [json.loads(l) for l in open(os.path.join(V, "properties.jsonl"))]
NA = {}
naf = os.path.join(V, "tools", "not_applicable.json")
if os.path.exists(naf):
    NA = json.load(open(naf))
NOTES = {}
nf = os.path.join(V, "tools", "level_notes.json")
if os.path.exists(nf):
    NOTES = json.load(open(nf))
checks, na = [], []
for p in props:
    i = p["id"]
    if os.path.exists(os.path.join(V, "checks", i + ".py")):
        checks.append({
            "property": i,
            "quick_cmd": "bash check.sh " + i,
            "thorough_cmd": "VERIF_TIER=thorough bash check.sh " + i,
            "evidence_file": "evidence/%s.json" % i,
            "technique": "symbolic execution of the real code in its own interpreter, "
                         "every path condition and assertion decided by z3, "
                         "counterexamples replayed on the real code",
            "level": "model_checking",
            "level_note": NOTES.get(i, "Holds for every value within the bounds stated in the "
                          "evidence file (sizes of the inputs); nothing is claimed outside them. "
                          "Trusts Jython, its library and z3; floats are treated as reals.")})
    else:
        na.append({"property": i, "reason": NA.get(i, "not built yet")})
m = {"version": 1, "setup_cmd": "bash setup.sh", "checks": checks, "not_applicable": na,
     "notes": "No hooks: the checks import /repo/lib as it is. See DESIGN.md."}
json.dump(m, open(os.path.join(V, "MANIFEST.json"), "w"), indent=1)
print(len(checks), "checks,", len(na), "not applicable")
