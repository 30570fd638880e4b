#!/usr/bin/env python3
"""Writes /verif/MANIFEST.json from the checks that exist (checks/<ID>.py has META = (technique, level, level_note))."""
import ast, glob, json, os
R = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
PY = "/opt/venv/bin/python run.py"
props = [json.loads(l) for l in open(R + "/properties.jsonl")]
na = json.load(open(R + "/tools/not_applicable.json")) if os.path.exists(R + "/tools/not_applicable.json") else {}
checks, missing = [], []
for p in props:
    f = "%s/checks/%s.py" % (R, p["id"])
    if not os.path.exists(f):
        missing.append({"property": p["id"], "reason": na.get(p["id"], "no check built (yet)")})
        continue
    meta = None
    for n in ast.parse(open(f).read()).body:
        if isinstance(n, ast.Assign) and isinstance(n.targets[0], ast.Name) and n.targets[0].id == "META":
            meta = ast.literal_eval(n.value)
    checks.append({"property": p["id"], "quick_cmd": "%s %s quick" % (PY, p["id"]), "thorough_cmd": "%s %s thorough" % (PY, p["id"]),
                   "technique": meta[0], "level": meta[1], "level_note": meta[2]})
m = {"version": 1, "setup_cmd": "/opt/venv/bin/python tools/setup.py", "checks": checks, "not_applicable": missing,
     "notes": "TLA+ specifications in spec/, checked with TLC; see DESIGN.md. Repairs made in /repo are listed in known_findings.json (status fixed)."}
json.dump(m, open(R + "/MANIFEST.json", "w"), indent=1)
print(len(checks), "checks,", [x["property"] for x in missing])
