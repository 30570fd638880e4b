#!/usr/bin/env python3
"""Writes known_findings.json: fixed entries from /repo's fix: commits (property by keyword), open ones from tools/open_findings.json."""
import json, os, subprocess
R = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
log = subprocess.run(["git", "-C", "/repo", "log", "--reverse", "--format=%h %s", "3247d22.."], capture_output=True, text=True).stdout.strip().split("\n")
over = json.load(open(R + "/tools/fix_property.json")) if os.path.exists(R + "/tools/fix_property.json") else {}
KEYS = [("reshape optimizer", "O03"), ("symbolic executor", "O03"), ("q_dq", "O05"), ("back-to-back", "O04"), ("reshape when the following", "O04"),
        ("const dequantize", "O02"), ("folding", "O02"), ("opset imports", "G04"), ("transpose", "O01"), ("Split", "O01"), ("Conv", "O01")]
out = []
for l in log:
    h, s = l.split(" ", 1)
    if not s.startswith("fix:"):
        continue
    pid = next((v for k, v in over.items() if k in s), None) or next((p for k, p in KEYS if k in s), "?")
    if pid == "?":
        print("no property for:", l)
    out.append({"property": pid, "status": "fixed", "commit": h, "signature": "", "what": "fixed: property=%s %s %s" % (pid, h, s[4:].strip())})
op = json.load(open(R + "/tools/open_findings.json")) if os.path.exists(R + "/tools/open_findings.json") else []
json.dump(op + out, open(R + "/known_findings.json", "w"), indent=1)
print(len(op), "open,", len(out), "fixed")
