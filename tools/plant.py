#!/usr/bin/env python3
"""plant.py SPEC.py: SPEC defines SEEDS = [dict(id, property, file, old, new, needs, breaks, demo)]; writes seeded/<id>/ and tries the demo
in a copy of /repo (without and with the change)."""
import json, os, runpy, shutil, subprocess, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
COPY = "/tmp/plant_repo"
def sh(cmd, cwd):
    return subprocess.run(cmd, shell=True, cwd=cwd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, timeout=300)
for s in runpy.run_path(sys.argv[1])["SEEDS"]:
    if len(sys.argv) > 2 and s["id"] not in sys.argv[2:]:
        continue
    shutil.rmtree(COPY, ignore_errors=True)
    sh("git clone -q /repo %s" % COPY, "/tmp")
    d = "%s/seeded/%s" % (V, s["id"])
    os.makedirs(d, exist_ok=True)
    open(d + "/demo.py", "w").write(s["demo"].lstrip("\n"))
    open(d + "/demo.sh", "w").write('#!/bin/bash\nexport TF_USE_LEGACY_KERAS=1 CUDA_VISIBLE_DEVICES= TF_CPP_MIN_LOG_LEVEL=3 PYTHONPATH="$PWD" PYTHONDONTWRITEBYTECODE=1\nexec /opt/venv/bin/python "$(dirname "$0")/demo.py"\n')
    json.dump({"property": s["property"], "needs": s["needs"], "what_it_breaks": s["breaks"]}, open(d + "/meta.json", "w"), indent=1)
    r0 = sh("bash %s/demo.sh" % d, COPY)
    for f, old, new in s.get("edits") or [(s["file"], s["old"], s["new"])]:
        p = os.path.join(COPY, f)
        t = open(p).read()
        assert t.count(old) == 1, (s["id"], t.count(old))
        open(p, "w").write(t.replace(old, new))
    open(d + "/patch.diff", "wb").write(sh("git diff", COPY).stdout)
    r1 = sh("bash %s/demo.sh" % d, COPY)
    ok = r0.returncode == 0 and r1.returncode != 0
    print(s["id"], "ok" if ok else "WRONG", r0.returncode, r1.returncode, (r0.stdout if r0.returncode else r1.stdout)[-300:].decode(errors="replace"))
    shutil.rmtree(COPY, ignore_errors=True)
