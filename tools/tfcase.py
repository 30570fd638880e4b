"""tfcase.py ID CASE [OPSET [OUT]]: replays one generated TensorFlow program, prints program, values and differences."""
import os, sys
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
for k, v in dict(TF_USE_LEGACY_KERAS="1", TF_CPP_MIN_LOG_LEVEL="3", CUDA_VISIBLE_DEVICES="").items():
    os.environ.setdefault(k, v)
sys.path[:0] = [os.environ.get("VERIF_REPO", "/repo"), os.path.join(ROOT, "lib"), os.path.join(ROOT, "checks")]
import numpy as np
pid, i = sys.argv[1], int(sys.argv[2])
mod = __import__(pid)
import tf_check as t
c = t.case_for(pid, mod.gen, i, 1, [sys.argv[4]] if len(sys.argv) > 4 else None, int(sys.argv[3]) if len(sys.argv) > 3 else None)
print("\n".join(c["_desc"]), "\n", c["_outs"], c["_rejected"])
for r in c["runs"]:
    print("-- run", [(x["t"], x["s"], x["d"][:40]) for x in r["ins"]])
    for o in r["obs"]:
        print(o["k"], o["err"])
        for n, x in zip(c["g"]["out"], o["outs"]):
            e = r["vals"].get(n)
            if e != x:
                w = [(k, a, b) for k, (a, b) in enumerate(zip(e["d"], x["d"])) if a != b][:6] if e["s"] == x["s"] else ""
                print("  ", n, e["t"], e["s"], "got", x["t"], x["s"], "at (index, want, got)", w)
