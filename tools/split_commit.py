"""split_commit.py FILE  'n,n:message' ... : commits the listed hunks (1-based, of the current zero-context diff of FILE in /repo) one group per commit."""
import sys, subprocess, re, os
f = sys.argv[1]
def cur():
    d = subprocess.run(["git", "-C", os.environ.get("VERIF_REPO", "/repo"), "diff", "--", f], capture_output=True, text=True).stdout
    return re.split(r"(?m)^(?=@@ )", d)
head, *hs = cur()
left = list(range(1, len(hs) + 1))
print(len(hs), "hunks")
if len(sys.argv) == 2:
    for i, h in enumerate(hs, 1):
        print(i, [l for l in h.split("\n") if l[:1] in "+-"][:2])
for g in sys.argv[2:]:
    idx, msg = g.split(":", 1)
    head, *hs = cur()
    assert len(hs) == len(left)
    idx = left[:] if idx == "*" else [int(i) for i in idx.split(",")]
    p = head + "".join(hs[left.index(i)] for i in idx)
    r = subprocess.run(["git", "-C", os.environ.get("VERIF_REPO", "/repo"), "apply", "--cached", "--recount", "-"], input=p, text=True, capture_output=True)
    if r.returncode:
        print("FAILED", g, r.stderr); break
    subprocess.run(["git", "-C", os.environ.get("VERIF_REPO", "/repo"), "commit", "-qm", msg], check=True)
    left = [i for i in left if i not in idx]
