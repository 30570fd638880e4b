"""Shared machinery: running TLC, encoding tensors, evidence, verdicts."""
import json, os, re, shutil, subprocess, sys, tempfile, time, hashlib
os.environ.setdefault("TF_USE_LEGACY_KERAS", "1")
os.environ.setdefault("TF_CPP_MIN_LOG_LEVEL", "3")
os.environ.setdefault("CUDA_VISIBLE_DEVICES", "")
os.environ.setdefault("TF_ENABLE_ONEDNN_OPTS", "0")
sys.dont_write_bytecode = True
import numpy as np

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
SPEC = os.path.join(ROOT, "spec")
EVID = os.path.join(ROOT, "evidence")
JAR = "/opt/veriftools/tla/tla2tools.jar:/opt/veriftools/tla/CommunityModules-deps.jar"
SEED = int(os.environ.get("VERIF_SEED", "1") or "1")
TIER = os.environ.get("VERIF_TIER", "quick")
NPROC = os.cpu_count() or 8

# ------------------------------------------------------------------ tensors
DT = {"float32": "f32", "float64": "f64", "float16": "f16", "int64": "i64", "int32": "i32", "int16": "i16",
      "int8": "i8", "uint8": "u8", "uint16": "u16", "uint32": "u32", "uint64": "u64", "bool": "b"}
ONNX_DT = {1: "f32", 2: "u8", 3: "i8", 4: "u16", 5: "i16", 6: "i32", 7: "i64", 8: "str", 9: "b", 10: "f16", 11: "f64",
           12: "u32", 13: "u64"}
LIM = 400000000

def enc_array(a):
    """numpy array -> specification tensor. Non-integer floats become opaque codes."""
    a = np.asarray(a)
    if a.dtype.kind in "OSU":
        # strings: stable integer codes (data movement only)
        d = [int(hashlib.md5(str(x if not isinstance(x, bytes) else x.decode()).encode()).hexdigest()[:6], 16) for x in a.ravel().tolist()]
        return {"t": "str", "s": list(a.shape), "d": d}
    t = DT.get(a.dtype.name, a.dtype.name)
    flat = a.ravel()
    if a.dtype.kind == "b":
        d = [int(x) for x in flat]
    elif a.dtype.kind in "iu":
        d = [int(x) if abs(int(x)) < LIM else (2000000002 if x > 0 else -2000000002) for x in flat]
    else:
        d = []
        for x in flat.tolist():
            if x != x:
                d.append(2000000001)
            elif abs(x) >= LIM:
                d.append(2000000002 if x > 0 else 2000000003)
            else:
                n = round(x)
                if abs(x - n) <= 2e-3 * max(1.0, min(abs(x), 1000.) * 1e-1):
                    d.append(int(n))
                else:
                    d.append(1050000000 + int(round(max(-450000., min(450000., x)) * 1000)))
    return {"t": t, "s": list(a.shape), "d": d}

def rng_for(*parts):
    h = hashlib.sha256(("%d|" % SEED + "|".join(map(str, parts))).encode()).digest()
    return np.random.RandomState(int.from_bytes(h[:4], "little"))

# ------------------------------------------------------------------ TLC
class TlcError(Exception):
    pass

def run_tlc(module, data=None, cfg="INIT Init\nNEXT Next\n", consts=None, workers=None, timeout=850, extra=(), keep_files=None,
            mem="6g", simulate=None, seed=None, depth=None):
    """Runs TLC on /verif/spec/<module>.tla in a scratch directory. `data` is written as data.json and passed as File.
    Returns (stdout lines, stats dict)."""
    d = tempfile.mkdtemp(prefix="mbt_")
    try:
        for f in os.listdir(SPEC):
            if f.endswith(".tla"):
                shutil.copy(os.path.join(SPEC, f), d)
        c = cfg
        if data is not None:
            with open(os.path.join(d, "data.json"), "w") as f:
                json.dump(data, f)
            c += 'CONSTANT File = "data.json"\n'
        for k, v in (consts or {}).items():
            c += "CONSTANT %s = %s\n" % (k, v)
        c += "CHECK_DEADLOCK FALSE\n"
        with open(os.path.join(d, "M.cfg"), "w") as f:
            f.write(c)
        w = workers or NPROC
        cmd = ["java", "-XX:+UseParallelGC", "-Xss64m", "-Xmx" + mem, "-cp", JAR, "tlc2.TLC", "-config", "M.cfg", "-metadir",
               os.path.join(d, "meta"), "-noGenerateSpecTE"]
        if simulate:
            cmd += ["-simulate", "num=%d" % simulate, "-depth", str(depth or 50), "-seed", str(seed if seed is not None else SEED)]
            w = 1
        cmd += ["-workers", str(w)] + list(extra) + [module + ".tla"]
        t0 = time.time()
        p = subprocess.run(cmd, cwd=d, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, timeout=timeout)
        out = p.stdout.decode("utf-8", "replace")
        lines = out.split("\n")
        stats = {"rc": p.returncode, "wall_s": time.time() - t0, "states": 0, "distinct": 0}
        for m in re.finditer(r"(\d+) states generated, (\d+) distinct states found", out):
            stats["states"], stats["distinct"] = int(m.group(1)), int(m.group(2))
        m = re.search(r"The number of states generated: (\d+)", out)
        if m:
            stats["states"] = stats["distinct"] = int(m.group(1))
        res = []
        for l in lines:
            if len(l) > 1 and l[0] == '"' and l[-1] == '"':
                res.append(l[1:-1].replace('\\"', '"').replace("\\\\", "\\"))
        files = {}
        for k in keep_files or ():
            q = os.path.join(d, k)
            if os.path.exists(q):
                with open(q) as f:
                    files[k] = f.read()
        stats["files"] = files
        stats["out"] = out
        return res, stats
    finally:
        shutil.rmtree(d, ignore_errors=True)

def tlc_ok(stats):
    return stats["rc"] == 0

# ------------------------------------------------------------------ verdicts
class Check:
    def __init__(self, pid, level, rule=None):
        self.pid, self.level, self.rule = pid, level, rule
        self.t0 = time.time()
        self.viol = []       # (signature, message, replay object)
        self.known = []
        self.cov = {}
        self.assumptions = []
        self.samples = []
        self.tier = TIER
        kf = os.path.join(ROOT, "known_findings.json")
        self.kf = [k for k in (json.load(open(kf)) if os.path.exists(kf) else []) if k.get("property") == pid and k.get("status") != "fixed"]

    def sample(self, s, cap=12):
        if len(self.samples) < cap:
            self.samples.append(s if isinstance(s, str) else json.dumps(s)[:600])

    def violation(self, sig, msg, replay=None):
        for k in self.kf:
            if sig == k["signature"] or (k.get("match") == "prefix" and sig.startswith(k["signature"])):
                if k not in self.known:
                    self.known.append(k)
                return
        self.viol.append((sig, msg, replay))

    def finish(self, coverage, evaluations=None):
        os.makedirs(EVID, exist_ok=True)
        rp = os.path.join(EVID, "replay")
        os.makedirs(rp, exist_ok=True)
        cov = dict(coverage)
        cov.setdefault("samples", self.samples[:12] or ["none"])
        ev = {"property": self.pid, "tier": self.tier if self.tier in ("quick", "thorough") else "quick", "seed": SEED, "level": self.level,
              "coverage": cov, "wall_s": round(time.time() - self.t0, 2), "violations": len(self.viol),
              "assumptions": self.assumptions or ["see DESIGN.md section " + self.pid]}
        with open(os.path.join(EVID, self.pid + ".json"), "w") as f:
            json.dump(ev, f, indent=1)
        for k in self.known:
            print("KNOWN-FINDING: property=%s %s" % (self.pid, k["what"]))
        if self.viol:
            for i, (sig, msg, replay) in enumerate(self.viol[:int(os.environ.get("VERIF_MAXV", "20"))]):
                path = os.path.join(rp, "%s-%d.json" % (self.pid, i))
                with open(path, "w") as f:
                    json.dump({"property": self.pid, "signature": sig, "what": msg, "replay": replay}, f, indent=1, default=str)
                print("VIOLATION property=%s replay=%s %s :: %s" % (self.pid, path, sig, msg[:400]))
            print("%s: %d violations in %.1fs" % (self.pid, len(self.viol), time.time() - self.t0))
            return 1
        print("%s: held; %s (%.1fs)" % (self.pid, {k: v for k, v in cov.items() if not isinstance(v, list)}, time.time() - self.t0))
        return 0

_conn = None
def phase(s):
    """announces what the current worker is doing, for the case that native code ends the process"""
    if _conn is not None:
        _conn.send(("P", s))

class Crash:
    def __init__(self, item, phase):
        self.item, self.phase = item, phase

def pool_map(fn, items, procs=None, chunk=1, init=None, on_crash=None, deadline=None):
    """Maps fn over items in forked workers. An item whose worker dies gives on_crash(Crash) (default: dropped)."""
    import multiprocessing as mp
    from multiprocessing.connection import wait
    ctx = mp.get_context("fork")
    procs = min(procs or NPROC, max(1, len(items)))
    todo = list(range(len(items)))[::-1]
    out = {}

    def worker(conn):
        global _conn
        _conn = conn
        try:
            if init:
                init()
            while True:
                k = conn.recv()
                if k is None:
                    break
                try:
                    r = ("R", k, fn(items[k]))
                except Exception as e:
                    import traceback
                    r = ("E", k, traceback.format_exc())
                conn.send(r)
        finally:
            os._exit(0)

    class W:
        pass

    def start():
        w = W()
        a, b = ctx.Pipe()
        w.p = ctx.Process(target=worker, args=(b,))
        w.p.start()
        b.close()
        w.c, w.cur, w.ph = a, None, ""
        return w

    def feed(w):
        if todo and not (deadline and time.time() > deadline):
            w.cur = todo.pop()
            w.ph = ""
            w.c.send(w.cur)
            return True
        w.cur = None
        try:
            w.c.send(None)
        except OSError:
            pass
        return False
    live = []
    sys.stdout.flush()
    sys.stderr.flush()
    for _ in range(procs):
        w = start()
        if feed(w):
            live.append(w)
    try:
        while live:
            for c in wait([w.c for w in live], timeout=5):
                w = next(x for x in live if x.c is c)
                try:
                    m = c.recv()
                except (EOFError, OSError):
                    live.remove(w)
                    w.p.join()
                    if w.cur is not None and on_crash:
                        out[w.cur] = on_crash(Crash(items[w.cur], w.ph))
                    n = start()
                    if feed(n):
                        live.append(n)
                    continue
                if m[0] == "P":
                    w.ph = m[1]
                elif m[0] == "E":
                    raise RuntimeError("item %r: %s" % (items[m[1]], m[2]))
                else:
                    out[m[1]] = m[2]
                    if not feed(w):
                        live.remove(w)
                        w.p.join(1)
    finally:
        for w in live:
            w.p.kill()
    return [out[k] for k in sorted(out)]
