"""Driver shared by the optimizer properties: random source models, the real optimizer, validation against OptTrace.tla."""
import os, sys, json, time, traceback, copy
from collections import OrderedDict
import numpy as np
import mbt
from mbt import enc_array, rng_for, run_tlc, tlc_ok, Check, pool_map, SEED, TIER
import onnx
import logging
logging.disable(logging.WARNING)
sys.path.insert(0, os.environ.get("VERIF_REPO", "/repo"))
import tf2onnx
from tf2onnx.graph import GraphUtil
from tf2onnx.optimizer import _get_optimizers
import gen_onnx
from gen_onnx import *

def reset_names():
    from tf2onnx import utils
    utils.INTERNAL_NAME = 1 if hasattr(utils, "INTERNAL_NAME") else None

def optimizers(*names):
    if not names:
        return None
    o = _get_optimizers()
    return OrderedDict((k, o[k]) for k in o if k in names)

class Hang(BaseException):
    pass

def with_deadline(fn, seconds=25):
    import signal
    def onalarm(*_):
        raise Hang()
    old = signal.signal(signal.SIGALRM, onalarm)
    signal.alarm(seconds)
    try:
        return fn()
    finally:
        signal.alarm(0)
        signal.signal(signal.SIGALRM, old)

def observe(model, feeds_list, nouts):
    """runs a derived model; [(err, outs)] per feed"""
    try:
        onnx.checker.check_model(model)
        s = sess(model)
    except Exception as e:
        return [("invalid:" + str(e)[:160].replace("|", "/").replace("\n", " ").replace('"', "'").replace("\\", "/"), [])] * len(feeds_list), None
    names = [i.name for i in s.get_inputs()]
    res, raw = [], []
    for f in feeds_list:
        try:
            o = s.run(None, {k: f[k] for k in names})
            res.append(("", [enc_array(x) for x in o]))
            raw.append(o)
        except Exception as e:
            res.append(("run:" + str(e)[:160].replace("|", "/").replace("\n", " ").replace('"', "'").replace("\\", "/"), []))
            raw.append(None)
    return res, raw

def interface(m):
    ini = {t.name for t in m.graph.initializer}
    def dims(vi):
        if not vi.type.tensor_type.HasField("shape"):
            return None
        return [d.dim_value if d.HasField("dim_value") else -1 for d in vi.type.tensor_type.shape.dim]
    return ([(i.name, i.type.tensor_type.elem_type) for i in m.graph.input if i.name not in ini],
            [(o.name, o.type.tensor_type.elem_type) for o in m.graph.output],
            sorted((o.domain, o.version) for o in m.opset_import))

def interface_diff(m, n):
    a, b = interface(m), interface(n)
    for k, x, y in zip(("inputs", "outputs", "opsets"), a, b):
        if x != y:
            return "interface-" + k
    return ""

NOEMPTY = False   # set by a property whose statement is about non-empty tensors

def build_case(cid, model, feeds_list, variants):
    """variants: [(label, fn(model) -> model)]. Returns spec case or None when the source itself does not run."""
    mbt.phase("source")
    try:
        onnx.checker.check_model(model)
        src_s = sess(model)
    except Exception:
        return None
    innames = [i.name for i in model.graph.input]
    ok_feeds, src = [], []
    decl = [[d.dim_value for d in o.type.tensor_type.shape.dim] if o.type.tensor_type.HasField("shape") else None for o in model.graph.output]
    for f in feeds_list:
        try:
            o = src_s.run(None, f)
        except Exception:
            continue
        if NOEMPTY and any(np.asarray(x).size == 0 and np.ndim(x) > 1 for x in o):
            continue
        if any(np.asarray(v).size == 0 for v in f.values()) and any(np.asarray(x).dtype.kind == "f" and np.isnan(x).any() for x in o):
            continue   # means and the like of nothing
        if any(len(d) != np.ndim(x) or any(a > 0 and a != b for a, b in zip(d, np.shape(x))) for d, x in zip(decl, o) if d is not None):
            continue   # the source declares a shape it does not produce (an error of onnx' shape inference)
        if any(x is None for x in o) or any(np.asarray(x).size > 1200 for x in o):
            continue
        ok_feeds.append(f)
        src.append(o)
    if not ok_feeds:
        return None
    runs = [{"ins": [enc_array(f[n]) for n in innames], "obs": [{"k": "source", "err": "", "outs": [enc_array(x) for x in o]}]}
            for f, o in zip(ok_feeds, src)]
    changed = []
    blobs = {}
    for label, fn in variants:
        mbt.phase(label)
        b0 = model.SerializeToString()
        try:
            m2 = with_deadline(lambda: fn(model))
        except Hang:
            for r in runs:
                r["obs"].append({"k": label, "err": "does not terminate", "outs": []})
            continue
        except Exception as e:
            for r in runs:
                r["obs"].append({"k": label, "err": "raised:" + type(e).__name__ + ":" + str(e)[:120].replace("|", "/").replace("\n", " ").replace('"', "'").replace("\\", "/"), "outs": []})
            continue
        if model.SerializeToString() != b0:
            for r in runs:
                r["obs"].append({"k": label, "err": "caller's model modified", "outs": []})
            model = onnx.ModelProto.FromString(b0)
            continue
        d = interface_diff(model, m2)
        ch = [n.op_type for n in m2.graph.node] != [n.op_type for n in model.graph.node]
        changed.append((label, ch))
        key = m2.SerializeToString()
        if key in blobs:
            continue
        blobs[key] = 1
        obs, _ = observe(m2, ok_feeds, len(src[0]))
        for r, (err, outs) in zip(runs, obs):
            r["obs"].append({"k": label, "err": d or err, "outs": outs})
    return {"id": cid, "opset": opset_of(model), "noempty": NOEMPTY, "g": model_to_spec(model), "runs": runs, "_changed": changed}

def opt_variant(label, *names, catch=True):
    ops = optimizers(*names)
    return (label, lambda m: GraphUtil.optimize_model_proto(m, catch_errors=catch, optimizers=ops))

def run_judge(module, data, st, tries=12, nxt="Next"):
    """runs TLC; a case the specification cannot evaluate (TLC error) is set aside and counted, the rest is judged again"""
    lines, bad = [], []
    todo = data
    while todo:
        ls, s = run_tlc(module, todo, cfg="INIT Init\nNEXT %s\n" % nxt)
        st["states"] += s["states"]
        st["distinct"] += s["distinct"]
        if tlc_ok(s):
            return lines + ls, bad
        import re
        m = re.findall(r"/\\ c = (\d+)", s["out"])
        if not m or len(bad) >= tries:
            sys.stderr.write(s["out"][-3000:])
            raise mbt.TlcError("TLC failed")
        cid = todo[int(m[-1]) - 1]["id"]
        if os.environ.get("VERIF_VERBOSE"):
            k = s["out"].find("Reason:")
            print("EVAL-ERROR case", cid, s["out"][k:k + 300], json.dumps(todo[int(m[-1]) - 1]["g"])[:1500])
        bad.append(cid)
        # keep verdicts of finished cases, redo the others
        want = {str(c["id"]): len(c["runs"]) for c in todo}
        got = {}
        for l in ls:
            p = l.split("|")
            if p[0] in ("DONE", "SPEC", "SKIP"):
                got[p[1]] = got.get(p[1], 0) + 1
        done = {k for k in want if got.get(k, 0) == want[k] and k != str(cid)}
        # BAD lines precede DONE, so a finished case has all its lines
        lines += [l for l in ls if l.split("|")[1] in done]
        todo = [c for c in todo if str(c["id"]) not in done and c["id"] != cid]
    return lines, bad

def judge(chk, cases, models, extra=""):
    """cases: list of spec cases; models: id -> replay info. Runs TLC, reports violations, returns stats"""
    st = {"states": 0, "distinct": 0, "runs": 0, "defined": 0, "outputs": 0, "spec_gaps": 0, "skipped": 0, "derived": 0, "bad": []}
    if not cases:
        return st
    data = [{k: v for k, v in c.items() if not k.startswith("_")} for c in cases]
    lines, st["eval_errors"] = run_judge("OptTrace", data, st)
    gaps = {}
    for l in lines:
        p = l.split("|")
        if p[0] == "DONE":
            st["runs"] += 1
            st["defined"] += int(p[3])
            st["outputs"] += int(p[4])
        elif p[0] == "SKIP":
            st["skipped"] += 1
        elif p[0] == "SPEC":
            st["spec_gaps"] += 1
            gaps.setdefault(p[1], l)
        elif p[0] == "BAD":
            st["bad"].append(p)
    st["derived"] = sum(len(r["obs"]) - 1 for c in data for r in c["runs"])
    total = sum(len(c["runs"]) for c in data)
    total -= sum(len(c["runs"]) for c in data if c["id"] in st["eval_errors"])
    if st["runs"] + st["spec_gaps"] + st["skipped"] != total:
        raise mbt.TlcError("TLC judged %d of %d runs" % (st["runs"] + st["spec_gaps"], total))
    st["gaps"] = gaps
    return st

def report_bad(chk, st, cases, infos, sigfn=None):
    byid = {str(c["id"]): c for c in cases}
    seen = set()
    for p in st["bad"]:
        _, cid, run, label, out, clause = p[0], p[1], p[2], p[3], p[4], "|".join(p[5:])
        if (cid, label) in seen:
            continue
        seen.add((cid, label))
        c = byid[cid]
        ops = [n["op"] for n in c["g"]["nodes"] if n["op"] != "Constant"]
        sig = sigfn(c, label, clause) if sigfn else "%s:%s:%s" % (label, clause.split(":")[0], infos.get(c["id"], {}).get("what", ""))
        ob = [o for o in c["runs"][int(run) - 1]["obs"] if o["k"] == label][0]
        chk.violation(sig, "case %s run %s %s output %s: %s; ops %s" % (cid, run, label, out, clause, ops),
                      {"case": infos.get(c["id"]), "spec_case": c["g"], "run": c["runs"][int(run) - 1], "label": label})

def run_profile(pid, gen, n, variants_fn, budget, level="translation_validation", chk=None, nruns=3):
    """gen(rng, i) -> (model, [feeds...], what). Runs n cases over a pool, then TLC; reports."""
    chk = chk or Check(pid, level)
    t0 = time.time()
    deadline = t0 + budget
    global _work
    def _work(i):
        nonlocal deadline
        if time.time() > deadline:
            return None
        mbt.phase("")
        rng = rng_for(pid, i)
        for attempt in range(30):
            try:
                m, feeds, what = gen(rng, i)
            except Reject:
                continue
            except Exception:   # the generator runs nothing of the code under test
                if os.environ.get("VERIF_VERBOSE"):
                    traceback.print_exc()
                continue
            c = build_case(i, m, feeds, variants_fn(rng))
            if c is not None:
                return c, what, m.SerializeToString()
        return None
    crashes = []
    def on_crash(cr):
        if cr.phase not in ("", "source"):
            crashes.append(cr)
    res = [r for r in pool_map(_wk, list(range(n)), on_crash=on_crash) if r]
    # a process that a misbehaving runtime kernel corrupted proves nothing: what it reported is repeated in a fresh one
    if crashes:
        first, crashes = crashes[:12], []
        deadline += 60
        for cr in first:
            pool_map(_wk, [cr.item], procs=1, on_crash=on_crash)
    for cr in crashes:
        chk.violation("crash:" + cr.phase, "case %s: the runtime process died on the model derived by %s" % (cr.item, cr.phase), {"case": cr.item})
    cases = sorted((r[0] for r in res), key=lambda c: c["id"])
    import base64
    infos = {r[0]["id"]: {"what": r[1], "model_b64": base64.b64encode(r[2]).decode()} for r in res}
    t1 = time.time()
    st = judge(chk, cases, infos)
    if st["bad"]:
        deadline = time.time() + 120
        ids = sorted({int(p[1]) for p in st["bad"]})[:40]
        again = []
        for k in range(0, len(ids)):
            again += [r[0] for r in pool_map(_wk, [ids[k]], procs=1) if r]
        st2 = judge(chk, again, infos)
        conf = {(p[1], p[3]) for p in st2["bad"]}
        st["bad"] = [p for p in st["bad"] if (p[1], p[3]) in conf or int(p[1]) not in ids]
    report_bad(chk, st, cases, infos)
    st["gen_s"], st["tlc_s"] = t1 - t0, time.time() - t1
    st["programs"] = len(cases)
    st["changed"] = sum(1 for c in cases if any(x for _, x in c["_changed"]))
    st["whats"] = {}
    for r in res:
        st["whats"][r[1]] = st["whats"].get(r[1], 0) + 1
    ops = {}
    def walk(g):
        for x in g["nodes"]:
            ops[x["op"]] = ops.get(x["op"], 0) + 1
            for v in x["a"].values():
                if isinstance(v, dict) and "nodes" in v:
                    walk(v)
    for c in cases:
        walk(c["g"])
    st["ops"] = ops
    for c in cases[:6]:
        chk.sample({"id": c["id"], "opset": c["opset"], "ops": [x["op"] for x in c["g"]["nodes"]], "runs": len(c["runs"]), "variants": [o["k"] for o in c["runs"][0]["obs"]]})
    st["cases"], st["infos"] = cases, infos
    return chk, st

def _wk(i):
    return _work(i)

def finish(chk, st, extra=None):
    cov = {"programs": st["programs"], "disagreements_checked": st["derived"],
           "states": st["states"], "source_runs": st["runs"], "spec_gaps": st["spec_gaps"], "spec_eval_errors": len(st["eval_errors"]), "invalid_input_runs": st["skipped"],
           "outputs": st["outputs"], "outputs_decided_by_spec": st["defined"], "models_changed_by_optimizer": st["changed"],
           "operators": {k: v for k, v in sorted(st["ops"].items())}, "generation_s": round(st["gen_s"], 1), "tlc_s": round(st["tlc_s"], 1)}
    cov.update(extra or {})
    if os.environ.get("VERIF_VERBOSE"):
        for k, l in list(st["gaps"].items())[:15]:
            c = [c for c in st["cases"] if str(c["id"]) == k][0]
            print("GAP", l, [x["op"] for x in c["g"]["nodes"] if x["op"] != "Constant"], c["opset"])
    return chk.finish(cov)
