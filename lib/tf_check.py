"""Driver of the conversion properties: random TensorFlow programs, the real converter, validation by TFTrace.tla."""
import os, sys, json, time, traceback, re
import numpy as np
import mbt
from mbt import enc_array, rng_for, run_tlc, tlc_ok, Check, pool_map, TIER
import onnx
import logging
logging.disable(logging.CRITICAL)
sys.path.insert(0, os.environ.get("VERIF_REPO", "/repo"))
import tensorflow as tf
import tf2onnx
from tf2onnx import constants
from gen_tf import TP, C, Reject, setup
import gen_onnx
import opt_check

OPSETS = [18, 18, 17, 15, 14, 13, 13, 12, 11, 10, 9, 8, 7]

def clean(s, n=160):
    return str(s)[:n].replace("|", "/").replace("\n", " ").replace('"', "'").replace("\\", "/")

def supported_table():
    """operators and first opset of the documented support table"""
    t = {}
    dom = ""
    for l in open(os.path.join(os.environ.get("VERIF_REPO", "/repo"), "support_status.md")):
        m = re.match(r"### Domain: \"(.*)\"", l)
        if m:
            dom = m.group(1)
        m = re.match(r"\| (\w+) \| (\d+)(?: ~ (\d+))?( \(Except .*\))?", l)
        if m and dom == "":
            t[m.group(1)] = (int(m.group(2)), [int(x) for x in re.findall(r"\d+", m.group(4) or "")])
    return t

def foreign_ops(model):
    bad = []
    def walk(g):
        for n in g.node:
            if n.domain in ("", "ai.onnx"):
                try:
                    s = onnx.defs.get_schema(n.op_type, next(o.version for o in model.opset_import if o.domain in ("", "ai.onnx")), "")
                except Exception:
                    bad.append(n.op_type)
            for a in n.attribute:
                if a.HasField("g"):
                    walk(a.g)
    walk(model.graph)
    return bad

class Refused(Exception):
    """the converter reported operators it cannot convert"""

_reports = []
def _watch():
    from tf2onnx import tfonnx
    real = tfonnx.tensorflow_onnx_mapping
    if getattr(real, "_watched", False):
        return
    def mapping(*a, **k):
        r = real(*a, **k)
        _reports.append((dict(r[1]), list(r[2])))
        return r
    mapping._watched = True
    tfonnx.tensorflow_onnx_mapping = mapping

def convert(prog, outs, opset, **kw):
    _watch()
    del _reports[:]
    try:
        if getattr(prog, "v1", False):
            gd, ins, res = prog.graph_def(outs)
            m, _ = tf2onnx.convert.from_graph_def(gd, input_names=ins, output_names=res, opset=opset, **kw)
        else:
            f, sig = prog.function(outs)
            try:
                f.get_concrete_function()
            except Exception as e:
                raise Refused("source: TensorFlow refuses the program: " + clean(e))
            m, _ = tf2onnx.convert.from_function(f, input_signature=sig, opset=opset, **kw)
    except Exception:
        ex = [clean(e) for _, es in _reports for e in es]      # the first failing handler is the reason
        if ex:
            raise Refused("; ".join(ex))
        raise
    un = sorted({o for u, _ in _reports for o in u})
    ex = [clean(e) for _, es in _reports for e in es]
    if un or ex:
        raise Refused("; ".join((["no handler: " + ",".join(un)] if un else []) + ex))
    return m

def run_converted(model, prog, feeds, nout):
    """[(err, outs)] per feed"""
    bad = foreign_ops(model)
    if bad:
        return [("not converted:" + ",".join(sorted(set(bad))), [])] * len(feeds)
    try:
        onnx.checker.check_model(model)
    except Exception as e:
        if "Field 'shape' of 'type' is required" not in str(e):      # a result of unknown rank cannot have a shape
            return [("invalid:" + clean(e), [])] * len(feeds)
    try:
        s = gen_onnx.sess(model)
    except Exception as e:
        t = str(e)
        return [(("not implemented:" if "NOT_IMPLEMENTED" in t or "Could not find an implementation" in t else "load:") + clean(t, 300), [])] * len(feeds)
    want = [i.name for i in s.get_inputs()]
    res = []
    for f in feeds:
        d = {"in_%s" % i[0]: a for i, a in zip(prog.inputs, f)}
        d.update({k + ":0": v for k, v in list(d.items())})
        try:
            o = s.run(None, {k: d[k] for k in want})
            res.append(("", [enc_array(x) for x in o]))
        except KeyError as e:
            res.append(("interface:" + clean(e), []))
        except Exception as e:
            res.append(("run:" + clean(e), []))
    return res

def make_prog(pid, gen, i, att):
    rng = rng_for(pid, i + int(os.environ.get("START") or 0), att)
    return gen(rng, i), rng

def case_for(pid, gen, i, opsets_n=1, outs_only=None, opset_only=None, max_outs=12):
    setup()
    for att in range(8):
        try:
            prog, rng = make_prog(pid, gen, i, att)
            outs = prog.outputs(cap=max_outs)
            if hasattr(prog, "trace") and not prog.trace(outs):
                continue
        except Reject:
            continue
        except Exception:
            if os.environ.get("VERIF_VERBOSE"):
                traceback.print_exc()
            continue
        break
    else:
        return None
    feeds, vals = [], []
    for k in range(3):
        f = prog.feeds(k)
        try:
            v = prog.execute(f)
        except Exception:
            continue
        if any(np.asarray(x).size > 2 * prog.MAX for x in v.values()):
            continue
        if k and not getattr(prog, "special", False) and any(np.asarray(x).dtype.kind == "f" and not np.all(np.abs(x) <= prog.LIM) for x in v.values()):
            continue
        if k and any(np.asarray(x).dtype.kind == "i" and x.size and np.max(np.abs(x.astype(np.float64))) > prog.ILIM for x in v.values()):
            continue
        if prog.skip(v):
            continue
        feeds.append(f)
        vals.append(v)
    if not feeds:
        return None
    if outs_only:
        outs = outs_only
    opsets = [opset_only] if opset_only else [int(o) for o in rng.choice(getattr(prog, "opsets", OPSETS), size=opsets_n, replace=False)]
    runs = [{"ins": [enc_array(a) for a in f], "vals": {k: enc_array(x) for k, x in v.items() if k not in {p[0] for p in prog.inputs}}, "obs": []} for f, v in zip(feeds, vals)]
    rejected = []
    for opset in opsets:
        label = "opset%d" % opset
        mbt.phase(label)
        try:
            m = opt_check.with_deadline(lambda: convert(prog, outs, opset, **getattr(prog, "conv_args", {})), 60)
            obs = run_converted(m, prog, feeds, len(outs))
        except opt_check.Hang:
            obs = [("does not terminate", [])] * len(feeds)
        except Refused as e:
            obs = [("refused:" + clean(e), [])] * len(feeds)
        except Exception as e:
            # (what the rewriters of TensorFlow 1 control flow do not recognise stays behind and stops the conversion)
            obs = [(("refused: " if getattr(prog, "v1", False) else "raised:") + type(e).__name__ + ":" + clean(e), [])] * len(feeds)
        bad = [e for e, _ in obs if e.startswith(("refused", "not implemented"))]
        if bad:
            rejected.append((opset, bad[0]))
            continue
        for r, (err, o) in zip(runs, obs):
            r["obs"].append({"k": label, "err": err, "outs": o})
    return {"id": i, "g": prog.spec(outs), "runs": runs, "_rejected": rejected, "_desc": prog.describe(outs), "_att": att, "_outs": outs,
            "_ops": [s[0] for s in prog.steps]}

def _wk(a):
    return case_for(*a)

# ---- conversion failures of documented operators
def blame(pid, gen, i, att, opset):
    """converts every operator of a rejected program on its own: [(op, error, description)]"""
    setup()
    prog, rng = make_prog(pid, gen, i, att)
    outs = prog.outputs()
    res = []
    for j, (op, args, attrs, ids) in enumerate(prog.steps):
        p = TP.__new__(TP)
        p.__dict__.update(prog.__dict__)
        # this operator alone, its operands as inputs
        p.inputs, p.steps, p.ref = [], [(op, args, attrs, ids)], {}
        seen = set()
        known = {q[0]: q for q in prog.inputs}
        for _, q in args:
            for z in (q if isinstance(q, list) else [q]):
                if not isinstance(z, C) and z not in seen:
                    seen.add(z)
                    v = prog.vals[z]
                    p.inputs.append(known.get(z) or (z, v.dtype.type, list(v.shape), [False] * v.ndim, (0, 1, "int", v)))
        try:
            m = convert(p, list(ids), opset)
            r = run_converted(m, p, [[prog.vals[q[0]] for q in p.inputs]], len(ids))
            if r[0][0]:
                res.append((op, r[0][0], p.describe()))
        except Refused as e:
            res.append((op, "refused:" + clean(e), p.describe()))
        except Exception as e:
            res.append((op, "raised:" + type(e).__name__ + ":" + clean(e), p.describe()))
    return res

def _bl(a):
    return a, blame(*a)

def judge(cases):
    st = {"states": 0, "distinct": 0, "runs": 0, "decided": 0, "gaps": {}, "bad": [], "eval_errors": []}
    data = [{k: v for k, v in c.items() if not k.startswith("_")} for c in cases]
    if not data:
        return st
    lines, st["eval_errors"] = opt_check.run_judge("TFTrace", data, st)
    for l in lines:
        p = l.split("|")
        if p[0] == "DONE":
            st["runs"] += 1
            st["decided"] += int(p[3])
        elif p[0] == "SPEC":
            st["gaps"].setdefault(p[3] + ":" + p[5], []).append(p[1])
        elif p[0] == "BAD":
            st["bad"].append(p)
    total = sum(len(c["runs"]) for c in data if c["id"] not in st["eval_errors"])
    got = st["runs"] + sum(len(v) for v in st["gaps"].values())
    if got != total:
        raise mbt.TlcError("TLC judged %d of %d runs" % (got, total))
    return st

PROBE = 10 ** 6     # case numbers from here on are a check's fixed programs, gen(rng, PROBE + k) makes the k-th one

def run_profile(pid, gen, n, budget, opsets_n=1, level="translation_validation", accept=lambda op, err, desc, opset: False, min_support=True, probes=()):
    """probes: names of the fixed programs (of recorded findings); they run first and are reported under their own signature"""
    chk = Check(pid, level)
    t0 = time.time()
    crashes = []
    def on_crash(c):
        if c.phase:
            crashes.append(c)
    res = [r for r in pool_map(_wk, [(pid, gen, PROBE + k, opsets_n) for k in range(len(probes))] + [(pid, gen, i, opsets_n) for i in range(n)], on_crash=on_crash, deadline=t0 + budget) if r]
    for c in crashes[:8]:
        again = []
        pool_map(_wk, [c.item], procs=1, on_crash=again.append)
        for a in again:
            if a.phase:
                chk.violation("crash:" + a.phase, "case %s: the runtime process died on the converted model" % c.item[2], {"case": c.item[2]})
    cases = sorted(res, key=lambda c: c["id"])
    t1 = time.time()
    st = judge([c for c in cases if c["runs"][0]["obs"]])
    byid = {str(c["id"]): c for c in cases}
    # violations: confirmed in a fresh process, reduced to the failing output
    seen = {}
    for p in st["bad"]:
        seen.setdefault((p[1], p[3]), p)
    red = []
    for (cid, label), p in sorted(seen.items())[:40]:
        c = byid[cid]
        k = int(p[4])
        only = [c["_outs"][k - 1]] if k else None
        r = [x for x in pool_map(_wk, [(pid, gen, c["id"], 1, only, int(label[5:]))], procs=1) if x]
        whole = [x for x in pool_map(_wk, [(pid, gen, c["id"], 1, None, int(label[5:]))], procs=1) if x] if only or not r else r
        red.append((cid, label, p, r, whole))
    for n_, (cid, label, p, r, whole) in enumerate(red):
        s1 = judge(r) if r and r[0]["runs"][0]["obs"] else {"bad": []}
        src = r
        if not s1["bad"]:
            s1 = judge(whole) if whole and whole[0]["runs"][0]["obs"] else {"bad": []}
            src = whole
        if s1["bad"]:
            c = src[0]
            ops = [x["op"] for x in c["g"]["nodes"] if x["op"] != "Const"]
            q = s1["bad"][0]
            sig = "%s:%s" % (q[5].split(":")[0], ">".join(ops[-4:])) if c["id"] < PROBE else "probe:%s:%s" % (probes[c["id"] - PROBE], q[5].split(":")[0])
            chk.violation(sig, "case %s %s: %s; %s" % (cid, label, "|".join(q[5:]), "; ".join(c["_desc"][-12:])),
                          {"case": c["id"], "opset": label, "program": c["_desc"], "run": c["runs"][int(q[2]) - 1], "outs": c["g"]["out"]})
    # programs the converter did not take
    sup = supported_table()
    rej = [(pid, gen, c["id"], c["_att"], o) for c in cases for o, e in c["_rejected"]]
    why = {}
    for a, bl in pool_map(_bl, rej[:400]):
        opset = a[4]
        for op, err, desc in bl:
            kind = err.split(":")[0]
            if kind != "refused" or err.startswith("refused:source:"):
                continue
            doc = op in sup and opset >= sup[op][0] and opset not in sup[op][1]
            why.setdefault((op, err[:70], doc), []).append(opset)
            # a documented restriction the converter itself states is not a failure
            stated = re.search(r"not (yet )?(supported|implemented)|[Cc]onst|only support|nsupported|require|need|only .*(supported|implemented)", err)
            if doc and min_support and not stated and not accept(op, err, desc, opset):
                chk.violation("unconverted:" + op, "case %s opset %d: %s: %s; %s" % (a[2], opset, op, err, "; ".join(desc)), {"case": a[2], "opset": opset, "program": desc, "error": err})
    if os.environ.get("VERIF_VERBOSE"):
        for k, v in sorted(st["gaps"].items()):
            print("GAP", k, len(v), v[:3], byid[v[0]]["_desc"][-6:])
        for k, v in sorted(why.items()):
            print("REJ", k, sorted(set(v)))
    ops = {}
    for c in cases:
        for x in c["g"]["nodes"]:
            if x["op"] != "Const":
                ops[x["op"]] = ops.get(x["op"], 0) + 1
    for c in cases[:6]:
        chk.sample({"id": c["id"], "program": c["_desc"], "rejected": [(o, e[:60]) for o, e in c["_rejected"]]})
    conv = sum(len(c["runs"][0]["obs"]) for c in cases)
    cov = {"programs": len(cases), "disagreements_checked": sum(len(r["obs"]) * len(c["g"]["out"]) for c in cases for r in c["runs"]), "conversions": conv,
           "conversions_not_accepted": len(rej), "states": st["states"], "program_runs": st["runs"], "tensors_decided_by_spec": st["decided"],
           "spec_gaps": sum(len(v) for v in st["gaps"].values()), "spec_eval_errors": len(st["eval_errors"]), "operators": dict(sorted(ops.items())),
           "generation_s": round(t1 - t0, 1), "tlc_s": round(time.time() - t1, 1)}
    return chk.finish(cov)
