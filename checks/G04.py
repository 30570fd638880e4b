"""G04: load and re-export preserves a model."""
META = ("TLA+ specification of re-export as the identity on models (RoundTrip.tla), evaluated by TLC on (model, exported model) pairs recorded from the real loader, exporter and the optimizer entry point with no optimization", "translation_validation",
        "random valid models: the generators of the optimizer checks (opsets 7-18, nested bodies) decorated with custom domains and all attribute kinds, all constant forms and element types, missing optional inputs and outputs, unnamed and equally named nodes, initializers listed as inputs, outputs that are inputs or constants, local functions, symbolic dimensions; structure compared up to dead nodes, and both models run in ONNX Runtime where it can; trusts TLC and ONNX Runtime")
from opt_check import *
import importlib
import onnx
from onnx import helper, TensorProto, numpy_helper, AttributeProto
from tf2onnx.graph import GraphUtil
from tf2onnx import constants
import canon

# ---- encoding of models for the specification
def const_of(n):
    """value of a Constant node, or None"""
    if n.op_type != "Constant" or n.domain not in ("", "ai.onnx") or len(n.attribute) != 1:
        return None
    a = n.attribute[0]
    v = helper.get_attribute_value(a)
    if a.name == "value":
        return tensor_key(v)
    if a.name == "sparse_value":
        return sparse_key(v)
    mk = {"value_float": (1, []), "value_floats": (1, None), "value_int": (7, []), "value_ints": (7, None), "value_string": (8, []), "value_strings": (8, None)}[a.name]
    dims = [len(v)] if mk[1] is None else []
    return canon.tensor_key(helper.make_tensor("x", mk[0], dims, v if mk[1] is None else [v]))

def sparse_key(sp):
    v, ix = numpy_helper.to_array(sp.values), numpy_helper.to_array(sp.indices)
    d = np.zeros(list(sp.dims), v.dtype)
    for k, p in enumerate(ix):
        if ix.ndim == 1:
            d.reshape(-1)[p] = v[k]
        else:
            d[tuple(p)] = v[k]
    return canon.tensor_key(numpy_helper.from_array(d))

def tensor_key(t):
    if t.data_type in (9, 8) or t.data_type <= 13:
        return canon.tensor_key(t)
    one = list(t.int32_data) or list(np.frombuffer(t.raw_data, np.uint16 if t.data_type == 16 else np.uint8))
    return canon.H(t.data_type, list(t.dims), [int(x) for x in one])

def attr_key(a):
    if a.type == AttributeProto.TENSOR:
        return tensor_key(a.t)
    b = AttributeProto()
    b.CopyFrom(a)
    b.doc_string = ""
    return canon.H(b.SerializeToString(deterministic=True))

def ios(vs, ini):
    r = []
    for v in vs:
        tt = v.type.tensor_type
        kind = v.type.WhichOneof("value")
        t = tt.elem_type if kind in (None, "tensor_type") else "other"
        t = t if t != "other" else canon.H(v.type.SerializeToString(deterministic=True))
        d = [(x.dim_value if x.HasField("dim_value") else -1) for x in tt.shape.dim] if kind == "tensor_type" and tt.HasField("shape") else [-2]
        r.append({"n": v.name, "t": t if t != 0 else "0", "d": d, "init": v.name in ini})
        r[-1]["t"] = str(r[-1]["t"])
    return r

def enc(g):
    consts = [{"n": t.name, "v": tensor_key(t)} for t in g.initializer] + [{"n": t.values.name, "v": sparse_key(t)} for t in g.sparse_initializer]
    nodes = []
    for n in g.node:
        v = const_of(n)
        if v is not None:
            consts.append({"n": n.output[0], "v": v})
            continue
        ins, outs = list(n.input), list(n.output)
        while ins and not ins[-1]:
            ins.pop()
        while outs and not outs[-1]:
            outs.pop()
        nodes.append({"op": n.op_type, "dom": "" if n.domain == "ai.onnx" else n.domain, "ins": ins, "outs": outs,
                      "attrs": [{"n": a.name, "v": attr_key(a)} for a in n.attribute if a.type != AttributeProto.GRAPH],
                      "bodies": [{"n": a.name, "g": enc(a.g)} for a in n.attribute if a.type == AttributeProto.GRAPH]})
    ini = {t.name for t in g.initializer}
    return {"ins": ios(g.input, ini), "outs": ios(g.output, {}), "consts": consts, "nodes": nodes}

def enc_model(m):
    return {"imports": sorted({"%s %d" % ("" if o.domain == "ai.onnx" else o.domain, o.version) for o in m.opset_import}), "g": enc(m.graph)}

# ---- generation
PROFILES = ["O01", "O02", "O03", "O04", "O05", "O06", "O07", "O06"]
TYPES = [np.float32, np.uint8, np.int8, np.uint16, np.int16, np.int32, np.int64, np.bool_, np.float16, np.float64, np.uint32, np.uint64, np.complex64, np.complex128]

def some_tensor(rng, name):
    k = rng.randint(8)
    dims = rng.randint(0 if rng.rand() < .2 else 1, 4, size=rng.randint(0, 4)).tolist()
    n = int(np.prod(dims))
    if k == 0:
        return helper.make_tensor(name, TensorProto.STRING, dims, [[b"a", "é".encode(), b""][rng.randint(3)] for _ in range(n)])
    if k in (1, 2):
        dims = [max(1, d) for d in dims]      # onnx itself fails on empty ones
        n = int(np.prod(dims))
    if k == 1:
        return helper.make_tensor(name, TensorProto.BFLOAT16, dims, rng.randint(0, 30, size=n).tolist())
    if k == 2:
        t = [TensorProto.FLOAT8E4M3FN, TensorProto.FLOAT8E5M2, TensorProto.FLOAT8E4M3FNUZ, TensorProto.FLOAT8E5M2FNUZ][rng.randint(4)]
        return helper.make_tensor(name, t, dims, bytes(rng.randint(0, 60, size=n).tolist()), raw=True)
    ty = TYPES[rng.randint(len(TYPES))]
    a = (rng.randint(0, 2, size=dims) if ty is np.bool_ else rng.randint(0, 90, size=dims)).astype(ty)
    if rng.rand() < .5 or a.dtype.kind == "c":      # onnx cannot read typed complex data
        t = numpy_helper.from_array(a, name)
    else:
        t = helper.make_tensor(name, helper.np_dtype_to_tensor_dtype(a.dtype), dims, a.reshape(-1).tolist())
    if rng.rand() < .2:
        t.doc_string = "a tensor"
    return t

def some_attr(rng, name):
    k = rng.randint(10)
    if k == 0: return helper.make_attribute(name, float(rng.randint(5)))
    if k == 1: return helper.make_attribute(name, int(rng.randint(-5, 5)))
    if k == 2: return helper.make_attribute(name, "s%d" % rng.randint(5))
    if k == 3: return helper.make_attribute(name, some_tensor(rng, "t"))
    if k == 4: return helper.make_attribute(name, [1.5, float(rng.randint(5))])
    if k == 5: return helper.make_attribute(name, rng.randint(-3, 9, size=3).tolist())
    if k == 6: return helper.make_attribute(name, [b"x", b"\xff\x00", b""])
    if k == 7:
        a = AttributeProto(name=name, type=AttributeProto.TENSORS)
        a.tensors.extend([some_tensor(rng, "p"), some_tensor(rng, "q")])
        return a
    if k == 8:
        a = AttributeProto(name=name, type=AttributeProto.INTS)      # an empty list
        return a
    a = AttributeProto(name=name, type=AttributeProto.TYPE_PROTO)
    a.tp.CopyFrom(helper.make_tensor_type_proto(1, [2, None]))
    return a

class Names:
    def __init__(self):
        self.k = 0
    def __call__(self, s="v"):
        self.k += 1
        return "%s_%d" % (s, self.k)

def decorate(rng, m, feeds):
    """adds features to a valid model without disturbing what is there; returns a list of what was added"""
    g, what, nm = m.graph, [], Names()
    opset = [o.version for o in m.opset_import if o.domain == ""][0]
    floats = [i.name for i in g.input if i.type.tensor_type.elem_type == 1]
    vi = lambda n, t=1, s=None: g.output.append(helper.make_tensor_value_info(n, t, s))
    if floats:
        d = [i.type.tensor_type.shape for i in g.input if i.name == floats[0]][0]
        fshape = [x.dim_value if x.HasField("dim_value") else None for x in d.dim]
    runs = True
    def add(kind):
        nonlocal runs
        o = nm("x" + kind)
        if kind == "custom":
            dom = ["com.example", "my.ops", "ai.onnx.contrib", "com.microsoft"][rng.randint(4)]
            if dom not in {q.domain for q in m.opset_import}:
                m.opset_import.append(helper.make_opsetid(dom, int(rng.randint(1, 4))))
            op = ["MyOp", "Relu", "Identity", "Squeeze", "If", "Transpose", "Gelu", "Constant"][rng.randint(8)]
            ins = [[f for f in floats][:1], [], ["", floats[0]] if floats else []][rng.randint(3)]
            n = helper.make_node(op, ins, [o] if rng.rand() < .6 else [o, nm("y")], name=nm("n") if rng.rand() < .7 else "", domain=dom)
            n.attribute.extend([some_attr(rng, "a%d" % q) for q in range(rng.randint(0, 5))])
            if rng.rand() < .3:
                b = nm("b")
                n.attribute.append(helper.make_attribute("body", helper.make_graph([helper.make_node("MyOp", ins, [b], domain=dom)], "bg", [], [helper.make_tensor_value_info(b, 1, None)])))
            g.node.append(n)
            g.output.append(helper.make_tensor_value_info(o, 1, [int(rng.randint(1, 5)), None]))
            runs = False
        elif kind == "const":
            n = helper.make_node("Constant", [], [o], name=nm("n"))
            f = rng.randint(7) if opset >= 12 else 6
            if f == 0: n.attribute.append(helper.make_attribute("value_float", 1.5)); t, s = 1, []
            elif f == 1: n.attribute.append(helper.make_attribute("value_int", 7)); t, s = 7, []
            elif f == 2: n.attribute.append(helper.make_attribute("value_floats", [1.5, 2.])); t, s = 1, [2]
            elif f == 3: n.attribute.append(helper.make_attribute("value_ints", [3, -4])); t, s = 7, [2]
            elif f == 4: n.attribute.append(helper.make_attribute("value_string", "ab")); t, s = 8, []
            elif f == 5: n.attribute.append(helper.make_attribute("value_strings", ["a", ""])); t, s = 8, [2]
            else:
                tt = some_tensor(rng, "v"); t, s = tt.data_type, list(tt.dims)
                n.attribute.append(helper.make_attribute("value", tt))
                runs = runs and t <= 13 and t not in (14, 15)
            g.node.insert(0, n)
            c2 = nm("id")
            g.node.append(helper.make_node("Identity", [o], [c2], name=nm("n")))
            vi(c2, t, s)
        elif kind == "init":
            tt = some_tensor(rng, o)
            runs = runs and tt.data_type <= 13
            g.initializer.append(tt)
            if rng.rand() < .5 or opset < 9:
                c2 = nm("id")
                g.node.append(helper.make_node("Identity", [o], [c2], name=nm("n")))
                vi(c2, tt.data_type, list(tt.dims))
            elif rng.rand() < .7:
                vi(o, tt.data_type, list(tt.dims))     # an output that is an initializer
            if rng.rand() < .3 or m.ir_version < 4:
                g.input.append(helper.make_tensor_value_info(o, tt.data_type, list(tt.dims)))
        elif kind == "noname":
            for n in g.node:
                if rng.rand() < .5:
                    n.ClearField("name")
        elif kind == "samename":
            for n in g.node:
                if rng.rand() < .5:
                    n.name = "same"
        elif kind == "optional" and floats and opset >= 11:
            n = helper.make_node("Clip", [floats[0], "", nm("hi")], [o], name=nm("n"))
            g.initializer.append(helper.make_tensor(n.input[2], 1, [], [2.0]))
            g.node.append(n)
            vi(o, 1, fshape)
            d = helper.make_node("Dropout", [floats[0]], [nm("dr"), ""], name=nm("n"))
            g.node.append(d)
            vi(d.output[0], 1, fshape)
        elif kind == "inout" and floats:
            vi(floats[0], 1, fshape)
        elif kind == "unused":
            g.input.append(helper.make_tensor_value_info(o, 7, ["Q", None, 3]))
            for f in feeds:
                f[o] = np.zeros((1, 2, 3), np.int64)
        elif kind == "imports":
            for dom, v in (("ai.onnx.ml", int(rng.randint(1, 4))), ("org.unused", 3)):
                if dom not in {q.domain for q in m.opset_import} and rng.rand() < .6:
                    m.opset_import.insert(0, helper.make_opsetid(dom, v))
        elif kind == "function" and floats and opset >= 15:
            fn = helper.make_function("local.fn", "F", ["p"], ["q"], [helper.make_node("Neg", ["p"], ["q"])], [helper.make_opsetid("", opset)])
            m.functions.append(fn)
            m.opset_import.append(helper.make_opsetid("local.fn", 1))
            g.node.append(helper.make_node("F", [floats[0]], [o], domain="local.fn", name=nm("n")))
            vi(o, 1, fshape)
            m.ir_version = max(m.ir_version, 8)
        elif kind == "branches" and floats:
            c, tb, eb, inner = nm("cond"), nm("t"), nm("e"), nm("in")
            g.initializer.append(helper.make_tensor(c, 9, [], [bool(rng.randint(2))]))
            if m.ir_version < 4:
                g.input.append(helper.make_tensor_value_info(c, 9, []))
            bg = lambda op, n: helper.make_graph([helper.make_node(op, [floats[0]], [inner], name="nn"), helper.make_node("Abs", [inner], [n], name="nn2")], "g", [], [helper.make_tensor_value_info(n, 1, None)])
            g.node.append(helper.make_node("If", [c], [o], name=nm("n"), then_branch=bg("Neg", tb), else_branch=bg("Abs", eb)))
            vi(o, 1, fshape)
        elif kind == "sparse" and opset >= 11:
            v = helper.make_tensor(o, 1, [2], [1.5, 2.5])
            sp = helper.make_sparse_tensor(v, helper.make_tensor(o + "_i", 7, [2], [0, 3]), [2, 3])
            g.sparse_initializer.append(sp)
            c2 = nm("id")
            g.node.append(helper.make_node("Identity", [o], [c2], name=nm("n")))
            vi(c2, 1, [2, 3])
            runs = False
        elif kind == "aionnx" and False:
            for n in g.node:
                if n.domain == "" and rng.rand() < .3:
                    n.domain = "ai.onnx"
        else:
            return
        what.append(kind)
    kinds = ["custom", "const", "init", "noname", "samename", "optional", "inout", "unused", "imports", "function", "branches", "sparse", "aionnx"]
    p = np.array([3, 3, 3, 1, 1, 1, 1, 1, 1, 1, 2, .3, .5])
    for k in rng.choice(kinds, size=rng.randint(0, 5), p=p / p.sum()):
        add(str(k))
    return what, runs

from tf2onnx.optimizer.optimizer_base import GraphOptimizerBase
class Failing(GraphOptimizerBase):
    """a pass that edits the graph and then fails"""
    def _optimize(self, graph):
        for n in list(graph.get_nodes())[:3]:
            if n.is_const() or not n.is_graph_input():
                graph.remove_node(n.name)
        raise RuntimeError("this pass always fails")

def variants():
    def plain(m):
        g = GraphUtil.create_graph_from_onnx_model(m)
        kw = GraphUtil.get_onnx_model_properties(m)
        return g.make_model(m.graph.doc_string, graph_name=m.graph.name, **kw)
    return [("reexport", plain), ("optimize", lambda m: GraphUtil.optimize_model_proto(m, catch_errors=False, optimizers={})),
            ("failing", lambda m: GraphUtil.optimize_model_proto(m, catch_errors=True, optimizers={"a": Failing, "b": Failing}))]

def one(j):
    rng = rng_for("G04", j)
    prof = importlib.import_module(PROFILES[j % len(PROFILES)])
    m = None
    for _ in range(20):
        try:
            m, feeds, what = prof.gen(rng, j)
            onnx.checker.check_model(m)
            added, runs = decorate(rng, m, feeds)
            onnx.checker.check_model(m)
            break
        except Reject:
            m = None
        except Exception:
            if os.environ.get("VERIF_VERBOSE"):
                traceback.print_exc()
            m = None
    if m is None:
        return None
    first, r = compare(str(j), m, feeds, added, runs)
    return [first] if r is None else [first, compare("%d again" % j, r, feeds, added, runs)[0]]

def compare(cid, m, feeds, added, runs):
    src_obs = None
    if runs:
        src_obs, _ = observe(m, feeds, len(m.graph.output))
    res, good = [], None
    for k, fn in variants():
        b0 = m.SerializeToString()
        try:
            r = fn(m)
            err = "" if m.SerializeToString() == b0 else "caller's model modified"
            if not err:
                try:
                    onnx.checker.check_model(r)
                except Exception as e:
                    err = "invalid: " + str(e)[:150]
            if not err and src_obs and any(not e for e, _ in src_obs):
                no = len(m.graph.output)
                for f, (e0, a), (e1, b) in zip(feeds, src_obs, observe(r, feeds, no)[0]):
                    if not e0 and (e1 or a != b):
                        # a source that does not repeat its own results (Runtime kernels reading what nobody wrote) says nothing
                        if all(observe(m, [f], no)[0][0] == ("", a) for _ in range(4)) and all(observe(r, [f], no)[0][0] != ("", a) for _ in range(2)):
                            err = e1 or "outputs differ at run time"
        except Exception as e:
            r, err = None, "raises %s: %s" % (type(e).__name__, str(e)[:150])
            m = onnx.ModelProto.FromString(b0)
        err = err.replace("|", "/").replace("\n", " ").replace('"', "'").replace("\\", "/")
        good = r if not err else good
        res.append({"k": k, "err": err, "m": enc_model(r) if r is not None and not err else {"imports": [], "g": {"ins": [], "outs": [], "consts": [], "nodes": []}}})
    import base64
    return {"id": cid, "src": enc_model(m), "res": res, "_added": added, "_ran": bool(src_obs) and any(not e for e, _ in src_obs), "_m": base64.b64encode(m.SerializeToString()).decode()}, good

def work(lo_hi):
    mbt.phase("x")
    return [c for j in range(*lo_hi) for c in one(j) or []]

def main():
    chk = Check("G04", META[1])
    q = TIER == "quick"
    n = int(os.environ.get("NN", 0)) or (900 if q else 12000)
    st0 = int(os.environ.get("START") or 0)
    t0 = time.time()
    cases = [c for l in pool_map(work, [(st0 + lo, st0 + min(lo + 10, n)) for lo in range(0, n, 10)], deadline=t0 + (150 if q else 700), on_crash=lambda c: []) for c in l]
    # a process that a misbehaving runtime kernel corrupted proves nothing: what failed is repeated in a fresh one
    again = sorted({int(c["id"].split()[0]) for c in cases if any(o["err"] for o in c["res"])})[:40]
    if again:
        cases = [c for c in cases if int(c["id"].split()[0]) not in again]
        for j in again:
            cases += [c for l in pool_map(work, [(j, j + 1)], procs=1, on_crash=lambda c: []) for c in l]
    byid = {c["id"]: c for c in cases}
    states = ok = 0
    for lo in range(0, len(cases), 600):
        lines, s2 = run_tlc("RoundTrip", [{k: v for k, v in c.items() if k[0] != "_"} for c in cases[lo:lo + 600]], cfg="INIT Init\nNEXT Next\n")
        if not tlc_ok(s2):
            raise RuntimeError(s2["out"][-3000:])
        states += s2["states"]
        for l in lines:
            p = l.split("|")
            ok += p[0] in ("OK", "BAD")
            if p[0] == "BAD":
                import re
                c = byid[p[1]]
                chk.violation("%s:%s" % (p[2], re.sub(r"[\d]+", "#", p[3])[:60]), "case %s %s (with %s): %s" % (p[1], p[2], ",".join(c["_added"]), p[3]), c)
    if ok != sum(len(c["res"]) for c in cases):
        raise RuntimeError("%d judged" % ok)
    feats = {}
    for c in cases:
        for f in c["_added"]:
            feats[f] = feats.get(f, 0) + 1
    for c in cases[:4]:
        chk.sample({"id": c["id"], "features": c["_added"], "nodes": [x["op"] for x in c["src"]["g"]["nodes"]], "imports": c["src"]["imports"]})
    return chk.finish({"programs": len(cases), "disagreements_checked": ok, "states": states, "models_also_run": sum(c["_ran"] for c in cases), "features": feats})
