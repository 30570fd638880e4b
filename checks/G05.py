"""G05: large-model export."""
META = ("TLA+ state machine of the export with external storage (Archive.tla), model-checked by TLC, and TLC validation of real exports against its conditions (ArchiveTrace.tla)", "model_checking",
        "TLC: every list of up to 3 (thorough: 4) constants over sizes around the threshold, storage kinds and colliding names; real exports: ONNX models and TensorFlow programs with constants of every element type around and above the threshold, raw and typed, in the main graph, nested bodies and as input defaults, with equal and unusual names, written as archives, read back by the library's reader and by ONNX Runtime from the unpacked directory, and compared with the normal export; trusts TLC, zipfile and ONNX Runtime")
from opt_check import *
import re, shutil, tempfile, zipfile
import onnx
from onnx import helper, TensorProto, numpy_helper
from onnx.external_data_helper import load_external_data_for_tensor
from tf2onnx import utils
from tf2onnx.graph import GraphUtil, ExternalTensorStorage, Graph
import canon
from G04 import tensor_key, TYPES

SIZES = [1, 7, 1023, 1024, 1025, 1026, 2000, 3001]
STEMS = ["K", "a/b", "a:b", "a_b", "a_0", "a", "w w", "é", "x" * 60, "K_1", ".x", "m.onnx", "a\\b", 'q"q', "__MODEL_PROTO.onnx"]

def tensor(rng, name, size=None):
    size = int(rng.choice(SIZES)) if size is None else size
    dims = [size]
    if rng.rand() < .5:
        for f in (2, 3, 5, 41):
            if size % f == 0 and rng.rand() < .7:
                dims = [f, size // f]
    if rng.rand() < .1:
        dims = [1] * (rng.randint(1, 3)) + dims
    k = rng.randint(9)
    if k == 0:
        return helper.make_tensor(name, 8, dims, [("s%d" % rng.randint(9)).encode() for _ in range(size)])
    if k == 1:
        return helper.make_tensor(name, 16, dims, rng.randint(0, 99, size=size).tolist())
    if k == 2:
        t = helper.make_tensor(name, [17, 18, 19, 20][rng.randint(4)], dims, bytes(rng.randint(0, 60, size=size).tolist()), raw=True)
        return t
    ty = TYPES[rng.randint(len(TYPES))]
    a = (rng.randint(0, 2, size=dims) if ty is np.bool_ else rng.randint(0, 100, size=dims)).astype(ty)
    if rng.rand() < .6 or a.dtype.kind == "c":
        return numpy_helper.from_array(a, name)
    return helper.make_tensor(name, helper.np_dtype_to_tensor_dtype(a.dtype), dims, a.reshape(-1).tolist())

def all_consts(g, path=""):
    """(graph path, tensor) of initializers and Constants"""
    r = [(path, t.name, t) for t in g.initializer]
    for n in g.node:
        if n.op_type == "Constant":
            r.append((path, n.output[0], n.attribute[0].t))
        for k, a in enumerate(n.attribute):
            if a.type == onnx.AttributeProto.GRAPH:
                r += all_consts(a.g, path + "/" + str([o for o in n.output if o][-1:]).strip("[]'").replace("\\", "/").replace('"', "'") + "." + a.name)
    return r

def clean(s):
    for a, b in (("|", "%7C"), ("\n", " "), ('"', "%22"), ("\\", "%5C")):
        s = str(s).replace(a, b)
    return s

def onnx_model(rng):
    used, nodes, outs, inits = set(), [], [], []
    k = [0]
    def nm(pref=""):
        k[0] += 1
        return "%s%s_%d" % (pref, "t", k[0])
    def cname():
        s = STEMS[rng.randint(len(STEMS))]
        while s in used:
            s += ["_0", "x", "/y"][rng.randint(3)]
        used.add(s)
        return s
    def const_user(nodes, inits, scope):
        t = tensor(rng, "v")
        form = rng.randint(2)
        n = cname()
        if form == 0:
            t.name = n
            inits.append(t)
        else:
            nodes.append(helper.make_node("Constant", [], [n], value=t, name=n if rng.rand() < .5 else "same"))
        o = nm(scope)
        dead = rng.rand() < .15
        nodes.append(helper.make_node("Identity", [n], [o], name=nm("n") if rng.rand() < .6 else "same"))
        return (o, t.data_type, list(t.dims), dead)
    def body(depth, ty, dims):
        bn, bi = [], []
        extra = [const_user(bn, bi, "b") for _ in range(rng.randint(0, 3))]
        t = numpy_helper.from_array(rng.randint(0, 90, size=dims).astype(np.float32), cname())
        if rng.rand() < .5:
            bi.append(t)
        else:
            bn.append(helper.make_node("Constant", [], [t.name], value=t, name="same" if rng.rand() < .5 else t.name))
        o = nm("bo")
        bn.append(helper.make_node("Neg", [t.name], [o]))
        if depth and rng.rand() < .6:
            o2, o3 = nm("bi"), nm("bs")
            bn.append(helper.make_node("If", ["cond"], [o2], then_branch=body(depth - 1, ty, dims), else_branch=body(depth - 1, ty, dims)))
            bn.append(helper.make_node("Add", [o, o2], [o3]))
            o = o3
        return helper.make_graph(bn, "body", [], [helper.make_tensor_value_info(o, 1, dims)], bi)
    for _ in range(rng.randint(1, 5)):
        outs.append(const_user(nodes, inits, ""))
    for _ in range(rng.randint(0, 3)):
        dims = [int(rng.choice(SIZES))]
        o = nm()
        nodes.append(helper.make_node("If", ["cond"], [o], then_branch=body(1, 1, dims), else_branch=body(1, 1, dims)))
        outs.append((o, 1, dims, False))
    live = [o for o in outs if not o[3]] or outs[:1]
    opset = int(rng.choice([11, 13, 15, 18]))
    g = helper.make_graph(nodes, "g", [helper.make_tensor_value_info("cond", 9, [])], [helper.make_tensor_value_info(o, t, d) for o, t, d, _ in live], inits)
    m = helper.make_model(g, opset_imports=[helper.make_opsetid("", opset)], ir_version=9)
    onnx.checker.check_model(m)
    return m, [{"cond": np.array(b)} for b in (True, False)]

def default_graph(rng):
    """a graph with inputs that have defaults, as TensorFlow graphs have"""
    nodes, shapes, dtypes, consts = [], {}, {}, []
    g = Graph([], opset=13)
    outs = []
    for k in range(rng.randint(1, 3)):
        size = int(rng.choice(SIZES))
        v = rng.randint(0, 99, size=[size]).astype(np.float32)
        c = g.make_const("d%d" % k, v)
        p = g.make_node("PlaceholderWithDefault", [c.output[0]], outputs=["p%d" % k], shapes=[[size]], dtypes=[1])
        n = g.make_node("Neg", [p.output[0]], outputs=["o%d" % k], shapes=[[size]], dtypes=[1])
        outs.append("o%d" % k)
        consts.append(("p%d" % k, v))
        if rng.rand() < .4:
            g.make_node("Abs", [c.output[0]], outputs=["q%d" % k], shapes=[[size]], dtypes=[1])
            outs.append("q%d" % k)
            consts.append(("d%d" % k, v))
    g.outputs = outs
    return g, consts

def read_back(path):
    """by the library's reader: the model and its files; and unpacked on disk for the runtime"""
    s = ExternalTensorStorage()
    m = utils.model_proto_from_zip(path, s)
    with zipfile.ZipFile(path) as z:
        files = [n for n in z.namelist() if n != "__MODEL_PROTO.onnx"]
    return m, s.name_to_tensor_data, files

def entry(t, data):
    """(external, location, fingerprint of the value as read back)"""
    if t.data_location != TensorProto.EXTERNAL:
        return False, "", tensor_key(t)
    loc = {e.key: e.value for e in t.external_data}
    c = TensorProto()
    c.CopyFrom(t)
    c.ClearField("external_data")
    c.data_location = TensorProto.DEFAULT
    if loc["location"] not in data:
        return True, clean(loc["location"]), "missing"
    c.raw_data = data[loc["location"]]
    try:
        return True, clean(loc["location"]), tensor_key(c)
    except Exception as e:
        return True, clean(loc["location"]), "unreadable"

def archive_of(graph, name):
    d = tempfile.mkdtemp(prefix="g05_")
    p = os.path.join(d, "m.zip")
    s = ExternalTensorStorage()
    m = graph.make_model("doc", graph_name=name, external_tensor_storage=s)
    utils.save_onnx_zip(p, m, s)
    return d, p

def run_dir(path, feeds):
    import onnxruntime as ort
    d = tempfile.mkdtemp(prefix="g05x_")
    try:
        with zipfile.ZipFile(path) as z:
            for n in z.namelist():
                if "/" in n or n in ("..", "."):
                    return None
            z.extractall(d)
        so = ort.SessionOptions()
        so.log_severity_level = 4
        s = ort.InferenceSession(os.path.join(d, "__MODEL_PROTO.onnx"), so)
        want = {i.name for i in s.get_inputs()}
        names = [o.name for o in s.get_outputs()]
        return [dict(zip(names, [enc_array(x) for x in s.run(None, {k: v for k, v in f.items() if k in want})])) for f in feeds]
    finally:
        shutil.rmtree(d)

def case_of(cid, srcs, make, feeds, plain):      # constants have different names in these models, in whatever graph
    """srcs: [(name, tensor, needed)]"""
    err, res, files = "", [], []
    limit = ExternalTensorStorage().external_tensor_size_threshold
    d = None
    try:
        d, p = make()
        m, data, files = read_back(p)
        for path, n, t in all_consts(m.graph):
            e, at, v = entry(t, data)
            res.append({"n": clean(n), "ext": e, "at": at, "v": v})
        if feeds and plain is not None:
            import onnxruntime as ort
            want = None
            try:
                want = plain()
            except Exception:
                pass
            if want is not None:
                got = run_dir(p, feeds)
                if got is not None and got != want:
                    err = "runs differently from the normal export"
    except Exception as e:
        err = "raises %s: %s" % (type(e).__name__, clean(e)[-250:])
    finally:
        if d:
            shutil.rmtree(d)
    return {"id": cid, "limit": limit, "err": err, "res": res, "files": [clean(f) for f in files],
            "src": [{"n": clean(n), "size": int(np.prod(t.dims)), "str": t.data_type == 8, "v": tensor_key(t), "needed": need, "of": clean(n.replace("p", "d") if cid[0] == "d" else n)} for n, t, need in srcs]}

def onnx_case(j):
    rng = rng_for("G05o", j)
    m, feeds = onnx_model(rng)
    try:
        plain_m = GraphUtil.create_graph_from_onnx_model(m).make_model("doc")
    except Exception as e:
        return [{"id": "o%d" % j, "limit": 0, "err": "raises %s: %s" % (type(e).__name__, clean(e)[-250:]), "res": [], "files": [], "src": []}]
    needed = {n for p, n, t in all_consts(plain_m.graph)}
    # what the normal export keeps has to be in the archive's model too
    srcs = [(n, t, n in needed) for p, n, t in all_consts(m.graph)]
    return [case_of("o%d" % j, srcs, lambda: archive_of(GraphUtil.create_graph_from_onnx_model(m), "g"), feeds,
                    lambda: [dict(zip([o.name for o in plain_m.graph.output], map(enc_array, sess(plain_m).run(None, f)))) for f in feeds])]

def default_case(j):
    rng = rng_for("G05d", j)
    g, consts = default_graph(rng)
    srcs = [(n, numpy_helper.from_array(v, n), True) for n, v in consts]
    return [case_of("d%d" % j, srcs, lambda: archive_of(g, "g"), None, None)]

def tf_case(j):
    import tf_check
    tf_check.setup()
    import tensorflow as tf
    import tf2onnx
    rng = rng_for("G05t", j)
    size = int(rng.choice([250, 251, 1000, 1025, 1300, 2000]))
    val = lambda: rng.randint(0, 50, size=[size]).astype(np.float32)
    names = ["K", "w", "K_1"]
    nm = lambda: names[rng.randint(3)]
    def const():
        v = val() if rng.rand() < .6 else np.float32(rng.randint(1, 9)) if rng.rand() < .5 else rng.randint(1, 9, size=[1]).astype(np.float32)
        return (v, nm())
    kt, kf, km, kb = [[const() for _ in range(rng.randint(1, 3))] for _ in range(4)]
    def use(a, ks, sub):
        for v, n in ks:
            a = (a - tf.constant(v, name=n)) if sub else (a + tf.constant(v, name=n))
        return a
    sp = [tf.TensorSpec([size], tf.float32)]
    th = tf.function(lambda a: use(a, kt, 0), input_signature=sp).get_concrete_function()
    el = tf.function(lambda a: use(a, kf, 1), input_signature=sp).get_concrete_function()
    wsp = [tf.TensorSpec([], tf.int32), tf.TensorSpec([size], tf.float32)]
    cond = tf.function(lambda i, a: i < 3, input_signature=wsp).get_concrete_function()
    body = tf.function(lambda i, a: (i + 1, use(a, kb, 0)), input_signature=wsp).get_concrete_function()
    loop = rng.rand() < .4
    def f(x, c):
        a = use(x, km, 0)
        y = tf.raw_ops.StatelessIf(cond=c, input=[a], Tout=[tf.float32], then_branch=th, else_branch=el, output_shapes=[[size]])[0]
        if loop:
            y = y + tf.raw_ops.StatelessWhile(input=[tf.constant(0), a], cond=cond, body=body, output_shapes=[[], [size]])[1]
        return y
    sig = [tf.TensorSpec([size], tf.float32, name="x"), tf.TensorSpec([], tf.bool, name="c")]
    fn = tf.function(f, input_signature=sig)
    opset = int(rng.choice([9, 11, 13, 16]))
    if loop and opset < 9:
        opset = 9
    feeds = [{"x": np.arange(size).astype(np.float32), "c": np.array(b)} for b in (True, False)]
    want = [fn(tf.constant(q["x"]), tf.constant(q["c"])).numpy() for q in feeds]
    err, srcs, out = "", [], {}
    d = tempfile.mkdtemp(prefix="g05t_")
    try:
        p = os.path.join(d, "m.zip")
        try:
            m0, _ = tf2onnx.convert.from_function(fn, input_signature=sig, opset=opset)
        except Exception:
            return []
        try:
            m1, st = tf2onnx.convert.from_function(fn, input_signature=sig, opset=opset, large_model=True, output_path=p)
            m, data, files = read_back(p)
            # every constant of the archive, read back, against the one held in memory by the converter
            mem = [(q, n, t) for q, n, t in all_consts(m1.graph)]
            res = []
            for q, n, t in all_consts(m.graph):
                e, at, v = entry(t, data)
                res.append({"n": clean(q + "@" + n), "ext": e, "at": at, "v": v})
            src = []
            for q, n, t in mem:
                _, _, v = entry(t, st.name_to_tensor_data)
                src.append({"n": clean(q + "@" + n), "size": int(np.prod(t.dims)), "str": t.data_type == 8, "v": v, "needed": True, "of": clean(q + "@" + n)})
            got = run_dir(p, feeds)
            o = m1.graph.output[0].name
            if got is not None and any(g[o] != enc_array(w) for g, w in zip(got, want)):
                err = "the archived model computes something else than TensorFlow"
            return [{"id": "t%d" % j, "limit": ExternalTensorStorage().external_tensor_size_threshold, "err": err, "res": res, "files": [clean(x) for x in files], "src": src}]
        except Exception as e:
            return [{"id": "t%d" % j, "limit": 0, "err": "raises %s: %s" % (type(e).__name__, clean(e)[-250:]), "res": [], "files": [], "src": []}]
    finally:
        shutil.rmtree(d)

def work(it):
    mbt.phase("x")
    return [c for j in range(*it[1:]) for c in {"o": onnx_case, "d": default_case, "t": tf_case}[it[0]](j)]

def main():
    chk = Check("G05", META[1])
    q = TIER == "quick"
    inv = "INIT Init\nNEXT Next\nINVARIANT TypeOK RoundTrip Exact Once\n"
    k = {"Stems": '{"a_b", "a:b"}', "MaxConsts": "3" if q else "4", "Limit": "2"}
    _, st = run_tlc("Archive", cfg=inv, consts=dict(k, Fresh="TRUE"))
    if not tlc_ok(st):
        raise RuntimeError(st["out"][-3000:])
    _, neg = run_tlc("Archive", cfg=inv, consts=dict(k, Fresh="FALSE", MaxConsts="2"))
    if tlc_ok(neg):
        raise RuntimeError("the specification does not tell unnumbered file names apart")
    n = int(os.environ.get("NN", 0)) or (400 if q else 5000)
    t0 = time.time()
    items = [("o", lo, lo + 10) for lo in range(0, n, 10)] + [("d", lo, lo + 10) for lo in range(0, n // 4, 10)] + [("t", lo, lo + 4) for lo in range(0, n // 4, 4)]
    items.sort(key=lambda x: x[0] != "t")
    cases = [c for l in pool_map(work, items, deadline=t0 + (150 if q else 700), on_crash=lambda c: []) for c in l]
    byid = {c["id"]: c for c in cases}
    states = ok = 0
    for lo in range(0, len(cases), 1000):
        lines, s2 = run_tlc("ArchiveTrace", cases[lo:lo + 1000], cfg="INIT Init\nNEXT Next\n")
        if not tlc_ok(s2):
            raise RuntimeError(s2["out"][-3000:])
        states += s2["states"]
        for l in lines:
            p = l.split("|")
            ok += p[0] in ("OK", "BAD")
            if p[0] == "BAD":
                chk.violation("%s:%s" % (p[1][0], re.sub(r"[\d]+", "#", p[2])[:60]), "case %s: %s" % (p[1], p[2]), byid[p[1]])
    if ok != len(cases):
        raise RuntimeError("%d of %d judged" % (ok, len(cases)))
    for c in cases[:: max(1, len(cases) // 5)]:
        chk.sample({"id": c["id"], "constants": len(c["src"]), "files": c["files"][:5]})
    return chk.finish({"states": st["distinct"] + states, "transitions": st["states"] + states, "traces_validated_against_impl": len(cases),
                       "constants": sum(len(c["res"]) for c in cases), "external": sum(1 for c in cases for r in c["res"] if r["ext"])})
