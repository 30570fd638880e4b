"""Random ONNX model builder (values tracked eagerly) and the ONNX -> specification converter."""
import os, json, hashlib, math
import numpy as np
import onnx
from onnx import helper, numpy_helper, TensorProto, AttributeProto
import onnxruntime as ort
from mbt import enc_array, DT, ONNX_DT, LIM
ort.set_default_logger_severity(4)

NP2ONNX = {"float32": 1, "uint8": 2, "int8": 3, "uint16": 4, "int16": 5, "int32": 6, "int64": 7, "bool": 9, "float16": 10, "float64": 11,
           "uint32": 12, "uint64": 13}
S2ONNX = {v: k for k, v in ONNX_DT.items()}

class Sess:
    """a session that shows the outputs of the model only"""
    def __init__(self, m):
        so = ort.SessionOptions()
        so.intra_op_num_threads = 1
        so.inter_op_num_threads = 1
        so.log_severity_level = 4
        so.enable_mem_reuse = False
        so.graph_optimization_level = ort.GraphOptimizationLevel.ORT_DISABLE_ALL
        # the runtime replaces chains of casts by one cast (which is not the same) unless the values between them are outputs
        cast = {n.output[0]: n for n in m.graph.node if n.op_type == "Cast"}
        outs = [o.name for o in m.graph.output]
        extra = {n.input[0] for n in cast.values() if n.input[0] in cast} - set(outs)
        if extra:
            c = onnx.ModelProto()
            c.CopyFrom(m)
            c.graph.output.extend(helper.make_empty_tensor_value_info(o) for o in sorted(extra))
            m = c
        self.n = len(outs)
        self.s = ort.InferenceSession(m.SerializeToString(), so, providers=["CPUExecutionProvider"])

    def run(self, names, feeds):
        return self.s.run(names, feeds)[:self.n] if names is None else self.s.run(names, feeds)

    def get_inputs(self):
        return self.s.get_inputs()

    def get_outputs(self):
        return self.s.get_outputs()[:self.n]

def sess(model, opts=True):
    return Sess(model)

def run_model(model, feeds):
    s = sess(model)
    names = [i.name for i in s.get_inputs()]
    return s.run(None, {k: v for k, v in feeds.items() if k in names})

def ir_for(opset):
    return {7: 4, 8: 4, 9: 4, 10: 5, 11: 6, 12: 7, 13: 7, 14: 7, 15: 8, 16: 8, 17: 8, 18: 8}.get(opset, 8)

# ------------------------------------------------------------------ spec conversion
TABLE_FNS = {"Exp", "Sigmoid", "Tanh", "Sqrt", "Reciprocal", "Erf", "Elu", "Selu", "Softplus", "Log", "HardSigmoid", "Softsign",
             "Sin", "Cos", "Tan", "Atan", "Sinh", "Cosh", "Celu", "ThresholdedRelu", "HardSwish", "Gelu", "Mish", "IsNaN"}
TAB_LO, TAB_HI = -60, 60
_tab_cache = {}

def table_for(node, opset):
    key = (node.op_type, opset, b"".join(a.SerializeToString() for a in node.attribute))
    if key not in _tab_cache:
        x = np.arange(TAB_LO, TAB_HI + 1).astype(np.float32)
        n = helper.make_node(node.op_type, ["x"], ["y"])
        for a in node.attribute:
            n.attribute.add().CopyFrom(a)
        g = helper.make_graph([n], "t", [helper.make_tensor_value_info("x", 1, None)], [helper.make_empty_tensor_value_info("y")])
        m = helper.make_model(g, opset_imports=[helper.make_opsetid("", opset)])
        m.ir_version = ir_for(opset)
        try:
            y = run_model(m, {"x": x})[0]
            _tab_cache[key] = enc_array(y)
        except Exception:
            _tab_cache[key] = None
    return _tab_cache[key]

def isint(f):
    return abs(f - round(f)) < 1e-6 and abs(f) < LIM

def attr_to_spec(node, opset):
    a = {}
    for at in node.attribute:
        v = helper.get_attribute_value(at)
        if at.type == AttributeProto.GRAPH:
            a[at.name] = graph_to_spec(v, opset)
        elif at.type == AttributeProto.TENSOR:
            a[at.name] = enc_array(numpy_helper.to_array(v))
        elif at.type == AttributeProto.INT:
            a[at.name] = int(v)
        elif at.type == AttributeProto.INTS:
            a[at.name] = [max(-2000000000, min(2000000000, int(x))) for x in v]
        elif at.type == AttributeProto.STRING:
            a[at.name] = v.decode()
        elif at.type == AttributeProto.FLOAT:
            if at.name in ("alpha", "beta"):
                if isint(v):
                    a[at.name + "_i"] = int(round(v))
            elif at.name in ("min", "max", "value"):
                if isint(v):
                    a[at.name] = int(round(v))
                else:
                    a["bad"] = 1
                    if abs(v) > LIM:
                        a[at.name] = 1900000000 if v > 0 else -1900000000
            elif at.name in ("epsilon", "momentum", "ratio"):
                pass
            else:
                a["bad"] = 1
        else:
            pass
    return a

def node_to_spec(node, opset, consts):
    op = node.op_type
    if node.domain not in ("", "ai.onnx"):
        return {"op": "Foreign", "in": list(node.input), "out": list(node.output), "a": {}}
    a = attr_to_spec(node, opset)
    if op == "Constant":
        at = node.attribute[0]
        v = helper.get_attribute_value(at)
        if at.type == AttributeProto.TENSOR:
            a = {"value": enc_array(numpy_helper.to_array(v))}
        elif at.name == "value_float":
            a = {"value": enc_array(np.float32(v))}
        elif at.name == "value_floats":
            a = {"value": enc_array(np.array(v, np.float32))}
        elif at.name == "value_int":
            a = {"value": enc_array(np.int64(v))}
        elif at.name == "value_ints":
            a = {"value": enc_array(np.array(v, np.int64))}
        else:
            op = "Foreign"
    if op == "ConstantOfShape" and "value" not in a:
        a["value"] = {"t": "f32", "s": [1], "d": [0]}
    if op == "Cast":
        a = {"to": ONNX_DT.get(a["to"], "?")}
        if a["to"] in ("f16", "str", "?", "u32", "u64"):
            op = "Foreign"
    if op in TABLE_FNS:
        t = table_for(node, opset)
        if t is None:
            op = "Foreign"
        else:
            return {"op": "Table", "in": list(node.input), "out": list(node.output), "a": {"tab": t["d"], "lo": TAB_LO}}
    if op == "BatchNormalization":
        eps = 1e-5
        for at in node.attribute:
            if at.name == "epsilon":
                eps = at.f
        var = consts.get(node.input[4]) if len(node.input) > 4 else None
        if var is None or len(node.output) > 1:
            op = "Foreign"
        else:
            sd = np.sqrt(np.asarray(var, np.float64) + eps)
            if np.all(np.abs(sd - np.round(sd)) < 1e-4) and np.all(sd > 0.5):
                a["sd"] = [int(round(x)) for x in sd]
            else:
                op = "Foreign"
    if op == "Resize" or op == "Upsample":
        idx = 1 if (op == "Upsample" or opset < 11) else 2
        sc = consts.get(node.input[idx]) if len(node.input) > idx else None
        ok = sc is not None and len(sc) and all(isint(float(x)) and x >= 1 for x in sc) and a.get("mode", "nearest") == "nearest"
        if op == "Resize" and opset >= 11:
            ok = ok and a.get("coordinate_transformation_mode", "half_pixel") == "asymmetric" and a.get("nearest_mode", "round_prefer_floor") == "floor"
        if ok:
            op = "Resize"
            a = {"scales_i": [int(round(float(x))) for x in sc]}
        else:
            op = "Foreign"
    if op == "Einsum":
        eq = a["equation"].replace(" ", "")
        if "->" in eq and "." not in eq:
            l, r = eq.split("->")
            a = {"terms": [[ord(c) for c in t] for t in l.split(",")], "outl": [ord(c) for c in r]}
        else:
            op = "Foreign"
    if op in ("LeakyRelu",) and "alpha_i" not in a:
        op = "Foreign"
    if op == "Gemm":
        for k in ("alpha", "beta"):
            if any(x.name == k for x in node.attribute) and k + "_i" not in a:
                op = "Foreign"
    if op in ("MaxPool", "AveragePool") and (a.get("ceil_mode", 0) or len(node.output) > 1):
        op = "Foreign"
    if op == "AveragePool" and a.get("auto_pad", "NOTSET") == "SAME_LOWER":
        op = "Foreign"
    if op == "Upsample" and opset < 9:
        op = "Foreign"
    a.pop("bad", None)
    if not a:
        a = {"_": 0}
    return {"op": op, "in": list(node.input), "out": list(node.output), "a": a}

def graph_to_spec(g, opset, extra_consts=None):
    consts = dict(extra_consts or {})
    nodes = []
    for t in g.initializer:
        v = numpy_helper.to_array(t)
        consts[t.name] = v
        nodes.append({"op": "Constant", "in": [], "out": [t.name], "a": {"value": enc_array(v)}})
    for n in g.node:
        if n.op_type == "Constant" and n.attribute and n.attribute[0].name == "value":
            consts[n.output[0]] = numpy_helper.to_array(n.attribute[0].t)
    for n in g.node:
        nodes.append(node_to_spec(n, opset, consts))
    ini = {t.name for t in g.initializer}
    return {"in": [i.name for i in g.input if i.name not in ini], "out": [o.name for o in g.output], "nodes": nodes}

def opset_of(m, domain=""):
    for o in m.opset_import:
        if o.domain == domain or (domain == "" and o.domain == "ai.onnx"):
            return o.version
    return None

def model_to_spec(m):
    return graph_to_spec(m.graph, opset_of(m))

# ------------------------------------------------------------------ builder
class Reject(Exception):
    pass

class GB:
    """Builds a graph node by node, executing every node on concrete values as it is added."""
    BIG = 30000

    def __init__(self, rng, opset, parent=None, prefix="", const_nodes=None):
        self.rng, self.opset, self.parent, self.prefix = rng, opset, parent, prefix
        self.nodes, self.inits, self.inputs, self.outputs = [], [], [], []
        self.val = {}       # own values
        self.order = []     # names in creation order (own, non-constant)
        self.consts = {}    # const name -> array (own)
        self.root = parent.root if parent else self
        if not parent:
            self.cnt = 0
            self.extra_runs = []
        self.const_nodes = rng.rand() < 0.4 if const_nodes is None else const_nodes
        self.sym = {}
        self.maxsize = 260

    # --- values
    def v(self, name):
        g = self
        while g is not None:
            if name in g.val:
                return g.val[name]
            g = g.parent
        raise KeyError(name)

    def is_const(self, name):
        g = self
        while g is not None:
            if name in g.consts:
                return True
            if name in g.val:
                return False
            g = g.parent
        return False

    def name(self, base="t"):
        self.root.cnt += 1
        return "%s%s%d" % (self.prefix, base, self.root.cnt)

    def pick(self, *xs):
        return xs[self.rng.randint(len(xs))]

    def chance(self, p):
        return self.rng.rand() < p

    def tensors(self, pred=lambda v: True, own=False):
        g, out = self, []
        while g is not None:
            out += [n for n in g.order if pred(g.val[n])]
            if own:
                break
            g = g.parent
        return out

    def data(self, shape, dtype=np.float32, lo=-4, hi=5):
        if np.dtype(dtype).kind == "b":
            return np.asarray(self.rng.rand(*shape) < 0.5)
        if np.dtype(dtype).kind == "u":
            lo = 0
        return np.asarray(self.rng.randint(lo, hi, size=shape)).astype(dtype)

    def add_input(self, shape, dtype=np.float32, symdims=(), lo=-4, hi=5, name=None):
        n = name or self.name("x")
        dims = [("d%d_%s" % (i, n) if i in symdims else int(s)) for i, s in enumerate(shape)]
        self.inputs.append((n, dtype, dims, lo, hi))
        self.val[n] = self.data(shape, dtype, lo, hi)
        self.order.append(n)
        return n

    def const(self, arr, node=None):
        arr = np.asarray(arr)
        n = self.name("c")
        if (self.const_nodes if node is None else node):
            self.nodes.append(helper.make_node("Constant", [], [n], name=self.name("Const"), value=numpy_helper.from_array(arr, n + "_v")))
        else:
            self.inits.append(numpy_helper.from_array(arr, n))
        self.val[n] = arr
        self.consts[n] = arr
        return n

    def shared_const(self, arr):
        """reuse an equal constant that exists already, half of the time"""
        arr = np.asarray(arr)
        g = self
        while g is not None:
            for k, v in g.consts.items():
                if v.dtype == arr.dtype and v.shape == arr.shape and np.array_equal(v, arr) and self.chance(0.6):
                    return k
            g = g.parent
        return self.const(arr)

    def emit(self, op, ins, nout=1, outs=None, domain="", check=True, **attrs):
        """adds a node; executes it alone; returns output name(s)"""
        outs = outs or [self.name("t") for _ in range(nout)]
        node = helper.make_node(op, list(ins), outs, name=self.name(op), domain=domain, **{k: v for k, v in attrs.items() if v is not None})
        vals = self.exec_node(node)
        outs = [o for o in outs if o]
        for o, v in zip(outs, vals):
            if v is None or v.dtype.name not in NP2ONNX:
                raise Reject("dtype")
            if check:
                if v.size > self.maxsize or v.ndim > 7:
                    raise Reject("size")
                if v.dtype.kind == "f" and (not np.all(np.isfinite(v)) or (v.size and np.max(np.abs(v)) > self.BIG * 30)):
                    raise Reject("range")
                if v.dtype.kind in "iu" and v.size and np.max(np.abs(v.astype(np.float64))) > self.BIG * 30:
                    raise Reject("range")
        self.nodes.append(node)
        for o, v in zip(outs, vals):
            self.val[o] = v
            self.order.append(o)
        return outs[0] if nout == 1 and len(outs) == 1 else outs

    def free_names(self, node):
        res = []
        def walk(g, bound):
            b = set(bound) | {t.name for t in g.initializer} | {i.name for i in g.input}
            for n in g.node:
                for i in n.input:
                    if i and i not in b and i not in res:
                        res.append(i)
                for a in n.attribute:
                    if a.type == AttributeProto.GRAPH:
                        walk(a.g, b)
                b |= set(n.output)
            for o in g.output:
                if o.name not in b and o.name not in res:
                    res.append(o.name)
        for i in node.input:
            if i and i not in res:
                res.append(i)
        for a in node.attribute:
            if a.type == AttributeProto.GRAPH:
                walk(a.g, set())
        return res

    def exec_node(self, node):
        names = self.free_names(node)
        feeds, ins, inits = {}, [], []
        for n in names:
            arr = self.v(n)
            if self.is_const(n):
                inits.append(numpy_helper.from_array(arr, n))
            else:
                feeds[n] = arr
                ins.append(helper.make_tensor_value_info(n, NP2ONNX[arr.dtype.name], list(arr.shape)))
        g = helper.make_graph([node], "e", ins, [helper.make_empty_tensor_value_info(o) for o in node.output if o], initializer=inits)
        m = helper.make_model(g, opset_imports=[helper.make_opsetid("", self.opset)])
        m.ir_version = ir_for(self.opset)
        try:
            return run_model(m, feeds)
        except Exception as e:
            raise Reject(str(e)[:300])

    def graph_proto(self, name, outs, out_names=None, typed=True):
        gi = [helper.make_tensor_value_info(n, NP2ONNX[np.dtype(t).name], dims) for n, t, dims, _, _ in self.inputs]
        go = []
        for o in outs:
            v = self.v(o)
            vi = helper.make_tensor_value_info(o, NP2ONNX[v.dtype.name], None)
            go.append(vi)
        return helper.make_graph(list(self.nodes), name, gi, go, initializer=list(self.inits))

    def reuse_const(self):
        """lets another node use a constant that some node uses already"""
        used = [x for n in self.nodes for x in n.input if x in self.consts]
        # constants that only bodies use count too
        if not used:
            return []
        c = used[self.rng.randint(len(used))]
        v = self.consts[c]
        try:
            if v.dtype.kind in "fi" and v.dtype.itemsize >= 4 or v.dtype == np.int8:
                return [self.emit("Neg", [c])]
            if v.dtype.kind == "b":
                return [self.emit("Not", [c])]
            return [self.emit("Identity", [c])]
        except Reject:
            return []

    def model(self, outs, static=False):
        if self.chance(.3):
            outs = list(outs) + self.reuse_const()
        g = self.graph_proto("g", outs)
        m = helper.make_model(g, opset_imports=[helper.make_opsetid("", self.opset)])
        m.ir_version = ir_for(self.opset)
        inf = onnx.shape_inference.infer_shapes(m, strict_mode=False)
        tys = {o.name: o for o in inf.graph.output}
        for o in m.graph.output:
            if o.name in tys:
                o.CopyFrom(tys[o.name])
            v = self.v(o.name)
            if o.type.tensor_type.HasField("shape"):
                ds = [d.dim_value if d.HasField("dim_value") else None for d in o.type.tensor_type.shape.dim]
                if len(ds) != v.ndim or any(d is not None and d != e for d, e in zip(ds, v.shape)):
                    raise Reject("shape inference of ONNX is wrong here")
            if not o.type.tensor_type.HasField("shape"):
                # rank only
                nv = helper.make_tensor_value_info(o.name, NP2ONNX[v.dtype.name], ["o%s_%d" % (o.name, i) for i in range(v.ndim)])
                o.CopyFrom(nv)
        return m

    def feeds(self):
        return {n: self.val[n] for n, _, _, _, _ in self.inputs}

    def feeds_variant(self, k, rng):
        """another input vector; symbolic dimensions change size"""
        sizes, f = {}, {}
        for n, t, dims, lo, hi in self.inputs:
            shape = []
            for i, d in enumerate(dims):
                if isinstance(d, str):
                    if d not in sizes:
                        sizes[d] = int(rng.randint(1, 5))
                    shape.append(sizes[d])
                else:
                    shape.append(d)
            if np.dtype(t).kind == "b":
                f[n] = np.asarray(rng.rand(*shape) < 0.5)
            else:
                f[n] = np.asarray(rng.randint(max(lo, 0) if np.dtype(t).kind == "u" else lo, hi, size=shape)).astype(t)
        return f

# ------------------------------------------------------------------ random emitters
def rnd_perm(g, r):
    p = g.rng.permutation(r).tolist()
    if r == 4 and g.chance(0.7):
        p = g.pick([0, 2, 3, 1], [0, 3, 1, 2])
    if r == 5 and g.chance(0.7):
        p = g.pick([0, 2, 3, 4, 1], [0, 4, 1, 2, 3])
    if r == 3 and g.chance(0.5):
        p = g.pick([0, 2, 1], [1, 2, 0], [2, 0, 1])
    return p

def inv_perm(p):
    return [p.index(i) for i in range(len(p))]

def sgn_axis(g, ax, r):
    return int(ax - r) if g.chance(0.35) else int(ax)

def bshape(g, s, up=True):
    """a shape broadcast-compatible with s"""
    s = list(s)
    k = g.rng.randint(6)
    if k == 0:
        return []
    if k == 1:
        return [1] * g.rng.randint(1, len(s) + 2)
    if k == 2 and s:
        return [s[-1]]
    if k == 3:
        return list(s)
    lo = g.rng.randint(0, len(s) + 1)
    t = [d if g.chance(0.6) else 1 for d in s[lo:]]
    if up and g.chance(0.12):
        t = [g.pick(1, 1, 2)] + [1] * lo + t
    if not t and g.chance(0.5):
        t = [1]
    return t

FLOATS = (np.float32,)

class Emit:
    """op emitters: each takes the builder and a tensor name and returns a tensor name (or list) or raises Reject"""
    @staticmethod
    def transpose(g, x):
        r = g.v(x).ndim
        if r == 0:
            raise Reject
        return g.emit("Transpose", [x], perm=None if g.chance(0.06) else rnd_perm(g, r))

    @staticmethod
    def unary(g, x):
        v = g.v(x)
        if v.dtype == np.float32:
            op = g.pick("Relu", "Neg", "Abs", "LeakyRelu", "Identity", "Clip", "Tanh", "Sigmoid", "Exp", "Softplus", "Elu", "Erf", "Selu", "Cast")
            if op == "LeakyRelu":
                return g.emit(op, [x], alpha=2.0)
            if op == "Clip":
                return Emit.clip(g, x)
            if op == "Cast":
                return g.emit(op, [x], to=g.pick(6, 7, 1, 11))
            if op == "Identity":
                return g.emit(op, [x])
            if op in TABLE_FNS and (np.max(np.abs(v)) > 12 if v.size else False):
                op = "Neg"
            return g.emit(op, [x])
        if v.dtype.kind == "b":
            return g.emit(g.pick("Not", "Identity"), [x])
        if v.dtype in (np.int64, np.int32):
            return g.emit(g.pick("Neg", "Abs", "Identity"), [x]) if g.chance(0.6) else g.emit("Cast", [x], to=1)
        return g.emit("Identity", [x])

    @staticmethod
    def clip(g, x):
        v = g.v(x)
        if v.dtype != np.float32:
            raise Reject
        lo, hi = -g.rng.randint(0, 4), g.rng.randint(1, 5)
        if g.opset < 11:
            return g.emit("Clip", [x], min=float(lo) if g.chance(.8) else None, max=float(hi) if g.chance(.8) else None)
        a = g.shared_const(np.float32(lo)) if g.chance(.8) else ""
        b = g.shared_const(np.float32(hi)) if g.chance(.8) else ""
        ins = [x, a, b]
        while ins[-1] == "":
            ins.pop()
        return g.emit("Clip", ins)

    @staticmethod
    def other(g, x, k=None):
        """second operand of a broadcasting operator"""
        v = g.v(x)
        k = g.rng.randint(10) if k is None else k
        if k <= 5:
            s = bshape(g, v.shape)
            return g.shared_const(g.data(s, v.dtype, -3, 4))
        if k == 6:
            return x
        def compat(w):
            if w.dtype != v.dtype:
                return False
            try:
                return np.broadcast_shapes(w.shape, v.shape) is not None and (w.shape == v.shape or g.chance(.6))
            except ValueError:
                return False
        c = g.tensors(compat)
        if c:
            return c[g.rng.randint(len(c))]
        return g.shared_const(g.data(bshape(g, v.shape), v.dtype, -3, 4))

    @staticmethod
    def binary(g, x):
        v = g.v(x)
        if v.dtype.kind == "b":
            y = Emit.other(g, x)
            return g.emit(g.pick("And", "Or", "Xor"), [x, y] if g.chance(.7) else [y, x])
        if v.dtype.kind not in "fi" or v.dtype.itemsize < 4:
            raise Reject
        ops = ["Add", "Add", "Mul", "Mul", "Sub", "Sub", "Max", "Min", "Sum", "PRelu", "Max", "Sum"]
        if v.dtype.kind == "i":
            ops = ["Add", "Mul", "Sub"]
        op = g.pick(*ops)
        if op == "PRelu":
            s = bshape(g, v.shape, up=False)
            return g.emit(op, [x, g.shared_const(g.data(s, v.dtype, -2, 3))])
        if op in ("Max", "Min", "Sum"):
            n = g.pick(1, 2, 2, 2, 3)
            ins = [x] + [Emit.other(g, x) for _ in range(n - 1)]
            if g.chance(.3):
                ins = ins[::-1]
            return g.emit(op, ins)
        y = Emit.other(g, x)
        return g.emit(op, [x, y] if g.chance(.65) else [y, x])

    @staticmethod
    def compare(g, x):
        v = g.v(x)
        if v.dtype not in (np.float32, np.int64, np.int32):
            raise Reject
        ops = ["Less", "Greater"] + (["Equal"] if v.dtype.kind == "i" or g.opset >= 11 else [])
        if g.opset >= 12:
            ops += ["LessOrEqual", "GreaterOrEqual"]
        y = Emit.other(g, x)
        b = g.emit(g.pick(*ops), [x, y])
        return b

    @staticmethod
    def where(g, x):
        v = g.v(x)
        if g.opset < 9:
            raise Reject
        if v.dtype.kind == "b":
            return g.emit("Where", [x, g.const(np.float32(g.rng.randint(-3, 4))), g.const(g.data(bshape(g, v.shape)))])
        c = Emit.compare(g, x)
        return g.emit("Where", [c, x, Emit.other(g, x)])

    @staticmethod
    def shape_of(g, x):
        r = g.v(x).ndim
        a = {}
        if g.opset >= 15 and g.chance(.3) and r:
            a = {"start": g.rng.randint(-r, r + 1)}
            if g.chance(.6):
                a["end"] = g.rng.randint(-r, r + 1)
        return g.emit("Shape", [x], **a)

    @staticmethod
    def reshape(g, x):
        v = g.v(x)
        n = v.size
        if n == 0:
            raise Reject
        # random factorisation
        dims = []
        m = n
        for _ in range(g.rng.randint(1, 5)):
            ds = [d for d in range(1, m + 1) if m % d == 0]
            d = ds[g.rng.randint(len(ds))]
            dims.append(d)
            m //= d
        dims.append(m)
        if g.chance(.4):
            dims = [d for d in dims if d != 1] or [1]
        k = g.rng.randint(4)
        if k == 0:
            dims = list(v.shape[:1]) + [-1] if v.ndim else [-1]
        tgt = list(dims)
        if g.chance(.5) and -1 not in tgt and tgt:
            tgt[g.rng.randint(len(tgt))] = -1
        for i in range(len(tgt)):
            if i < v.ndim and tgt[i] == v.shape[i] and g.chance(.5):
                tgt[i] = 0
        return g.emit("Reshape", [x, g.shared_const(np.array(tgt, np.int64))])

    @staticmethod
    def squeeze(g, x):
        v = g.v(x)
        ones = [i for i, d in enumerate(v.shape) if d == 1]
        if not ones:
            # make some
            return Emit.unsqueeze(g, x)
        if g.chance(.12):
            return g.emit("Squeeze", [x])
        k = g.rng.randint(1, len(ones) + 1)
        ax = [ones[i] for i in g.rng.permutation(len(ones))[:k]]
        if g.chance(.7) or g.opset < 13:   # ONNX's own shape inference mishandles unsorted axes attributes
            ax = sorted(ax)
        neg = g.opset >= 11 and g.chance(.4)
        ax = [a - v.ndim if neg and g.chance(.7) else int(a) for a in ax]
        if g.opset < 13:
            return g.emit("Squeeze", [x], axes=ax)
        return g.emit("Squeeze", [x, g.shared_const(np.array(ax, np.int64))])

    @staticmethod
    def unsqueeze(g, x):
        v = g.v(x)
        k = g.pick(1, 1, 2)
        r = v.ndim + k
        if r > 6:
            raise Reject
        ax = [int(a) for a in g.rng.permutation(r)[:k]]
        if g.chance(.7):
            ax = sorted(ax)
        neg = g.opset >= 11 and g.chance(.4)
        ax = [a - r if neg and g.chance(.7) else a for a in ax]
        if g.opset < 13:
            return g.emit("Unsqueeze", [x], axes=ax)
        return g.emit("Unsqueeze", [x, g.shared_const(np.array(ax, np.int64))])

    @staticmethod
    def concat(g, x):
        v = g.v(x)
        if v.ndim == 0:
            raise Reject
        ax = g.rng.randint(v.ndim)
        n = g.pick(1, 2, 2, 2, 3)
        ins = [x]
        for _ in range(n - 1):
            c = g.tensors(lambda w: w.dtype == v.dtype and w.ndim == v.ndim and all(w.shape[i] == v.shape[i] for i in range(v.ndim) if i != ax))
            if c and g.chance(.6):
                ins.append(c[g.rng.randint(len(c))])
            else:
                s = list(v.shape)
                s[ax] = g.rng.randint(1, 3)
                ins.append(g.const(g.data(s, v.dtype, -3, 4)))
        if g.chance(.3):
            ins = ins[::-1]
        return g.emit("Concat", ins, axis=sgn_axis(g, ax, v.ndim) if g.opset >= 11 else int(ax))

    @staticmethod
    def split(g, x):
        v = g.v(x)
        axs = [i for i, d in enumerate(v.shape) if d >= 2]
        if not axs:
            raise Reject
        ax = axs[g.rng.randint(len(axs))]
        d = v.shape[ax]
        ax2 = sgn_axis(g, ax, v.ndim) if g.opset >= 11 else int(ax)
        a = {} if ax == 0 and g.chance(.5) else {"axis": ax2}
        nout = 2 if d < 4 or g.chance(.7) else 3
        even = d % nout == 0
        if even and g.chance(.4):
            if g.opset >= 18:
                a["num_outputs"] = nout
            return g.emit("Split", [x], nout=nout, **a)
        if g.opset >= 18 and g.chance(.3):
            c = -(-d // nout)
            if c * (nout - 1) < d:
                a["num_outputs"] = nout
                return g.emit("Split", [x], nout=nout, **a)
        first = g.rng.randint(1, d)
        sizes = [first, d - first]
        if nout == 3 and d - first >= 2:
            sizes = [first, 1, d - first - 1]
        nout = len(sizes)
        if g.opset < 13:
            return g.emit("Split", [x], nout=nout, split=[int(s) for s in sizes], **a)
        return g.emit("Split", [x, g.shared_const(np.array(sizes, np.int64))], nout=nout, **a)

    @staticmethod
    def slice(g, x):
        v = g.v(x)
        if v.ndim == 0:
            raise Reject
        k = g.rng.randint(1, min(3, v.ndim) + 1)
        ax = [int(a) for a in g.rng.permutation(v.ndim)[:k]]
        if g.chance(.6):
            ax = sorted(ax)
        st, en, sp = [], [], []
        for a in ax:
            d = v.shape[a]
            b = g.rng.randint(0, d)
            e = g.rng.randint(b + 1, d + 1) if d > b else d
            s = 1
            if g.opset >= 10 and g.chance(.3):
                s = g.pick(2, -1, -2)
            if s < 0:
                b, e = e - 1, b - 1
                if e < 0:
                    e = -d - 1 - g.rng.randint(3)
                elif g.chance(.4):
                    e -= d
            else:
                if e == d and g.chance(.4):
                    e = g.pick(2147483647, 9223372036854775807, d + 2)
                elif e < d and g.chance(.3):
                    e -= d
            if b >= 0 and g.chance(.3):
                b -= d
            st.append(int(b)); en.append(int(e)); sp.append(int(s))
        if g.opset < 10:
            noax = ax == list(range(len(ax))) and g.chance(.6)
            return g.emit("Slice", [x], starts=st, ends=en, axes=None if noax else ax)
        t = np.int64 if g.chance(.8) else np.int32
        en = [min(e, 2147483647) for e in en] if t == np.int32 else en
        ax2 = [sgn_axis(g, a, v.ndim) for a in ax] if g.opset >= 11 else ax
        ins = [x, g.const(np.array(st, t)), g.const(np.array(en, t)), g.shared_const(np.array(ax2, t))]
        if any(s != 1 for s in sp) or g.chance(.3):
            ins.append(g.const(np.array(sp, t)))
        elif ax == list(range(len(ax))) and g.chance(.5):
            ins.pop()
        return g.emit("Slice", ins)

    @staticmethod
    def pad(g, x):
        v = g.v(x)
        r = v.ndim
        if r == 0 or v.dtype not in (np.float32, np.int64):
            raise Reject
        mode = g.pick("constant", "constant", "constant", "edge", "reflect")
        if v.dtype != np.float32:
            mode = "constant"
            if g.opset < 11:
                raise Reject
        pads = [int(g.rng.randint(0, 3)) if g.chance(.5) else 0 for _ in range(2 * r)]
        if mode == "reflect" and any(isinstance(d, str) for i in g.root.inputs for d in i[2]):
            mode = "edge"   # a reflection wider than the tensor is not defined
        if mode == "reflect":
            pads = [min(p, v.shape[i % r] - 1) for i, p in enumerate(pads)]
        if mode == "constant" and g.chance(.15) and v.shape[0] > 1 and not any(isinstance(d, str) for i in g.root.inputs for d in i[2]):
            pads[0] = -1
        val = g.rng.randint(-2, 3)
        if g.opset < 11:
            return g.emit("Pad", [x], pads=pads, mode=mode if mode != "constant" or g.chance(.5) else None,
                          value=float(val) if mode == "constant" and g.chance(.7) else None)
        ins = [x, g.shared_const(np.array(pads, np.int64))]
        usev = mode == "constant" and g.chance(.6)
        if g.opset >= 18 and g.chance(.4):
            ax = [int(a) for a in g.rng.permutation(r)[:g.rng.randint(1, r + 1)]]
            p2 = [pads[a] for a in ax] + [pads[a + r] for a in ax]
            ins[1] = g.const(np.array(p2, np.int64))
            ins += [g.const(np.asarray(val, v.dtype)) if usev else "", g.const(np.array([sgn_axis(g, a, r) for a in ax], np.int64))]
        elif usev:
            ins.append(g.const(np.asarray(val, v.dtype)))
        return g.emit("Pad", ins, mode=mode if mode != "constant" or g.chance(.5) else None)

    @staticmethod
    def tile(g, x):
        v = g.v(x)
        if v.ndim == 0:
            raise Reject
        return g.emit("Tile", [x, g.shared_const(np.array([g.pick(1, 1, 2) for _ in v.shape], np.int64))])

    @staticmethod
    def expand(g, x):
        v = g.v(x)
        if g.opset < 8:
            raise Reject
        s = [d if d != 1 else g.pick(1, 2, 3) for d in v.shape]
        if g.chance(.3):
            s = [2] + s
        return g.emit("Expand", [x, g.shared_const(np.array(s, np.int64))])

    @staticmethod
    def gather(g, x):
        v = g.v(x)
        if v.ndim == 0 or 0 in v.shape:
            raise Reject
        ax = g.rng.randint(v.ndim)
        s = g.pick([], [1], [2], [2, 2])
        idx = g.rng.randint(0, v.shape[ax], size=s)
        if g.opset >= 11 and g.chance(.3):
            idx = idx - v.shape[ax]
        return g.emit("Gather", [x, g.shared_const(np.asarray(idx, g.pick(np.int64, np.int64, np.int32)))], axis=sgn_axis(g, ax, v.ndim) if g.opset >= 11 else int(ax))

    @staticmethod
    def flatten(g, x):
        v = g.v(x)
        if v.dtype != np.float32 and g.opset < 9:
            raise Reject
        return g.emit("Flatten", [x], axis=int(g.rng.randint(0, v.ndim + 1)))

    @staticmethod
    def reduce(g, x):
        v = g.v(x)
        if v.dtype not in (np.float32, np.int64, np.int32):
            raise Reject
        op = g.pick("ReduceSum", "ReduceSum", "ReduceMax", "ReduceMin", "ReduceMean", "ReduceProd", "ReduceSumSquare", "ReduceL1")
        if v.ndim == 0:
            raise Reject
        k = g.rng.randint(1, v.ndim + 1)
        ax = [int(a) for a in g.rng.permutation(v.ndim)[:k]]
        if g.opset >= 11:
            ax = [sgn_axis(g, a, v.ndim) for a in ax]
        a = {}
        if g.chance(.6):
            a["keepdims"] = g.pick(0, 1)
        if g.chance(.12):
            return g.emit(op, [x], **a)
        if (op == "ReduceSum" and g.opset >= 13) or g.opset >= 18:
            if g.chance(.1):
                a["noop_with_empty_axes"] = 1
            return g.emit(op, [x, g.shared_const(np.array(ax, np.int64))], **a)
        return g.emit(op, [x], axes=ax, **a)

    @staticmethod
    def argm(g, x):
        v = g.v(x)
        if v.dtype != np.float32 or v.ndim == 0:
            raise Reject
        ax = g.rng.randint(v.ndim)
        a = {"axis": sgn_axis(g, ax, v.ndim) if g.opset >= 11 else int(ax)}
        if ax == 0 and g.chance(.4):
            a = {}
        if g.chance(.6):
            a["keepdims"] = g.pick(0, 1)
        if g.opset >= 12 and g.chance(.3):
            a["select_last_index"] = 1
        return g.emit(g.pick("ArgMax", "ArgMin"), [x], **a)

    @staticmethod
    def softmax(g, x):
        v = g.v(x)
        if v.dtype != np.float32 or v.ndim == 0:
            raise Reject
        y = g.emit("Mul", [x, g.shared_const(np.float32(100))])
        a = {"axis": int(sgn_axis(g, g.rng.randint(v.ndim), v.ndim) if g.opset >= 11 else g.rng.randint(v.ndim))} if g.chance(.8) else {}
        return g.emit(g.pick("Softmax", "Softmax", "LogSoftmax"), [y], **a)

    @staticmethod
    def cumsum(g, x):
        v = g.v(x)
        if g.opset < 11 or v.dtype != np.float32 or v.ndim == 0:
            raise Reject
        return g.emit("CumSum", [x, g.const(np.array(g.rng.randint(-v.ndim, v.ndim), np.int64))], exclusive=g.pick(0, 1), reverse=g.pick(0, 1))

    @staticmethod
    def matmul(g, x):
        v = g.v(x)
        if v.dtype != np.float32 or v.ndim < 2 or 0 in v.shape:
            raise Reject
        return g.emit("MatMul", [x, g.const(g.data([v.shape[-1], g.pick(2, 3, 1)], lo=-2, hi=3))])

    @staticmethod
    def conv(g, x):
        v = g.v(x)
        if v.dtype != np.float32 or v.ndim not in (3, 4, 5) or 0 in v.shape:
            raise Reject
        c = v.shape[1]
        m = g.pick(1, 2, 3, c)
        grp = 1
        if g.chance(.15) and m % c == 0:
            grp = c
        ks = [min(g.pick(1, 1, 2, 3), d) for d in v.shape[2:]]
        w = g.data([m, c // grp] + ks, lo=-2, hi=3)
        ins = [x, g.shared_const(w)]
        if g.chance(.4):
            ins.append(g.shared_const(g.data([m], lo=-3, hi=4)))
        a = {}
        if g.chance(.3):
            a["auto_pad"] = g.pick("SAME_UPPER", "VALID", "SAME_LOWER")
        elif g.chance(.5):
            a["pads"] = [g.pick(0, 1) for _ in range(2 * len(ks))]
        if g.chance(.4):
            a["strides"] = [g.pick(1, 2) for _ in ks]
        if g.chance(.5):
            a["kernel_shape"] = [int(k) for k in ks]
        if grp != 1:
            a["group"] = int(grp)
        return g.emit("Conv", ins, **a)

    @staticmethod
    def pool(g, x):
        v = g.v(x)
        if v.dtype != np.float32 or v.ndim not in (3, 4, 5) or 0 in v.shape:
            raise Reject
        if g.chance(.3):
            return g.emit(g.pick("GlobalMaxPool", "GlobalAveragePool"), [x])
        ks = [min(g.pick(1, 2, 2), d) for d in v.shape[2:]]
        a = {"kernel_shape": [int(k) for k in ks]}
        if g.chance(.5):
            a["strides"] = [g.pick(1, 2) for _ in ks]
        return g.emit(g.pick("MaxPool", "MaxPool", "AveragePool"), [x], **a)

    @staticmethod
    def bn(g, x):
        v = g.v(x)
        if v.dtype != np.float32 or v.ndim < 2 or 0 in v.shape:
            raise Reject
        c = v.shape[1]
        sd = g.rng.choice([1, 2, 1], size=c).astype(np.float32)
        sc = sd * g.data([c], lo=1, hi=3)
        eps = g.pick(None, 1e-5, 1.0, 3.0)
        if eps is not None and eps >= 1:
            sd = np.full(c, {1.0: 1, 3.0: 2}[eps], np.float32)
            var = sd * sd - eps
            sc = sd * g.data([c], lo=1, hi=3)
        else:
            var = sd * sd
        k = lambda arr: g.shared_const(arr.astype(np.float32))
        return g.emit("BatchNormalization", [x, k(sc), k(g.data([c], lo=-3, hi=4)), k(g.data([c], lo=-2, hi=3)), k(var)], epsilon=eps)

    @staticmethod
    def cast(g, x):
        v = g.v(x)
        return g.emit("Cast", [x], to=g.pick(1, 6, 7, 9, 11, 3, 2, 5))

    @staticmethod
    def d2s(g, x):
        v = g.v(x)
        if v.dtype != np.float32 or v.ndim != 4:
            raise Reject
        if v.shape[2] % 2 == 0 and v.shape[3] % 2 == 0:
            return g.emit("SpaceToDepth", [x], blocksize=2)
        return g.emit("DepthToSpace", [x], blocksize=2, mode=g.pick("DCR", "CRD") if g.opset >= 11 else None)

    @staticmethod
    def qdq_params(g, v, per_axis=None):
        qt = g.pick(np.uint8, np.int8)
        if per_axis is None:
            sc = np.float32(g.pick(1, 2))
            zp = np.asarray(g.rng.randint(0, 4), qt)
        else:
            c = v.shape[per_axis]
            sc = g.rng.choice([1, 2, 4], size=c).astype(np.float32)
            zp = np.asarray(g.rng.randint(0, 4, size=c), qt)
        return sc, zp

    @staticmethod
    def quant(g, x):
        v = g.v(x)
        if v.dtype != np.float32 or g.opset < 10:
            raise Reject
        ax = None
        a = {}
        if g.opset >= 13 and v.ndim >= 1 and g.chance(.5):
            ax = g.rng.randint(v.ndim)
            if ax == 1 and g.chance(.5):
                pass
            else:
                a["axis"] = sgn_axis(g, ax, v.ndim)
        elif g.opset >= 13 and v.ndim >= 1 and g.chance(.2):
            a["axis"] = int(g.rng.randint(v.ndim))
        sc, zp = Emit.qdq_params(g, v, ax)
        ins = [x, g.shared_const(sc)]
        if zp.dtype != np.uint8 or np.any(zp != 0) or g.chance(.6):
            ins.append(g.shared_const(zp))
        if g.chance(.12):
            ins = ins[:2]
        return g.emit("QuantizeLinear", ins, **a)

    @staticmethod
    def dequant(g, x):
        v = g.v(x)
        if v.dtype not in (np.uint8, np.int8) or g.opset < 10:
            raise Reject
        ax = None
        a = {}
        if g.opset >= 13 and v.ndim >= 1 and g.chance(.5):
            ax = g.rng.randint(v.ndim)
            if not (ax == 1 and g.chance(.5)):
                a["axis"] = sgn_axis(g, ax, v.ndim)
        sc, zp = Emit.qdq_params(g, v, ax)
        zp = zp.astype(v.dtype)
        ins = [x, g.shared_const(sc)]
        if g.chance(.85):
            ins.append(g.shared_const(zp))
        return g.emit("DequantizeLinear", ins, **a)

    @staticmethod
    def identity(g, x):
        return g.emit("Identity", [x])

    @staticmethod
    def dropout(g, x):
        if g.v(x).dtype != np.float32:
            raise Reject
        return g.emit("Dropout", [x])

def flat(names):
    return list(names) if isinstance(names, (list, tuple)) else [names]

def random_step(g, x, weights):
    ks = list(weights)
    w = np.array([weights[k] for k in ks], float)
    for _ in range(6):
        k = ks[g.rng.choice(len(ks), p=w / w.sum())]
        try:
            return flat(getattr(Emit, k)(g, x) if isinstance(k, str) else k(g, x))
        except (Reject, ValueError, IndexError):
            continue
    raise Reject("no step")

# ------------------------------------------------------------------ nested bodies
def close_body(sub, outs, name):
    """graph proto of a body whose outputs are `outs` (each made an own node output or kept)"""
    return sub.graph_proto(name, outs)

def emit_if(g, x, weights, depth=1, nout=None, body_fn=None):
    v = g.v(x)
    if g.opset < 11 and any(isinstance(d, str) for i in g.root.inputs for d in i[2]):
        raise Reject   # onnx merges an unknown dim of one branch with the other branch's dim there
    # condition
    conds = g.tensors(lambda w: w.dtype == np.bool_ and w.size == 1 and w.ndim <= 1)
    if conds and g.chance(.3):
        c = conds[g.rng.randint(len(conds))]
    else:
        s = g.emit("ReduceMax", [g.emit("Cast", [x], to=1)], keepdims=0) if g.opset < 18 or True else None
        c = g.emit("Greater", [s, g.const(np.float32(g.rng.randint(-3, 6)))])
    nout = nout or g.pick(1, 1, 2)
    bodies, vals = [], []
    tmpl = None
    for br in ("then", "else"):
        sub = GB(g.rng, g.opset, parent=g, prefix=g.prefix + br[0] + str(g.root.cnt) + "_")
        outs = []
        cur = x
        ntry = g.rng.randint(1, 4)
        names = []
        for _ in range(ntry):
            try:
                r = (body_fn or random_step)(sub, cur, weights) if body_fn is None or True else None
                cur = r[g.rng.randint(len(r))]
                names.append(cur)
            except Reject:
                break
        own = [n for n in sub.order]
        for k in range(nout):
            if tmpl is None:
                o = own[-1 - g.rng.randint(min(2, len(own)))] if own else sub.emit("Identity", [x])
            else:
                cand = [n for n in own if sub.val[n].dtype == tmpl[k].dtype and sub.val[n].ndim == tmpl[k].ndim and n not in outs]
                if cand and g.chance(.8):
                    o = cand[-1]
                else:
                    o = sub.emit("Identity", [sub.const(np.asarray(g.data(tmpl[k].shape, tmpl[k].dtype)))])
            if o in outs:
                o = sub.emit("Identity", [o])
            outs.append(o)
        if tmpl is None:
            tmpl = [sub.v(o) for o in outs]
        elif g.opset < 11 and any(sub.v(o).shape != t.shape for o, t in zip(outs, tmpl)):
            raise Reject   # both branches produce the same shape there
        bodies.append(sub.graph_proto(br + "_g", outs))
    return flat(g.emit("If", [c], nout=nout, then_branch=bodies[0], else_branch=bodies[1]))

def emit_loop(g, x, weights, body_fn=None):
    v = g.v(x)
    trip = int(g.pick(0, 1, 2, 3))
    mx = g.shared_const(np.array(trip, np.int64)) if g.chance(.85) else ""
    usecond = mx == "" or g.chance(.3)
    c0 = g.shared_const(np.array(g.chance(.9) or mx == "", np.bool_)) if mx == "" or g.chance(.7) else ""
    sub = GB(g.rng, g.opset, parent=g, prefix=g.prefix + "b" + str(g.root.cnt) + "_")
    it = sub.add_input([], np.int64, name=sub.name("i"))
    sub.val[it] = np.array(0, np.int64)
    cd = sub.add_input([], np.bool_, name=sub.name("cnd"))
    sub.val[cd] = np.array(True)
    carried = []
    ncar = g.pick(1, 1, 2)
    inits = [x]
    for k in range(ncar - 1):
        c = g.tensors(lambda w: w.dtype == np.float32)
        inits.append(c[g.rng.randint(len(c))] if c and g.chance(.6) else g.const(g.data([2, 3])))
    for i in inits:
        w = g.v(i)
        n = sub.name("s")
        sub.inputs.append((n, w.dtype, list(w.shape) if g.chance(.6) else None, 0, 0))
        sub.val[n] = w
        sub.order.append(n)
        carried.append(n)
    outs = []
    cur = carried[0]
    for _ in range(g.rng.randint(1, 5)):
        try:
            if g.chance(.25):
                pool = sub.tensors(lambda w: w.dtype == np.float32)
                cur = pool[g.rng.randint(len(pool))]
            r = (body_fn or random_step)(sub, cur, weights)
            cur = r[g.rng.randint(len(r))]
        except Reject:
            break
    used = []
    def fresh(o):
        if o in used or o in (it, cd):
            o = sub.emit("Identity", [o])
        used.append(o)
        return o
    if usecond:
        co = sub.emit("Less", [it, sub.const(np.array(g.rng.randint(0, 4), np.int64))])
    else:
        co = cd if g.chance(.5) else sub.emit("Identity", [cd])
    used.append(co)
    outs = [co]
    for n in carried:
        w = sub.val[n]
        cand = [m for m in sub.order if sub.val[m].dtype == w.dtype and sub.val[m].shape == w.shape and m not in used]
        o = cand[g.rng.randint(len(cand))] if cand and g.chance(.85) else n
        outs.append(fresh(o))
    nscan = g.pick(0, 1, 1, 2)
    if trip == 0 and mx != "":
        pass
    for k in range(nscan):
        cand = [m for m in sub.order if m not in (it, cd) and m not in used]
        tr = [m for m in cand if any(nd.op_type in ("Transpose",) and m in nd.output for nd in sub.nodes)]
        if tr and g.chance(.5):
            o = tr[g.rng.randint(len(tr))]
        else:
            o = cand[-1 - g.rng.randint(min(3, len(cand)))] if cand else it
        outs.append(fresh(o))
    body = sub.graph_proto("body", outs)
    # body inputs without shape
    return flat(g.emit("Loop", [mx, c0] + inits, nout=len(inits) + nscan, body=body))
