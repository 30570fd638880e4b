"""C01: converted arithmetic, comparison, selection and reduction programs compute what TensorFlow computes."""
META = ("TLA+ operator semantics of TensorFlow and execution machine (TFSem.tla, TFTrace.tla); TLC follows recorded TensorFlow executions and judges the converted models' answers", "translation_validation",
        "random raw-operator TensorFlow programs (arithmetic, comparison, logical, rounding, casts, selection, reductions, arg-reductions, cumulative and segment operators; static/dynamic sizes; constant and computed operands) are converted at opsets 7..18 and run; TLC decides every integer-valued result from the specification and takes real-valued ones from the TensorFlow run; trusts TLC, TensorFlow eager execution and onnxruntime")
from tf_check import *
from gen_tf import *

EXACT_BREAK = {"RealDiv", "Div", "Mean", "Reciprocal", "Sqrt", "Rsqrt", "Exp", "Log", "Sin", "Cos", "Tan", "Asin", "Acos", "Atan", "Sinh", "Cosh", "Tanh", "Asinh", "Acosh", "Atanh",
               "Sigmoid", "Softplus", "Softsign", "Elu", "Selu", "Erf", "Log1p", "Expm1", "Softmax", "LogSoftmax", "Pow", "LeakyRelu", "DivNoNan", "SegmentMean", "SparseSegmentMean", "EuclideanNorm", "Cumprod", "Prod", "Inv", "Atan2"}
FL = (F32, F32, F32, F64)

class Prog(TP):
    def __init__(self, *a, **k):
        super().__init__(*a, **k)
        self.soft = set()
        self.signed0 = set()
    def op(self, op, args, attrs=None, ref=None, **k):
        ids = super().op(op, args, attrs, ref, **k)
        ins = [z for _, q in args for z in (q if isinstance(q, list) else [q]) if not isinstance(z, C)]
        if op in EXACT_BREAK or any(z in self.soft for z in ins):
            self.soft |= {i for i in ids if self.vals[i].dtype.kind == "f"}
        if op in ("Floor", "Ceil", "Round", "Rint", "Neg", "Mul", "FloorDiv", "FloorMod", "Mod", "TruncateMod", "Relu", "Relu6") or any(z in self.signed0 for z in ins):
            self.signed0 |= set(ids)
        return ids
    def exact(self, dts=(F32, F32, F32, I32, I64, F64), rank=None):
        d = self.pick(*dts)
        for _ in range(6):
            x = self.ten(lambda v: v.dtype.type == d and v.size > 0 and (rank is None or v.ndim in rank))
            if x not in self.soft:
                return x
        raise Reject("soft")

def swap(p, x, y):
    return (x, y) if p.ch(.6) else (y, x)

def e_unary(p):
    if getattr(p, "special", False):
        p.op(p.pick("Abs", "Neg", "Square"), [("x", p.num((F32,)))]) if p.ch(.7) else p.op("Relu", [("features", p.num((F32,)))])
        return
    x = p.num()
    v = p.vals[x]
    if v.dtype.kind == "i":
        p.op(p.pick("Abs", "Neg", "Sign", "Square"), [("x", x)])
        return
    k = p.pick("Abs", "Neg", "Sign", "Square", "Exp", "Sqrt", "Rsqrt", "Log", "Sin", "Cos", "Tan", "Tanh", "Sigmoid", "Asin", "Acos", "Atan", "Sinh", "Cosh", "Asinh", "Acosh", "Atanh", "Erf", "Log1p", "Reciprocal", "Expm1", "Inv")
    if k in ("Sqrt", "Log", "Rsqrt", "Log1p", "Acosh"):
        x = p.op("Abs", [("x", x)])[0]
        if k in ("Log", "Rsqrt", "Acosh"):
            x = p.op("AddV2", [("x", x), ("y", C(p.vals[x].dtype.type(1)))])[0]
    if k in ("Asin", "Acos", "Atanh"):
        x = p.op("Maximum", [("x", p.op("Minimum", [("x", x), ("y", C(p.vals[x].dtype.type(.5)))])[0]), ("y", C(p.vals[x].dtype.type(-.5)))])[0]
    p.op(k, [("x", x)])

def e_round(p):
    x = p.exact((F32, F32, F64))
    p.op(p.pick("Floor", "Ceil", "Round", "Rint"), [("x", x)])

def e_act(p):
    x = p.num((F32, F32, F64))
    k = p.pick("Relu", "Relu6", "LeakyRelu", "Elu", "Selu", "Softplus", "Softsign", "Softmax", "LogSoftmax")
    if k in ("Softmax", "LogSoftmax"):
        x = p.num((F32,), rank=(1, 2, 3))
        p.op(k, [("logits", x)])
    elif k == "LeakyRelu":
        p.op(k, [("features", x)], {"alpha": float(p.pick(.2, .5, 0., 1.5))})
    else:
        p.op(k, [("features", x)])

def e_binary(p):
    x = p.num()
    y = p.partner(x)
    x, y = swap(p, x, y)
    k = p.pick("AddV2", "Add", "Sub", "Mul", "Maximum", "Minimum", "SquaredDifference", "AddV2", "Mul")
    p.op(k, [("x", x), ("y", y)])

def nonzero(p, y):
    if isinstance(y, C):
        a = np.array(y.a)
        a[a == 0] = 2
        return C(a)
    z = p.op("Equal", [("x", y), ("y", C(np.zeros((), p.dt(y))))], {})[0]
    w = p.op("Cast", [("x", z)], {"DstT": p.dt(y)})[0]
    return p.op("AddV2", [("x", y), ("y", w)])[0]

def e_div(p):
    k = p.pick("FloorDiv", "FloorMod", "RealDiv", "DivNoNan", "FloorDiv", "FloorMod", "TruncateDiv", "Div", "Mod", "MulNoNan")
    if getattr(p, "special", False):
        k = p.pick("RealDiv", "DivNoNan")
    dts = {"RealDiv": (F32,), "DivNoNan": (F32,), "TruncateDiv": (I32, I64), "Mod": (I32, I64), "MulNoNan": (F32,)}.get(k, (F32, I32, I64))
    x = p.exact(dts)
    y = p.partner(x)
    if k not in ("DivNoNan", "MulNoNan"):
        y = nonzero(p, y)
    for _ in range(4):
        if isinstance(y, C) or y not in p.soft:
            break
        y = nonzero(p, p.partner(x))
    p.op(k, [("x", x), ("y", y)])

def e_pow(p):
    x = p.num((F32, F32, I32, I64))
    if not isinstance(x, C) and np.abs(p.vals[x].astype(float)).max(initial=0) > 600:
        raise Reject
    e = C(np.asarray(p.pick(0, 1, 2, 3), p.dt(x))) if p.ch(.6) else C(p.rng.randint(0, 4, size=p.sh(x)).astype(p.dt(x)) if p.static(x) else np.asarray(2, p.dt(x)))
    p.op("Pow", [("x", x), ("y", e)])

def e_atan2(p):
    x = p.exact((F32, F64))
    y = p.partner(x)
    if not isinstance(y, C) and (y in p.soft or y in p.signed0):
        raise Reject
    p.op("Atan2", [("y", x), ("x", nonzero(p, y))])

def e_cmp(p):
    x = p.exact()
    y = p.partner(x)
    if not isinstance(y, C) and y in p.soft:
        raise Reject
    x, y = swap(p, x, y)
    k = p.pick("Equal", "NotEqual", "Less", "LessEqual", "Greater", "GreaterEqual")
    p.op(k, [("x", x), ("y", y)])

def bool_(p):
    try:
        return p.ten(lambda v: v.dtype.type == BOOL and v.size)
    except Reject:
        e_cmp(p)
        return list(p.vals)[-1]

def e_logic(p):
    x = bool_(p)
    k = p.pick("LogicalAnd", "LogicalOr", "LogicalNot", "Equal", "NotEqual", "LogicalAnd", "LogicalOr")
    if k == "LogicalNot":
        p.op(k, [("x", x)])
    else:
        x, y = swap(p, x, p.partner(x))
        p.op(k, [("x", x), ("y", y)])

def e_bit(p):
    x = p.exact((I32, I64))
    k = p.pick("BitwiseAnd", "BitwiseOr", "BitwiseXor", "Invert", "LeftShift", "RightShift")
    if k == "Invert":
        p.op(k, [("x", x)])
    elif "Shift" in k:
        if p.ch(.7):
            x = p.op("Abs", [("x", x)])[0]
        p.op(k, [("x", x), ("y", C(np.asarray(p.pick(0, 1, 2, 3), p.dt(x))))])
    else:
        p.op(k, [("x", x), ("y", p.partner(x))])

def e_cast(p):
    x = p.exact((F32, I32, I64, BOOL, F64)) if p.ch(.8) else bool_(p)
    v = p.vals[x]
    d = p.pick(F32, I32, I64, BOOL, F64, F32, I32)
    if v.dtype.kind in "if" and np.all(np.abs(v.astype(float)) < 100) and p.ch(.15):
        d = p.pick(I8, I16, U8) if np.all(v >= 0) else p.pick(I8, I16)
    p.op("Cast", [("x", x)], {"DstT": d})

def e_isnan(p):
    p.op(p.pick("IsNan", "IsInf", "IsFinite"), [("x", p.num((F32, F32, F64)))])

def e_select(p):
    c = bool_(p)
    cv = p.vals[c]
    dts = p.pick(F32, F32, I32, I64, BOOL)
    if p.ch(.2):
        # a condition made for the rows of a tensor
        x = p.ten(lambda v: v.dtype.type == dts and v.ndim >= 1)
        s = p.sh(x)
        if p.static(x):
            cv = p.rng.rand(s[0]) < .5
            c = p.param(cv)
    if p.ch(.35):
        # strict Select: same shapes, or a vector of rows
        same = lambda v: v.dtype.type == dts and (v.shape == cv.shape or (cv.ndim == 1 and v.ndim > 1 and v.shape[0] == cv.shape[0]))
        x = p.ten(same)
        s = p.sh(x)
        try:
            y = p.ten(lambda v: v.dtype.type == dts and list(v.shape) == s)
        except Reject:
            if not p.static(x):
                raise
            y = C(p.data(s, dts))
        x, y = swap(p, x, y)
        p.op("Select", [("condition", c), ("x", x), ("y", y)])
        return
    def ok(v):
        if v.dtype.type != dts:
            return False
        try:
            np.broadcast_shapes(v.shape, cv.shape)
            return True
        except ValueError:
            return False
    x = p.ten(ok)
    y = p.partner(x)
    x, y = swap(p, x, y)
    p.op("SelectV2", [("condition", c), ("t", x), ("e", y)])

def axes(p, r, empty=True):
    k = p.rng.randint(0 if empty else 1, r + 1) if r else 0
    ax = list(p.rng.choice(r, size=k, replace=False)) if k else []
    return [int(a) - r if p.ch(.35) else int(a) for a in ax]

def e_reduce(p):
    k = p.pick("Sum", "Sum", "Mean", "Max", "Min", "Prod", "All", "Any", "EuclideanNorm")
    x = bool_(p) if k in ("All", "Any") else p.exact((F32,)) if k == "EuclideanNorm" else p.num((F32, F32, I32, I64) if k != "Mean" else (F32, F32, F64))
    r = p.rank(x)
    ax = axes(p, r)
    if len(ax) == 1 and p.ch(.4):
        a = np.asarray(ax[0], np.int32)
    else:
        a = np.asarray(ax, np.int32)
    if p.ch(.2):
        a = a.astype(np.int64)
    p.op(k, [("input", x), ("axis", C(a))], {"keep_dims": bool(p.ch(.4))})

def e_arg(p):
    x = p.exact((F32, F32, I32, I64), rank=(1, 2, 3, 4))
    r = p.rank(x)
    a = p.rng.randint(r)
    p.op(p.pick("ArgMax", "ArgMin"), [("input", x), ("dimension", C(np.int32(a - r if p.ch(.4) else a)))], {"output_type": p.pick(I64, I64, I32)})

def e_cum(p):
    x = p.num((F32, F32, I32, I64), rank=(1, 2, 3))
    r = p.rank(x)
    a = p.rng.randint(r)
    k = "Cumsum" if p.ch(.8) else "Cumprod"
    p.op(k, [("x", x), ("axis", p.param(np.int32(a - r if p.ch(.4) else a)) if k == "Cumsum" else C(np.int32(a)))], {"exclusive": bool(p.ch(.4)), "reverse": bool(p.ch(.4))})

def e_seg(p):
    k = p.pick("SegmentSum", "SegmentProd", "SegmentMax", "SegmentMin", "SegmentMean", "UnsortedSegmentSum", "UnsortedSegmentProd", "UnsortedSegmentMax", "UnsortedSegmentMin",
               "SparseSegmentSum", "SparseSegmentMean", "SparseSegmentSumWithNumSegments", "SparseSegmentMeanWithNumSegments")
    x = p.num((F32, F32, I32) if "Mean" not in k and "Sparse" not in k else (F32,), rank=(1, 2, 3))
    n = p.sh(x)[0]
    if not p.static(x):
        raise Reject
    idt = p.pick(I32, I64)
    if k.startswith("Sparse"):
        m = p.rng.randint(1, 5)
        ind = p.rng.randint(0, n, size=m).astype(idt)
        seg = np.sort(p.rng.randint(0, 3, size=m)).astype(I32)
        args = [("data", x), ("indices", p.param(ind)), ("segment_ids", p.param(seg))]
        if "Num" in k:
            args.append(("num_segments", C(np.asarray(int(seg[-1]) + 1 + p.rng.randint(0, 2), I32))))
        p.op(k, args)
    elif k.startswith("Unsorted"):
        seg = p.rng.randint(0, 3, size=n).astype(idt)
        if p.ch(.2):
            seg[p.rng.randint(n)] = -1
        num = 3
        if k.endswith(("Max", "Min")):
            seg = np.arange(n).astype(idt) % 2
            num = min(n, 2)
        p.op(k, [("data", x), ("segment_ids", p.param(seg)), ("num_segments", p.param(np.asarray(num, I32)))])
    else:
        seg = np.sort(p.rng.randint(0, 3, size=n)).astype(idt)
        p.op(k, [("data", x), ("segment_ids", p.param(seg))])

def e_bin(p):
    x = p.param(p.rng.randint(0, 5, size=p.rng.randint(1, 6)).astype(I32))
    if isinstance(x, C):
        x = p.add_input(list(x.a.shape), I32, fixed=x.a)
    w = C(np.zeros([0], I32)) if p.ch(.6) else C(p.data(p.sh(x), p.pick(F32, I32)))
    p.op("Bincount", [("arr", x), ("size", C(np.int32(p.rng.randint(0, 7)))), ("weights", w)])

def e_topk(p):
    x = p.exact((F32, F32, I32), rank=(1, 2, 3))
    n = p.sh(x)[-1]
    if not p.static(x):
        k = 1
    else:
        k = p.rng.randint(1, n + 1)
    p.op("TopKV2", [("input", x), ("k", p.param(np.int32(k)))], {"sorted": True})

def e_clip(p):
    x = p.num((F32, F32, I32, I64))
    p.op("ClipByValue", [("t", x), ("clip_value_min", C(np.asarray(p.pick(-2, 0, -1), p.dt(x)))), ("clip_value_max", C(np.asarray(p.pick(1, 3, 2), p.dt(x))))])

def e_addn(p):
    x = p.num()
    xs = [x]
    for _ in range(p.rng.randint(0, 3)):
        xs.append(p.partner(x, same=True) if p.static(x) else x)
    p.op("AddN", [("inputs", xs)])

def e_bias(p):
    x = p.num((F32, F32, I32), rank=(2, 3, 4))
    if not p.static(x):
        raise Reject
    p.op("BiasAdd", [("value", x), ("bias", C(p.data([p.sh(x)[-1]], p.dt(x))))], {"data_format": "NHWC"})

EMITS = [(e_unary, 5), (e_round, 3), (e_act, 3), (e_binary, 6), (e_div, 5), (e_pow, 1), (e_atan2, 1), (e_cmp, 3), (e_logic, 3), (e_bit, 2), (e_cast, 4), (e_isnan, 1), (e_select, 4),
         (e_reduce, 5), (e_arg, 2), (e_cum, 2), (e_seg, 3), (e_bin, 1), (e_topk, 2), (e_clip, 1), (e_addn, 1), (e_bias, 1)]

SPECIAL = [(e_unary, 3), (e_cmp, 6), (e_select, 3), (e_isnan, 3), (e_div, 2), (e_logic, 2), (e_round, 2)]

def probe_select_nan(p):
    p.opsets = [7]
    p.special = True
    x = p.add_input([3], F32, fixed=np.array([np.nan, 1, np.inf], F32))
    c = p.add_input([3], BOOL, fixed=np.array([False, True, False]))
    p.op("SelectV2", [("condition", c), ("t", x), ("e", C(np.array([5, 6, 7], F32)))])

def probe_topk_big(p):
    p.opsets = [9]
    x = p.add_input([3], I32, fixed=np.array([16777216, 16777217, 16777218], I32))
    p.op("TopKV2", [("input", x), ("k", C(np.asarray(2, I32)))], {"sorted": True})

def probe_less_big(p):
    p.opsets = [8]
    x = p.add_input([2], I32, fixed=np.array([16777216, 16777218], I32))
    p.op("Less", [("x", x), ("y", C(np.array([16777217, 16777219], I32)))])

PROBES = [("select_nan_before_opset9", probe_select_nan), ("topk_big_int_before_opset11", probe_topk_big), ("less_big_int_before_opset9", probe_less_big)]

def gen(rng, i):
    p = Prog(rng)
    if i >= PROBE:
        p.probe = True
        PROBES[i - PROBE][1](p)
        return p
    if rng.rand() < .1:      # NaN and infinities
        p.special = True
        p.opsets = [o for o in OPSETS if o >= 9]
        for _ in range(2):
            p.add_input(None, F32, "special")
        for _ in range(12):
            try:
                SPECIAL[int(rng.choice(len(SPECIAL)))][0](p)
            except Reject:
                pass
            if len(p.steps) > 4:
                break
        return p
    for _ in range(p.pick(1, 2, 2, 3)):
        d = p.pick(F32, F32, F32, F32, I32, I32, I64, F64, BOOL)
        big = d in (I32, I64) and p.ch(.12)
        if big:
            p.opsets = [o for o in OPSETS if o >= 11]
        p.add_input(None, d, p.pick("int", "int", "half", "frac"), *((16777214, 16777220) if big else ()))
    w = np.array([x[1] for x in EMITS], float)
    if rng.rand() < .5:      # a program centred on few operators
        w = w * (rng.rand(len(w)) < .3) + .05
    w /= w.sum()
    n, tries, want = 0, 0, int(rng.randint(2, 9))
    while n < want and tries < 60:
        tries += 1
        k = len(p.steps)
        try:
            EMITS[int(rng.choice(len(EMITS), p=w))][0](p)
            n += 1
        except Reject:
            pass
    if not p.steps:
        raise Reject
    return p

def accept(op, err, desc, opset):
    return False

def main():
    n, budget = (int(os.environ.get("NN", 1500)), 150) if TIER == "quick" else (12000, 650)
    return run_profile("C01", gen, n, budget, accept=accept, probes=[x[0] for x in PROBES])
