"""C02: converted shape, indexing and rearrangement programs compute what TensorFlow computes."""
META = ("TLA+ operator semantics of TensorFlow and execution machine (TFSem.tla, TFTrace.tla); TLC follows recorded TensorFlow executions and judges the converted models' answers", "translation_validation",
        "random raw-operator TensorFlow programs (reshape, transpose, strided slices with all masks, gather/scatter, concat/split/stack, pad, tile, broadcast, reverse, roll, one-hot, range, fill, shape queries, partitions, unique; static/dynamic sizes; constant and computed operands) are converted at opsets 7..18 and run; TLC decides every result from the specification; trusts TLC, TensorFlow eager execution and onnxruntime")
from tf_check import *
from gen_tf import *

DT = (F32, F32, F32, I32, I64, BOOL)

def any_(p, rank=None, dts=DT, min1=True):
    d = p.pick(*dts)
    return p.ten(lambda v: v.dtype.type == d and (rank is None or v.ndim in rank) and (v.size > 0 or not min1))

def idt(p):
    return p.pick(I32, I32, I64)

def shape_of(p, x, t=None):
    return p.op("Shape", [("input", x)], {"out_type": t or I32})[0]

def dim(p, x, k, t=None):
    """scalar tensor with a size of x, as Python code computes it"""
    s = shape_of(p, x, t)
    p.params.add(s)
    r = p.rank(x)
    if p.ch(.3) and k < r:
        k -= r
    b = k
    e = k + 1
    one = np.array([1], np.int32)
    d = p.op("StridedSlice", [("input", s), ("begin", C(np.array([b], np.int32))), ("end", C(np.array([e], np.int32))), ("strides", C(one))],
             {"begin_mask": 0, "end_mask": 1 if e == 0 else 0, "ellipsis_mask": 0, "new_axis_mask": 0, "shrink_axis_mask": 1})[0]
    p.params.add(d)
    return d

def vec(p, xs, t=I32):
    """a vector of sizes: ints or scalar tensors"""
    if not any(isinstance(x, str) for x in xs):
        return p.param(np.asarray(xs, t))
    v = p.op("Pack", [("values", [x if isinstance(x, str) else C(np.asarray(x, t)) for x in xs])], {"axis": 0})[0]
    p.params.add(v)
    return v

def sgn(p, a, r):
    return int(a) - r if p.ch(.35) else int(a)

def dynamic(p, x):
    return any(p.dyn.values())

def e_reshape(p):
    x = any_(p)
    s = p.sh(x)
    n = int(np.prod(s))
    t = idt(p)
    if dynamic(p, x) or p.ch(.3):
        r = p.rng.randint(0, 3)
        if r == 0:
            args = C(np.asarray([-1], t))
        elif r == 1 and len(s) > 1:
            k = p.rng.randint(len(s))
            args = vec(p, [dim(p, x, k, t), -1], t)
        else:
            args = shape_of(p, any_(p), t)
            if int(np.prod(p.vals[args])) != n:
                args = C(np.asarray([-1, 1], t))
    else:
        f = [d for d in range(1, n + 1) if n % d == 0]
        a = int(p.rng.choice(f))
        f2 = [d for d in range(1, n // a + 1) if (n // a) % d == 0]
        b = int(p.rng.choice(f2))
        ns = p.pick([n], [a, n // a], [a, b, n // a // b], [1, a, n // a], s + [1])
        ns = list(ns)
        if p.ch(.4) and ns:
            ns[p.rng.randint(len(ns))] = -1
        if n == 1 and p.ch(.3):
            ns = []
        args = p.param(np.asarray(ns, t))
    p.op("Reshape", [("tensor", x), ("shape", args)])

def e_transpose(p):
    x = any_(p, (1, 2, 3, 4))
    perm = p.rng.permutation(p.rank(x)).astype(p.pick(I32, I32, I64))
    p.op("Transpose", [("x", x), ("perm", C(perm))])

def e_expand(p):
    x = any_(p, (0, 1, 2, 3))
    r = p.rank(x) + 1
    p.op("ExpandDims", [("input", x), ("axis", C(np.asarray(sgn(p, p.rng.randint(r), r), idt(p))))])

def e_squeeze(p):
    x = any_(p, (1, 2, 3, 4))
    ones = [k for k, d in enumerate(p.sh(x)) if d == 1]
    if dynamic(p, x):
        x = p.op("ExpandDims", [("input", x), ("axis", C(np.int32(0)))])[0]
        ones = [0]
        ax = [sgn(p, 0, p.rank(x))]
    else:
        if not ones:
            raise Reject
        ax = [] if p.ch(.3) else [sgn(p, k, p.rank(x)) for k in p.rng.permutation(ones)[:p.rng.randint(1, len(ones) + 1)]]
    p.op("Squeeze", [("input", x)], {"axis": [int(a) for a in ax]})

def e_slice(p):
    x = any_(p, (1, 2, 3))
    s = p.sh(x)
    b = [int(p.rng.randint(0, d)) for d in s]
    z = [-1 if p.ch(.4) else int(p.rng.randint(1, d - q + 1)) for d, q in zip(s, b)]
    if dynamic(p, x):
        b = [0] * len(s)
        z = [-1 if p.ch(.6) else 1 for _ in s]
    t = idt(p)
    size = vec(p, z, t) if p.ch(.8) else vec(p, [q if q >= 0 else -1 for q in z], t)
    p.op("Slice", [("input", x), ("begin", p.param(np.asarray(b, t))), ("size", size)])

def e_strided(p):
    x = any_(p, (1, 2, 3, 4))
    s = p.sh(x)
    r = len(s)
    t = idt(p)
    n = p.rng.randint(1, r + 2)
    em = nm = sm = bm = en = 0
    b, e, st = [], [], []
    d = 0
    used = 0
    ell = p.ch(.35)
    pos = p.rng.randint(0, n) if ell else -1
    # plan the kinds first
    kinds = []
    left = r
    for k in range(n):
        if k == pos:
            kinds.append("e")
        elif p.ch(.15):
            kinds.append("n")
        elif left > 0:
            kinds.append("s" if p.ch(.3) else "r")
            left -= 1
        else:
            kinds.append("n")
    span = left if pos >= 0 else 0
    for k, kind in enumerate(kinds):
        if kind == "e":
            em |= 1 << k
            b.append(0), e.append(0), st.append(1)
            d += span
            if p.ch(.2):
                bm |= 1 << k
        elif kind == "n":
            nm |= 1 << k
            b.append(0), e.append(0), st.append(1)
            if p.ch(.15):
                sm |= 1 << k      # new axis wins
        else:
            m = s[d]
            if kind == "s":
                sm |= 1 << k
                i = int(p.rng.randint(0, m)) if not dynamic(p, x) else p.pick(0, -1)
                if p.ch(.3) and not dynamic(p, x):
                    i -= m
                b.append(i), e.append(i + 1), st.append(1)
                if p.ch(.15) :
                    en |= 1 << k
            else:
                z = p.pick(1, 1, 1, 2, -1, -1, -2, 3)
                lo = int(p.rng.randint(-m - 1, m + 2))
                hi = int(p.rng.randint(-m - 1, m + 2))
                if z > 0 and p.ch(.8):
                    lo, hi = min(lo % (m + 1), hi % (m + 1)), max(lo % (m + 1), hi % (m + 1))
                if z < 0 and p.ch(.8):
                    lo, hi = max(lo % (m + 1), hi % (m + 1)), min(lo % (m + 1), hi % (m + 1)) - 1
                    if hi < 0:
                        hi = -m - 1
                if z < 0:       # a start before the first element: ONNX clamps it to 0 (probe strided_slice_start_below)
                    lo = max(lo, -1 if dynamic(p, x) else -m)
                b.append(lo), e.append(hi), st.append(z)
                if p.ch(.35):
                    bm |= 1 << k
                if p.ch(.35):
                    en |= 1 << k
            d += 1
    p.op("StridedSlice", [("input", x), ("begin", p.param(np.asarray(b, t))), ("end", p.param(np.asarray(e, t))), ("strides", C(np.asarray(st, t)))],
         {"begin_mask": bm, "end_mask": en, "ellipsis_mask": em, "new_axis_mask": nm, "shrink_axis_mask": sm})

def index(p, n, shape, t=None):
    return p.param(p.rng.randint(0, max(n, 1), size=shape).astype(t or idt(p)))

def ishape(p, hi=3):
    return [int(p.rng.randint(1, 4)) for _ in range(p.rng.randint(0, hi))]

def e_gather(p):
    if p.ch(.15):
        x = p.add_input([int(p.rng.randint(1, 4)) for _ in range(p.rng.randint(4, 6))], p.pick(*DT))
    else:
        x = any_(p, (1, 2, 3, 4))
    s = p.sh(x)
    r = len(s)
    if p.ch(.4) and r >= 2 and not dynamic(p, x):
        b = p.rng.randint(1, r)
        ind = index(p, 1, s[:b] + ishape(p), None)
        a = p.rng.randint(b, r)
        v = p.rng.randint(0, s[a], size=s[:b] + ishape(p, 2)).astype(idt(p))
        ind = p.param(v)
        bd = int(b)
        if p.ch(.3) and v.ndim > b - 0:
            bd = b - v.ndim if b - v.ndim < 0 else b
        p.op("GatherV2", [("params", x), ("indices", ind), ("axis", C(np.asarray(sgn(p, a, r), I32)))], {"batch_dims": int(bd)})
        return
    a = p.rng.randint(r)
    n = 1 if dynamic(p, x) else s[a]
    if p.ch(.15) and a == 0:
        p.op("Gather", [("params", x), ("indices", index(p, 1 if dynamic(p, x) else s[0], ishape(p)))])
    else:
        p.op("GatherV2", [("params", x), ("indices", index(p, n, ishape(p))), ("axis", C(np.asarray(sgn(p, a, r), p.pick(I32, I64))))], {"batch_dims": 0})

def nd_index(p, s, k, lead, t, distinct=False):
    if distinct:
        n = int(np.prod(lead))
        cells = int(np.prod(s[:k]))
        if n > cells:
            raise Reject
        f = p.rng.choice(cells, size=n, replace=False)
        return np.stack(np.unravel_index(f, s[:k]), -1).reshape(list(lead) + [k]).astype(t)
    return np.stack([p.rng.randint(0, d, size=lead) for d in s[:k]], -1).reshape(list(lead) + [k]).astype(t)

def e_gathernd(p):
    x = any_(p, (1, 2, 3))
    s = p.sh(x)
    if dynamic(p, x):
        s = [1] * len(s)
    k = p.rng.randint(1, len(s) + 1)
    p.op("GatherNd", [("params", x), ("indices", p.param(nd_index(p, s, k, ishape(p), idt(p))))])

def e_scatternd(p):
    t = idt(p)
    s = [int(p.rng.randint(1, 5)) for _ in range(p.rng.randint(1, 4))]
    k = p.rng.randint(1, len(s) + 1)
    lead = [int(p.rng.randint(1, 4)) for _ in range(p.pick(1, 1, 2))]
    dup = p.ch(.3)
    ind = nd_index(p, s, k, lead, t, not dup)
    if dup:         # before opset 16 duplicated indices are a recorded finding (probe scatternd_duplicates)
        p.opsets = [o for o in getattr(p, "opsets", OPSETS) if o >= 16]
    want = lead + s[k:]
    try:
        u = p.ten(lambda v: list(v.shape) == want and v.dtype.type in (F32, I32, I64))
    except Reject:
        u = p.add_input(want, p.pick(F32, F32, I32))
    p.op("ScatterNd", [("indices", p.param(ind)), ("updates", u), ("shape", p.param(np.asarray(s, t)))])

def e_tscatter(p):
    x = any_(p, (1, 2, 3), (F32, F32, I32, I64))
    if dynamic(p, x):
        raise Reject
    s = p.sh(x)
    op = p.pick("TensorScatterUpdate", "TensorScatterUpdate", "TensorScatterAdd", "TensorScatterSub", "TensorScatterMax", "TensorScatterMin")
    k = p.rng.randint(1, len(s) + 1)
    lead = [int(p.rng.randint(1, 4)) for _ in range(p.pick(1, 1, 2))]
    dup = op not in ("TensorScatterUpdate",) and p.ch(.4)
    ind = nd_index(p, s, k, lead, idt(p), not dup)
    want = lead + s[k:]
    u = C(p.data(want, p.dt(x)))
    try:
        if p.ch(.6):
            u = p.ten(lambda v: list(v.shape) == want and v.dtype.type == p.dt(x))
    except Reject:
        pass
    p.op(op, [("tensor", x), ("indices", p.param(ind)), ("updates", u)])

def e_concat(p):
    x = any_(p, (1, 2, 3))
    s = p.sh(x)
    a = p.rng.randint(len(s))
    xs = [x]
    for _ in range(p.rng.randint(0, 3)):
        try:
            xs.append(p.ten(lambda v: v.dtype.type == p.dt(x) and v.ndim == len(s) and all(v.shape[i] == s[i] for i in range(len(s)) if i != a)))
        except Reject:
            xs.append(x)
    if p.ch(.3) and not dynamic(p, x):
        z = list(s)
        z[a] = p.rng.randint(1, 3)
        xs.insert(p.rng.randint(len(xs) + 1), C(p.data(z, p.dt(x))))
    if len(xs) < 2:
        xs.append(x)
    p.op("ConcatV2", [("values", xs), ("axis", C(np.asarray(sgn(p, a, len(s)), idt(p))))])

def e_split(p):
    x = any_(p, (1, 2, 3))
    s = p.sh(x)
    a = p.rng.randint(len(s))
    if dynamic(p, x):
        raise Reject
    if p.ch(.5):
        n = int(p.rng.choice([d for d in range(1, s[a] + 1) if s[a] % d == 0]))
        p.op("Split", [("axis", C(np.asarray(sgn(p, a, len(s)), I32))), ("value", x)], {"num_split": n})
    else:
        cut = sorted(p.rng.randint(0, s[a] + 1, size=p.rng.randint(0, 3)))
        z = np.diff([0] + list(cut) + [s[a]]).astype(idt(p))
        if p.ch(.3):
            z[p.rng.randint(len(z))] = -1
        p.op("SplitV", [("value", x), ("size_splits", C(z)), ("axis", C(np.asarray(sgn(p, a, len(s)), I32)))], {"num_split": len(z)})

def e_pack(p):
    x = any_(p, (0, 1, 2, 3))
    xs = [x]
    for _ in range(p.rng.randint(0, 3)):
        try:
            xs.append(p.ten(lambda v: v.dtype == p.vals[x].dtype and v.shape == p.vals[x].shape))
        except Reject:
            xs.append(x)
    r = p.rank(x) + 1
    p.op("Pack", [("values", xs)], {"axis": sgn(p, p.rng.randint(r), r)})

def e_unpack(p):
    x = any_(p, (1, 2, 3))
    a = p.rng.randint(p.rank(x))
    if dynamic(p, x):
        raise Reject
    p.op("Unpack", [("value", x)], {"num": int(p.sh(x)[a]), "axis": sgn(p, a, p.rank(x))})

def e_pad(p):
    x = any_(p, (1, 2, 3, 4), (F32, F32, I32, I64, F32))
    s = p.sh(x)
    k = p.pick("Pad", "PadV2", "MirrorPad", "Pad")
    t = idt(p)
    if k == "MirrorPad":
        mode = p.pick("REFLECT", "SYMMETRIC")
        m = [(0 if dynamic(p, x) else d - 1) if mode == "REFLECT" else (1 if dynamic(p, x) else d) for d in s]
        z = np.asarray([[p.rng.randint(0, min(d, 2) + 1), p.rng.randint(0, min(d, 2) + 1)] for d in m], t)
        p.op(k, [("input", x), ("paddings", p.param(z))], {"mode": mode})
        return
    z = np.asarray(p.rng.randint(0, 3, size=(len(s), 2)), t)
    if p.ch(.3):
        z[p.rng.randint(len(s))] = 0
    args = [("input", x), ("paddings", p.param(z))]
    if k == "PadV2":
        args.append(("constant_values", p.param(np.asarray(p.rng.randint(-3, 4), p.dt(x)))))
    p.op(k, args)

def e_tile(p):
    x = any_(p, (1, 2, 3))
    t = idt(p)
    m = [int(p.rng.randint(1, 4)) for _ in p.sh(x)]
    if p.ch(.25):
        m[p.rng.randint(len(m))] = dim(p, any_(p, (1, 2, 3)), 0, t)
    p.op("Tile", [("input", x), ("multiples", vec(p, m, t))])

def e_broadcast(p):
    x = any_(p, (0, 1, 2, 3))
    s = p.sh(x)
    t = idt(p)
    if p.ch(.35) or dynamic(p, x):
        def ok(v):
            try:
                return v.ndim > 0 and np.broadcast_shapes(v.shape, tuple(s)) == v.shape
            except ValueError:
                return False
        p.op("BroadcastTo", [("input", x), ("shape", shape_of(p, p.ten(ok), t))])
        return
    ns = [int(p.rng.randint(1, 4)) for _ in range(p.rng.randint(0, 2))] + [int(p.rng.randint(1, 4)) if d == 1 else d for d in s]
    p.op("BroadcastTo", [("input", x), ("shape", p.param(np.asarray(ns, t)))])

def e_reverse(p):
    x = any_(p, (1, 2, 3, 4))
    r = p.rank(x)
    if p.ch(.3) and r >= 2:
        q = p.rng.permutation(r)
        b, sdim = int(q[0]), int(q[1])
        if dynamic(p, x):
            raise Reject
        # length 0 is left out: onnxruntime's ReverseSequence drops the first element then
        n = p.rng.randint(1, p.sh(x)[sdim] + 1, size=p.sh(x)[b]).astype(idt(p))
        p.op("ReverseSequence", [("input", x), ("seq_lengths", p.param(n))], {"seq_dim": sdim, "batch_dim": b})
        return
    k = p.rng.randint(0, r + 1)
    ax = [sgn(p, a, r) for a in p.rng.permutation(r)[:k]]
    p.op("ReverseV2", [("tensor", x), ("axis", C(np.asarray(ax, idt(p))))])

def e_roll(p):
    x = any_(p, (1, 2, 3))
    r = p.rank(x)
    k = p.rng.randint(1, r + 1)
    ax = [sgn(p, a, r) for a in p.rng.randint(0, r, size=k)] if p.ch(.3) else [sgn(p, a, r) for a in p.rng.permutation(r)[:k]]
    sh = p.rng.randint(-4, 5, size=k)
    t = idt(p)
    if k == 1 and p.ch(.5):
        p.op("Roll", [("input", x), ("shift", p.param(np.asarray(sh[0], t))), ("axis", C(np.asarray(ax[0], t)))])
    else:
        p.op("Roll", [("input", x), ("shift", p.param(np.asarray(sh, t))), ("axis", C(np.asarray(ax, t)))])

def e_onehot(p):
    t = p.pick(I32, I64)
    dep = int(p.rng.randint(1, 5))
    s = ishape(p, 4)
    v = p.rng.randint(-1, dep + 1, size=s).astype(t) if p.ch(.5) else p.rng.randint(0, dep, size=s).astype(t)
    x = p.add_input(s, t, fixed=v)
    on, off = p.pick((1, 0), (5, -1), (0, 1), (2, 2))
    d = p.pick(F32, F32, I32, I64, BOOL)
    r = len(s) + 1
    p.op("OneHot", [("indices", x), ("depth", p.param(np.asarray(dep, I32))), ("on_value", C(np.asarray(on, d))), ("off_value", C(np.asarray(off, d)))],
         {"axis": p.pick(-1, int(p.rng.randint(r)))})

def e_range(p):
    d = p.pick(I32, I32, I64, F32)
    st = int(p.pick(1, 1, 2, 3, -1, -2))
    a, b = int(p.rng.randint(-3, 4)), int(p.rng.randint(-3, 8))
    if (b - a) * st < 0:
        a, b = b, a
    lim = p.param(np.asarray(b, d))
    if p.ch(.3) and d in (I32, I64) and st > 0:
        lim = dim(p, any_(p, (1, 2, 3)), 0, d)
        a = 0
    p.op("Range", [("start", p.param(np.asarray(a, d))), ("limit", lim), ("delta", C(np.asarray(st, d)))])

def e_fill(p):
    t = idt(p)
    s = [int(p.rng.randint(1, 4)) for _ in range(p.rng.randint(0, 4))]
    if s and p.ch(.4):
        s[p.rng.randint(len(s))] = dim(p, any_(p, (1, 2, 3)), 0, t)
    v = p.param(np.asarray(p.rng.randint(-3, 4), p.pick(F32, I32, I64, BOOL)))
    p.op("Fill", [("dims", vec(p, s, t) if s else C(np.zeros([0], t))), ("value", v)])

def e_shape(p):
    x = any_(p)
    k = p.pick("Shape", "Shape", "Size", "Rank", "ShapeN")
    if k == "Rank":
        p.op(k, [("input", x)])
    elif k == "ShapeN":
        p.op(k, [("input", [x, any_(p)])], {"out_type": p.pick(I32, I64)})
    else:
        p.op(k, [("input", x)], {"out_type": p.pick(I32, I64)})

def e_where(p):
    x = p.ten(lambda v: v.dtype.type in (BOOL, F32, I32) and v.ndim in (1, 2, 3) and v.size)
    if p.vals[x].dtype.type != BOOL:
        x = p.op("Greater", [("x", x), ("y", C(np.asarray(0, p.dt(x))))])[0]
    p.op("Where", [("condition", x)])

def e_matrix(p):
    k = p.pick("MatrixBandPart", "MatrixDiag", "MatrixDiagPart")
    if k == "MatrixDiag":
        p.op(k, [("diagonal", any_(p, (1, 2, 3), (F32, F32, I32)))])
    elif k == "MatrixDiagPart":
        p.op(k, [("input", any_(p, (2, 3), (F32, F32, I32)))])
    else:
        x = any_(p, (2, 3), (F32, F32, I32))
        t = I64
        p.op(k, [("input", x), ("num_lower", C(np.asarray(p.rng.randint(-1, 3), t))), ("num_upper", C(np.asarray(p.rng.randint(-1, 3), t)))])

def e_part(p):
    k = p.pick("DynamicPartition", "DynamicStitch", "ParallelDynamicStitch", "InvertPermutation", "Unique", "UniqueWithCounts", "SparseToDense")
    if k == "DynamicPartition":
        x = any_(p, (1, 2, 3), (F32, I32, I64))
        if dynamic(p, x):
            raise Reject
        n = p.rng.randint(1, 4)
        lead = p.sh(x)[:p.rng.randint(1, min(2, p.rank(x)) + 1)] if p.ch(.3) else p.sh(x)[:1]
        p.op(k, [("data", x), ("partitions", p.param(p.rng.randint(0, n, size=lead).astype(I32)))], {"num_partitions": int(n)})
    elif "Stitch" in k:
        x = any_(p, (1, 2, 3), (F32, I32, I64))
        if dynamic(p, x):
            raise Reject
        n = p.sh(x)[0]
        q = p.rng.permutation(2 * n).astype(I32)
        y = C(p.data(p.sh(x), p.dt(x)))
        p.op(k, [("indices", [p.param(q[:n]), p.param(q[n:])]), ("data", [x, y])])
    elif k == "InvertPermutation":
        p.op(k, [("x", p.add_input([4], p.pick(I32, I64), fixed=p.rng.permutation(4)))])
    elif k.startswith("Unique"):
        x = any_(p, (1,), (F32, I32, I64))
        p.op(k, [("x", x)], {"out_idx": p.pick(I32, I64)})
    else:
        t = idt(p)
        s = [int(p.rng.randint(1, 5)) for _ in range(p.rng.randint(1, 3))]
        cells = int(np.prod(s))
        n = p.rng.randint(1, min(cells, 4) + 1)
        f = np.sort(p.rng.choice(cells, size=n, replace=False))
        ind = np.stack(np.unravel_index(f, s), -1).astype(t)
        if len(s) == 1 and p.ch(.5):
            ind = ind[:, 0]
        vals = p.add_input([int(n)], p.pick(F32, I32)) if p.ch(.8) else p.add_input([], F32)
        p.op(k, [("sparse_indices", p.param(ind)), ("output_shape", p.param(np.asarray(s, t))), ("sparse_values", vals), ("default_value", C(np.asarray(p.pick(0, -1), p.dt(vals))))], {"validate_indices": True})

def e_misc(p):
    x = any_(p)
    k = p.pick("Identity", "ZerosLike", "OnesLike", "AddV2", "Cast", "StopGradient", "SelectV2", "Mul")
    if k == "Cast":
        p.op(k, [("x", x)], {"DstT": p.pick(F32, I32, I64)})
    elif k in ("AddV2", "Mul"):
        x = any_(p, None, (F32, I32, I64))
        p.op(k, [("x", x), ("y", p.partner(x))])
    elif k == "SelectV2":
        c = p.ten(lambda v: v.dtype.type == BOOL)
        y = p.ten(lambda v: v.shape == p.vals[c].shape)
        p.op(k, [("condition", c), ("t", y), ("e", p.partner(y))])
    elif k in ("ZerosLike", "OnesLike"):
        p.op(k, [("x", x)])
    else:
        p.op(k, [("input", x)])

def e_chain(p):
    """reshape or broadcast to sizes computed from several tensors"""
    x = any_(p, (2, 3))
    t = I32
    s = p.sh(x)
    if len(s) == 2:
        y = p.op("Reshape", [("tensor", x), ("shape", vec(p, [dim(p, x, 1, t), dim(p, x, 0, t)], t))])[0]
    else:
        m = p.op("Mul", [("x", dim(p, x, 0, t)), ("y", dim(p, x, 1, t))])[0]
        p.params.add(m)
        y = p.op("Reshape", [("tensor", x), ("shape", vec(p, [m, dim(p, x, 2, t)], t))])[0]
    if p.ch(.5):
        p.op("Reshape", [("tensor", y), ("shape", shape_of(p, x, t))])

EMITS = [(e_reshape, 4), (e_transpose, 4), (e_expand, 2), (e_squeeze, 2), (e_slice, 3), (e_strided, 8), (e_gather, 4), (e_gathernd, 2), (e_scatternd, 2), (e_tscatter, 3), (e_concat, 3), (e_split, 3), (e_pack, 2),
         (e_unpack, 2), (e_pad, 4), (e_tile, 2), (e_broadcast, 2), (e_reverse, 3), (e_roll, 2), (e_onehot, 2), (e_range, 2), (e_fill, 2), (e_shape, 2), (e_where, 1), (e_matrix, 2), (e_part, 4), (e_misc, 3), (e_chain, 2)]

def probe_scatternd(p):
    p.opsets = [15]
    u = p.add_input([3], F32, fixed=np.array([1, 2, 4], F32))
    p.op("ScatterNd", [("indices", C(np.array([[1], [1], [0]], I32))), ("updates", u), ("shape", C(np.array([3], I32)))])

def probe_strided(p):
    p.opsets = [18]
    x = p.add_input([4], F32, fixed=np.array([1, 2, 3, 4], F32))
    v = [C(np.array([k], I32)) for k in (-5, 0, -1)]
    p.op("StridedSlice", [("input", x), ("begin", v[0]), ("end", v[1]), ("strides", v[2])], {"begin_mask": 0, "end_mask": 1, "ellipsis_mask": 0, "new_axis_mask": 0, "shrink_axis_mask": 0})

def probe_reshape(p):
    p.opsets = [18]
    x = p.add_input([0, 2], F32, fixed=np.zeros([0, 2], F32))
    s = p.add_input([2], I32, fixed=np.array([2, 0], I32))
    p.op("Reshape", [("tensor", x), ("shape", s)])

PROBES = [("reshape_computed_zero", probe_reshape), ("scatternd_duplicates", probe_scatternd), ("strided_slice_start_below", probe_strided)]

class Prog(TP):
    def skip(self, vals):
        if getattr(self, "probe", False):
            return False
        # a computed target shape with zeros: ONNX Reshape takes 0 as "keep this size" (probe reshape_computed_zero)
        for op, args, _, ids in self.steps:
            if op == "Reshape":
                a = dict(args)
                s = a["shape"].a if isinstance(a["shape"], C) else vals[a["shape"]]
                x = a["tensor"].a if isinstance(a["tensor"], C) else vals[a["tensor"]]
                if any(d == 0 and (k >= x.ndim or x.shape[k] != 0) for k, d in enumerate(np.ravel(s))):
                    return True
        return False

def gen(rng, i):
    p = Prog(rng)
    if i >= PROBE:
        p.probe = True
        PROBES[i - PROBE][1](p)
        return p
    for _ in range(p.pick(1, 2, 2, 3)):
        d = p.pick(F32, F32, F32, I32, I64, BOOL)
        p.add_input(None, d)
    w = np.array([x[1] for x in EMITS], float)
    if rng.rand() < .5:
        w = w * (rng.rand(len(w)) < .3) + .05
    w /= w.sum()
    n, tries, want = 0, 0, int(rng.randint(2, 8))
    while n < want and tries < 60:
        tries += 1
        try:
            EMITS[int(rng.choice(len(EMITS), p=w))][0](p)
            n += 1
        except Reject:
            pass
    if not p.steps:
        raise Reject
    return p

def main():
    n, budget = (int(os.environ.get("NN", 1200)), 150) if TIER == "quick" else (12000, 650)
    return run_profile("C02", gen, n, budget, probes=[x[0] for x in PROBES])
