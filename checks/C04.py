"""C04: converted loops and conditionals run exactly as in TensorFlow."""
META = ("TLA+ semantics of TensorFlow's structured control flow over operator semantics (TFControl.tla, TFSem.tla, TFTrace.tla); TLC runs every program's loops and branches and judges the converted models' answers", "translation_validation",
        "random structured TensorFlow programs (while loops with state variables, captured values, tensor arrays read and written, iteration limits, conditionals, case, map, scan, fold, functions called several times, nested) are executed by TensorFlow, converted, and run by ONNX Runtime on several input vectors each, which change trip counts and branches; the specification decides every result")
from tf_check import *
from gen_tf import *
from gen_cf import CP, Sub

NUM = (I32, I32, I64, F32, F32)

def scal(p, a, t=I32):
    return C(np.asarray(a, t))

def visible(p, pred):
    return [x for x, v in p.vals.items() if x not in p.params and pred(v)]

def choose(p, c):
    if not c:
        raise Reject("none")
    return c[p.rng.randint(len(c))]

def attempt(p, f, tries=8):
    for _ in range(tries):
        k, vals = len(p.steps), dict(p.vals)
        try:
            return f()
        except Reject:
            del p.steps[k:]
            p.vals = vals
    raise Reject("attempt")

# ---- straight-line pieces
def mod(p, x, m=23):
    return p.op("FloorMod", [("x", x), ("y", C(np.asarray(m, p.dt(x))))])[0]

def tweak(p, x):
    """an operation that keeps dtype and shape"""
    v = p.vals[x]
    num = v.dtype.kind in "if"
    r = p.rng.randint(0, 10)
    if not num:
        y = p.partner(x)
        o = p.op(p.pick("LogicalAnd", "LogicalOr"), [("x", x), ("y", y)]) if r < 6 else p.op("LogicalNot", [("x", x)])
    elif r < 4:
        a, b = x, p.partner(x)
        if p.ch(.3):
            a, b = b, a
        o = p.op(p.pick("AddV2", "AddV2", "Sub", "Maximum", "Minimum"), [("x", a), ("y", b)])
    elif r == 4:
        o = [mod(p, p.op("Mul", [("x", x), ("y", p.partner(x))])[0])]
    elif r == 5:
        y = p.partner(x)
        c = p.op(p.pick("Less", "GreaterEqual", "NotEqual"), [("x", x), ("y", y)])[0]
        z = p.partner(x, same=True)
        o = p.op("SelectV2", [("condition", c), ("t", x), ("e", z)])
    elif r == 6 and v.ndim:
        o = p.op("ReverseV2", [("tensor", x), ("axis", C(np.array([p.rng.randint(v.ndim)], I32)))])
    elif r == 7 and v.ndim:
        o = p.op("Roll", [("input", x), ("shift", scal(p, p.rng.randint(-2, 3))), ("axis", scal(p, p.rng.randint(v.ndim)))]) if p.static(x) else p.op("Neg", [("x", x)])
    elif r == 8 and v.ndim:
        s = p.op(p.pick("Sum", "Max", "Min"), [("input", x), ("axis", C(np.arange(v.ndim).astype(I32)))], {"keep_dims": False})[0]
        o = [mod(p, p.op("AddV2", [("x", x), ("y", s)])[0])]
    else:
        o = p.op(p.pick("Neg", "Abs", "Square"), [("x", x)])
        if p.ch(.6):
            o = [mod(p, o[0], 31)]
    if p.vals[o[0]].shape != v.shape or p.vals[o[0]].dtype != v.dtype:
        raise Reject("shape")
    return o[0]

def scalar_of(p, t=None):
    """a numeric scalar computed from something visible"""
    x = p.num(NUM)
    if p.rank(x):
        x = p.op(p.pick("Sum", "Max", "Min"), [("input", x), ("axis", C(np.arange(p.rank(x)).astype(I32)))], {"keep_dims": False})[0]
    if t is not None and p.dt(x) != t:
        x = p.op("Cast", [("x", x)], {"DstT": t})[0]
    return x

def predicate(p):
    b = visible(p, lambda v: v.dtype == BOOL and v.ndim == 0)
    if b and p.ch(.4):
        return b[p.rng.randint(len(b))]
    if p.ch(.12):
        return p.add_input([], BOOL)
    x = attempt(p, lambda: scalar_of(p))
    c = p.op(p.pick("Less", "LessEqual", "Greater", "GreaterEqual", "Equal", "NotEqual"), [("x", x), ("y", C(np.asarray(p.rng.randint(-3, 6), p.dt(x))))])[0]
    if p.ch(.2):
        c = p.op("LogicalNot", [("x", c)])[0]
    return c

def grow(p, x):
    """some steps from x, with control flow now and then"""
    for _ in range(p.pick(0, 1, 1, 1, 2, 2)):
        if p.depth < 3 and p.ch(.16):
            y = attempt(p, lambda: control(p, x), 2)
            if y is not None:
                x = y
                continue
        x = attempt(p, lambda: tweak(p, x))
    return x

def control(p, like):
    """nested control flow with a result like the given tensor"""
    f = p.pick(e_cond, e_cond, e_while, e_while, e_fold, e_call)
    v = p.vals[like]
    outs = f(p, like=like)
    for o in outs:
        w = p.vals[o]
        if w.shape == v.shape and w.dtype == v.dtype:
            return o
    for o in outs:
        w = p.vals[o]
        if w.ndim == 0 and w.dtype == v.dtype and w.dtype.kind in "if":
            return mod(p, p.op("AddV2", [("x", like), ("y", o)])[0])
    return None

# ---- conditionals
def branch(p, wants, kinds):
    """a sub-program without formals whose results have the wanted types"""
    s = p.scope([], [])
    try:
        outs = []
        for (t, shape), k in zip(wants, kinds):
            def one():
                fits = (lambda v: True) if shape is None else (lambda v: v.ndim == shape) if isinstance(shape, int) else (lambda v: list(v.shape) == list(shape))
                c = visible(p, lambda v: v.dtype.type == t and fits(v))
                if p.ch(.08) and isinstance(shape, list) and p.static(None):
                    return C(p.data(shape, t))
                x = choose(p, c)
                if p.ch(.15):
                    return x
                return grow(p, x)
            outs.append(attempt(p, one))
    finally:
        steps, _ = p.leave(s)
    return Sub([], steps, outs)

def e_cond(p, like=None):
    pred = predicate(p)
    wants = []
    for k in range(p.pick(1, 1, 2, 2, 3)):
        x = like if like is not None and k == 0 else p.num(NUM + (BOOL,))
        shape = list(p.sh(x))
        if (like is None or k) and p.ch(.25):
            shape = p.rank(x)
            if p.ch(.5):        # before opset 11 the branches of If must agree on the rank
                shape = None
                p.opsets = [o for o in OPSETS if o >= 11]
        wants.append((p.dt(x), shape))
    kinds = [0] * len(wants)
    a, b = branch(p, wants, kinds), branch(p, wants, kinds)
    if p.ch(.15) and like is None:
        n = p.pick(1, 2, 3)
        subs = [a, b] + [branch(p, wants, kinds) for _ in range(n - 1)]
        idx = attempt(p, lambda: scalar_of(p, I32)) if p.ch(.5) else p.add_input([], I32, lo=-1, hi=n + 2)
        at = {"b%d" % j: s for j, s in enumerate(subs)}
        at["n"] = ["b%d" % j for j in range(len(subs))]
        return p.op("Switch", [("index", idx), ("caps", p.free_args(subs))], at)
    return p.op("Cond", [("pred", pred), ("caps", p.free_args([a, b]))], {"then": a, "else": b})

# ---- loops
def limit(p, t=I32, hi=5):
    r = p.rng.randint(0, 6)
    if r < 3:
        x = p.add_input([], t, lo=0, hi=hi)
        p.params.add(x)
        return x
    return C(np.asarray(p.rng.randint(0, hi), t))

def length(p, x, t=I32):
    """leading size of a tensor"""
    if p.static(x) and p.ch(.6):
        return C(np.asarray(p.sh(x)[0], t))
    s = p.op("Shape", [("input", x)], {"out_type": t})[0]
    d = p.op("StridedSlice", [("input", s), ("begin", C(np.array([0], I32))), ("end", C(np.array([1], I32))), ("strides", C(np.array([1], I32)))],
             {"begin_mask": 0, "end_mask": 0, "ellipsis_mask": 0, "new_axis_mask": 0, "shrink_axis_mask": 1})[0]
    p.params |= {s, d}
    return d

def val(p, q):
    return q.a if isinstance(q, C) else p.vals[q]

def e_while(p, like=None):
    t = p.pick(I32, I32, I32, I64, F32)
    style = p.pick("up", "up", "up", "up", "down", "step", "data", "limit", "both")
    arrays = style in ("up",) and t != F32 and p.ch(.6)
    reads, writes = [], 0
    if arrays:
        t = I32
        if p.ch(.65):
            reads.append(choose(p, visible(p, lambda v: v.ndim >= 1 and v.shape[0] >= 1 and v.size and v.dtype != BOOL)))
        if p.ch(.3) and reads:
            n0 = p.sh(reads[0])[0]
            c = visible(p, lambda v: v.ndim >= 1 and v.shape[0] == n0 and v.dtype != BOOL)
            if c:
                reads.append(choose(p, c))
        writes = p.pick(0, 1, 1, 2) if reads else p.pick(1, 1, 2)
    # inits
    vs, start = [], 0
    if reads:
        n = length(p, reads[0])
    else:
        n = limit(p, t)
    if style == "down":
        vs.append(n)
    elif style == "step":
        start = int(p.rng.randint(-1, 3))
        vs.append(C(np.asarray(start, t)))
    elif style in ("up", "both"):
        vs.append(C(np.asarray(0, t)))
    nctr = len(vs)
    if like is not None:
        vs.append(like)
    for _ in range(p.pick(0, 1, 1, 2) if vs else 1 + p.pick(0, 1)):
        vs.append(p.num(NUM + (BOOL,)) if p.ch(.75) else C(p.data(p.pick([], [], [2], [2, 3]), p.pick(*NUM))))
    if style == "data" and p.vals.get(vs[-1] if not isinstance(vs[-1], C) else None, np.zeros((), BOOL)).dtype == BOOL and not isinstance(vs[-1], C):
        vs[-1] = C(np.asarray(p.rng.randint(-4, 2), p.pick(I32, F32)))
    if not vs:
        raise Reject("no state")
    mx = []
    if style in ("limit", "data") or p.ch(.2) and not writes:       # (arrays not written entirely: a recorded finding)
        mx = [limit(p, I32)]
    fv = [val(p, q) for q in vs]
    # condition
    cf = [p.new() for _ in vs]
    s = p.scope(cf, fv)
    try:
        i = cf[0]
        if style in ("up", "both"):
            c = p.op(*([p.pick("Less"), [("x", i), ("y", n)]] if p.ch(.75) else ["Greater", [("x", n), ("y", i)]]))[0]
        elif style == "step":
            c = p.op("LessEqual", [("x", i), ("y", n)])[0]
        elif style == "down":
            c = p.op("Greater", [("x", i), ("y", C(np.asarray(0, t)))])[0]
        elif style == "limit":
            c = C(np.asarray(True))
        if style in ("data", "both"):
            x = cf[-1]
            if p.vals[x].dtype == BOOL:
                raise Reject("bool")
            y = p.op("Sum", [("input", x), ("axis", C(np.arange(p.rank(x)).astype(I32)))], {"keep_dims": False})[0] if p.rank(x) else x
            d = p.op(p.pick("Less", "Less", "NotEqual"), [("x", y), ("y", C(np.asarray(p.rng.randint(-2, 15), p.dt(y))))])[0]
            c = d if style == "data" else p.op("LogicalAnd", [("x", c), ("y", d)] if p.ch(.5) else [("x", d), ("y", c)])[0]
    finally:
        steps, _ = p.leave(s)
    cond = Sub(cf, steps, [c])
    # body
    bf = [p.new() for _ in vs]
    rf = [p.new() for _ in reads]
    wf = [p.new() for _ in range(writes)]
    s = p.scope(bf, fv)
    elems = []
    try:
        for f, x in zip(rf, reads):
            p.vals[f] = p.vals[x]
            p.params.add(f)
        i = bf[0]
        if rf:
            for f in rf:
                k = i
                if p.ch(.25):       # another row
                    k = p.op("Sub", [("x", p.op("Sub", [("x", n), ("y", C(np.asarray(1, t)))])[0]), ("y", i)])[0] if f == rf[0] else i
                p.op("TARead", [("ta", f), ("i", k)])
        order = list(range(nctr, len(vs)))
        # a variable may take the place of another one of its kind
        if p.ch(.2) and len(order) > 1:
            a, b = order[-1], order[-2]
            if fv[a].shape == fv[b].shape and fv[a].dtype == fv[b].dtype:
                order[-1], order[-2] = b, a
        outs = []
        if nctr:
            st = {"up": 1, "both": 1, "down": -1, "step": p.pick(1, 2, 2)}[style]
            if st < 0 and p.ch(.5):
                outs.append(p.op("Sub", [("x", i), ("y", C(np.asarray(-st, t)))])[0])
            else:
                outs.append(p.op("AddV2", [("x", i), ("y", C(np.asarray(st, t)))] if p.ch(.7) else [("x", C(np.asarray(st, t))), ("y", i)])[0])
        for k in order:
            x = bf[k]
            r = p.rng.rand()
            if style in ("data",) and k == order[-1]:
                o = p.op("AddV2", [("x", x), ("y", C(np.asarray(p.rng.randint(1, 4), p.dt(x))))])[0]
            elif r < .12:
                o = x
            elif r < .2:
                c = visible(p, lambda v: v.shape == p.vals[x].shape and v.dtype == p.vals[x].dtype)
                o = choose(p, c)
            elif r < .24 and p.static(x):
                o = C(p.data(p.sh(x), p.dt(x)))
            else:
                o = grow(p, x)
                if p.vals[o].dtype.kind in "if" and p.ch(.5):
                    o = mod(p, o, 47)
            outs.append(o)
        for f in wf:
            c = visible(p, lambda v: v.dtype != BOOL and v.size > 0 and (v.ndim == 0 or (p.static(None) and v.ndim <= 2)))
            x = choose(p, c)
            if p.ch(.5):
                x = grow(p, x)
            elems.append((p.dt(x), tuple(p.sh(x))))
            p.vals[f] = np.zeros((max(int(val(p, n)), 1),) + tuple(p.sh(x)), p.dt(x))
            p.params.add(f)
            o = p.op("TAWrite", [("ta", f), ("i", i), ("v", x)])[0]
            p.params.add(o)
            outs.append(o)
    finally:
        steps, _ = p.leave(s)
    body = Sub(bf + rf + wf, steps, outs)
    return p.op("While", [("vars", vs), ("reads", reads), ("sizes", [n] * writes), ("max", mx), ("caps", p.free_args([cond, body]))],
                {"cond": cond, "body": body, "elems": elems, "eshape": p.ch(.6), "carry": p.ch(.4)})

# ---- map, scan, fold
def rows(p):
    x = choose(p, visible(p, lambda v: v.ndim >= 1 and v.shape[0] >= 1 and v.size))
    xs = [x]
    if p.ch(.35):
        c = visible(p, lambda v: v.ndim >= 1 and v.shape[0] == p.vals[x].shape[0] and v.size)
        xs.append(choose(p, c))
    return xs

def e_map(p, like=None):
    xs = rows(p)
    ff = [p.new() for _ in xs]
    s = p.scope(ff, [p.vals[x][0] for x in xs])
    try:
        outs = []
        for _ in range(p.pick(1, 1, 2)):
            x = p.pick(*ff)
            o = attempt(p, lambda: grow(p, x))
            outs.append(o)
        elems = [(p.dt(o), tuple(p.sh(o))) for o in outs]
    finally:
        steps, _ = p.leave(s)
    body = Sub(ff, steps, outs)
    return p.op("MapFn", [("xs", xs), ("caps", p.free_args([body]))], {"body": body, "elems": elems, "dynsig": 0 if p.static(None) else 1})

def e_fold(p, like=None, op="Foldl"):
    xs = rows(p)
    init = [like if like is not None and k == 0 else p.num(NUM) for k in range(p.pick(1, 1, 2))]
    ff = [p.new() for _ in init + xs]
    fv = [p.vals[x] for x in init] + [p.vals[x][0] for x in xs]
    s = p.scope(ff, fv)
    try:
        outs = []
        for k in range(len(init)):
            def one():
                a = ff[k]
                e = visible(p, lambda v: v.dtype == fv[k].dtype and v.ndim == 0 and v.dtype.kind in "if")
                if e and p.ch(.7):
                    a = p.op(p.pick("AddV2", "Maximum", "Sub"), [("x", a), ("y", choose(p, e))])[0]
                return grow(p, a)
            outs.append(attempt(p, one))
    finally:
        steps, _ = p.leave(s)
    body = Sub(ff, steps, outs)
    return p.op(op, [("xs", xs), ("init", init), ("caps", p.free_args([body]))], {"body": body, "reverse": int(p.ch(.3) and op == "Foldl")})    # (scanning backwards: a recorded finding)

def e_scan(p, like=None):
    return e_fold(p, like, "ScanFn")

# ---- functions used more than once
def e_call(p, like=None):
    xs = [like if like is not None else p.num(NUM)]
    if p.ch(.5):
        xs.append(p.num(NUM))
    ff = [p.new() for _ in xs]
    s = p.scope(ff, [p.vals[x] for x in xs], isolate=True)
    n0 = len(p.inputs)
    try:
        x = ff[0]
        r = p.rng.rand()
        if r < .4:
            outs = attempt(p, lambda: e_while(p, like=x), 4)
        elif r < .7:
            outs = attempt(p, lambda: e_cond(p, like=x), 4)
        else:
            outs = [grow(p, x)]
        if len(p.inputs) > n0:
            del p.inputs[n0:]
            raise Reject("input inside a function")
        keep = [o for o in outs if p.vals[o].shape == p.vals[x].shape and p.vals[o].dtype == p.vals[x].dtype][:1] or outs[:1]
    finally:
        steps, _ = p.leave(s)
    body = Sub(ff, steps, keep)
    k = p.new()
    res = []
    x = xs[0]
    for _ in range(p.pick(1, 2, 2, 3)):
        o = p.op("Call", [("xs", [x] + xs[1:])], {"body": body, "fn": k})
        res += o
        if p.vals[o[0]].shape == p.vals[x].shape and p.vals[o[0]].dtype == p.vals[x].dtype and p.ch(.5):
            x = o[0]
        else:
            c = visible(p, lambda v: v.shape == p.vals[x].shape and v.dtype == p.vals[x].dtype)
            x = choose(p, c)
    return res

EMITS = [(e_while, 5), (e_cond, 4), (e_map, 1.5), (e_fold, 1), (e_scan, 1.5), (e_call, 1.5)]

# ---- programs of the recorded findings
def pr_scan_reverse(p):
    x = p.add_input([3], F32)
    a, e = p.new(), p.new()
    s = p.scope([a, e], [np.float32(0), np.float32(0)])
    o = p.op("AddV2", [("x", a), ("y", e)])
    steps, _ = p.leave(s)
    p.op("ScanFn", [("xs", [x]), ("init", [C(np.float32(0))]), ("caps", [])], {"body": Sub([a, e], steps, o), "reverse": 1})

def ta_loop(p, start, step, bound, size):
    x = p.add_input([], F32)
    ci, bi, w = p.new(), p.new(), p.new()
    s = p.scope([ci], [np.int32(start)])
    c = p.op("Less", [("x", ci), ("y", C(np.int32(bound)))])
    cs, _ = p.leave(s)
    s = p.scope([bi, w], [np.int32(start), np.zeros(size, np.float32)])
    p.params.add(w)
    o = p.op("AddV2", [("x", bi), ("y", C(np.int32(step)))])
    f = p.op("AddV2", [("x", p.op("Cast", [("x", bi)], {"DstT": F32})[0]), ("y", x)])
    t = p.op("TAWrite", [("ta", w), ("i", bi), ("v", f[0])])
    bs, _ = p.leave(s)
    p.op("While", [("vars", [C(np.int32(start))]), ("reads", []), ("sizes", [C(np.int32(size))]), ("max", []), ("caps", [x])],
         {"cond": Sub([ci], cs, c), "body": Sub([bi, w], bs, o + t), "elems": [(F32, ())], "eshape": True, "carry": False})

PROBES = [("scan-reverse", pr_scan_reverse), ("array-every-other", lambda p: ta_loop(p, 0, 2, 6, 6)), ("array-from-1", lambda p: ta_loop(p, 1, 1, 4, 4)),
          ("array-part", lambda p: ta_loop(p, 0, 1, 3, 5))]


LOOPS = ("While", "MapFn", "ScanFn", "Foldl")

def nested(steps, inside=False):
    """whether loops are nested (TensorFlow 1 loops are only converted one level deep)"""
    for op, args, attrs, ids in steps:
        if op in LOOPS and inside:
            return True
        for v in attrs.values():
            if isinstance(v, Sub) and nested(v.steps, inside or op in LOOPS):
                return True
    return False

V1 = {"0": False, "1": True}.get(os.environ.get("V1"))

def gen(rng, i):
    p = CP(rng)
    if i >= PROBE:
        PROBES[i - PROBE][1](p)
        return p
    for _ in range(p.pick(1, 2, 2, 3)):
        d = p.pick(*NUM)
        p.add_input([p.pick("A", "B", "C") for _ in range(p.pick(0, 1, 1, 2, 2))], d)
    w = np.array([x[1] for x in EMITS], float)
    w /= w.sum()
    n, want, tries = 0, int(rng.randint(1, 4)), 0
    while n < want and tries < 25:
        tries += 1
        k, vals, inp = len(p.steps), dict(p.vals), len(p.inputs)
        try:
            EMITS[int(rng.choice(len(EMITS), p=w))][0](p)
            n += 1
        except Reject:
            del p.steps[k:]
            del p.inputs[inp:]
            p.vals = vals
        if p.ch(.4):
            try:
                tweak(p, p.num(NUM))
            except Reject:
                pass
    if not n:
        raise Reject
    p.inputs = [q for q in p.inputs if q[0] in p.vals]
    v1 = p.ch(.5)
    p.v1 = (v1 if V1 is None else V1) and not nested(p.steps)
    return p

def main():
    n, budget = (int(os.environ.get("NN", 400)), 150) if TIER == "quick" else (6000, 650)
    return run_profile("C04", gen, n, budget, probes=[x[0] for x in PROBES], accept=lambda *a: True)
