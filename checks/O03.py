"""O03: simplifying computed reshape targets keeps the result shape for every run-time size."""
META = ("TLA+ denotational spec (OnnxSem.tla), TLC judges recorded before/after traces of the real optimizer", "translation_validation",
        "as O01 for Reshape targets computed from Shape, with several run-time sizes per graph; tensors without empty dimensions")
from opt_check import *

def gen(rng, i):
    opset = int(rng.choice([7, 8, 9, 10, 11, 12, 13, 13, 14, 15, 17, 18, 18]))
    g = GB(rng, opset)
    r = int(rng.randint(1, 6))
    shape = rng.randint(1, 5, size=r).tolist()
    while np.prod(shape) > 120:
        shape[rng.randint(r)] = 1
    syms = [k for k in range(r) if rng.rand() < .6]
    x = g.add_input(shape, np.float32, syms)
    y = None
    if rng.rand() < .3:
        y = g.add_input(shape[:rng.randint(1, r + 1)], np.float32, [])
    cur = x
    if rng.rand() < .3:
        cur = flat(random_step(g, x, {"unary": 3, "transpose": 3, "concat": 1, "slice": 1, "unsqueeze": 1, "identity": 1}))[0]
    base = cur
    what = []
    for _ in range(rng.randint(1, 3)):
        cur, w = computed_reshape(g, base if rng.rand() < .5 else cur, y)
        what.append(w)
        if rng.rand() < .3:
            cur = flat(random_step(g, cur, {"unary": 3, "transpose": 2, "reshape": 2, "squeeze": 1}))[0]
    used = {a for n in g.nodes for a in n.input}
    outs = [n for n in g.order if n not in used and n not in (x, y)]
    outs += [n for n in g.order if n not in outs and n not in (x, y) and rng.rand() < .15]
    m = g.model(outs[-4:])
    feeds = [g.feeds()] + [g.feeds_variant(k, rng) for k in range(3)]
    return m, feeds, "+".join(what)

def computed_reshape(g, x, y=None):
    """Reshape(x, f(Shape(x))): the target keeps the number of elements for every size of the dimensions"""
    rng = g.rng
    v = g.v(x)
    r = v.ndim
    if r == 0:
        raise Reject
    i64 = np.int64
    shp = g.emit("Shape", [x])
    if g.opset >= 15 and rng.rand() < .12:
        st = int(rng.randint(0, r))
        shp = ("sub", st, g.emit("Shape", [x], start=st))
    off = 0
    if isinstance(shp, tuple):
        off, shp = shp[1], shp[2]
    if rng.rand() < .15:
        shp = g.emit("Cast", [shp], to=6)
        i64 = np.int32
        if rng.rand() < .6:
            shp = g.emit("Cast", [shp], to=7)
            i64 = np.int64
    def unsq(t):
        if g.opset < 13:
            return g.emit("Unsqueeze", [t], axes=[0])
        return g.emit("Unsqueeze", [t, g.shared_const(np.array([0], np.int64))])
    def squ(t):
        neg = rng.rand() < .3 and g.opset >= 11
        if g.opset < 13:
            return g.emit("Squeeze", [t], axes=[-1 if neg else 0])
        return g.emit("Squeeze", [t, g.shared_const(np.array([-1 if neg else 0], np.int64))])
    def slc(t, a, b, step=1):
        n = g.v(t).shape[0]
        aa = a - n if rng.rand() < .3 and g.opset >= 10 else a
        bb = b if rng.rand() < .6 or b < n else 2 ** 31 - 1
        if g.opset < 10:
            return g.emit("Slice", [t], starts=[a], ends=[int(bb)], axes=[0] if rng.rand() < .6 else None)
        ins = [t, g.shared_const(np.array([aa], np.int64)), g.shared_const(np.array([bb], np.int64))]
        if rng.rand() < .6 or step != 1:
            ins.append(g.shared_const(np.array([0], np.int64)))
            if rng.rand() < .5 or step != 1:
                ins.append(g.shared_const(np.array([step], np.int64)))
        return g.emit("Slice", ins)
    def dim(k):
        """a 1-element tensor holding dimension k"""
        k -= off
        c = rng.randint(4)
        if c == 0:
            return unsq(g.emit("Gather", [shp, g.shared_const(np.array(k - (r - off) if rng.rand() < .3 and g.opset >= 11 else k, np.int64))], axis=0 if rng.rand() < .5 else None))
        if c == 1:
            return g.emit("Gather", [shp, g.shared_const(np.array([k], np.int64))])
        return slc(shp, k, k + 1)
    def prod(ks):
        """product of consecutive or arbitrary dims as 1-element tensor"""
        c = rng.randint(3)
        if c == 0 and ks == list(range(ks[0], ks[-1] + 1)):
            s = slc(shp, ks[0] - off, ks[-1] + 1 - off)
            kd = int(rng.randint(2))
            if g.opset < 18:
                p = g.emit("ReduceProd", [s], axes=[0], keepdims=kd)
            else:
                p = g.emit("ReduceProd", [s, g.shared_const(np.array([0], np.int64))], keepdims=kd)
            return p if kd else unsq(p)
        p = dim(ks[0])
        for k in ks[1:]:
            p = g.emit("Mul", [p, dim(k)] if rng.rand() < .5 else [dim(k), p])
        return p
    # a plan: list of groups; each group is a list of source dims, ("c", const) inserted ones, "-1"
    dims = list(range(r))
    if off:
        parts = [("k", d) for d in range(off)]
        rest = list(range(off, r))
    else:
        parts, rest = [], dims
    plan = []
    order = rest[:] if rng.rand() < .75 else [int(k) for k in rng.permutation(rest)]
    k = 0
    while k < len(order):
        n = 1 if rng.rand() < .6 else min(len(order) - k, int(rng.randint(2, 4)))
        plan.append(order[k:k + n])
        k += n
    plan = [[("k", d)] for d in range(off)] + plan
    items = []
    usedm1 = False
    for gr in plan:
        kk = [a[1] if isinstance(a, tuple) else a for a in gr]
        if isinstance(gr[0], tuple):
            static = True
            items.append(g.shared_const(np.array([v.shape[kk[0]]], i64)) if not any_sym(g, x) else None)
            if items[-1] is None:
                if usedm1:
                    raise Reject
                usedm1 = True
                items[-1] = g.shared_const(np.array([-1], i64))
            continue
        c = rng.randint(10)
        if c == 0 and not usedm1:
            usedm1 = True
            items.append(g.shared_const(np.array([-1], i64)))
        elif c == 1 and not any_sym(g, x):
            items.append(g.shared_const(np.array([int(np.prod([v.shape[a] for a in kk]))], i64)))
        elif c == 2 and len(kk) == 1 and kk[0] == len(items):
            items.append(g.shared_const(np.array([0], i64)))
        else:
            items.append(prod(kk))
        if rng.rand() < .25:
            items.append(g.shared_const(np.array([1], i64)))
    if rng.rand() < .2:
        items.insert(rng.randint(len(items) + 1), g.shared_const(np.array([1], i64)))
    if i64 == np.int32:
        items = [t if g.v(t).dtype == np.int32 else g.emit("Cast", [t], to=6) for t in items]
    items = [t for t in items]
    t = g.emit("Concat", items, axis=0) if len(items) > 1 or rng.rand() < .6 else items[0]
    if i64 == np.int32:
        t = g.emit("Cast", [t], to=7)
    if g.is_const(t):
        raise Reject
    c = rng.rand()
    if c < .05 and y is not None:
        raise Reject
    az = {"allowzero": 1} if g.opset >= 14 and rng.rand() < .07 and 0 not in g.v(t) else {}
    out = g.emit("Reshape", [x, t], **az)
    return out, "R%d" % len(items)

def any_sym(g, x):
    return any(isinstance(d, str) for i in g.root.inputs for d in i[2])

def variants(rng):
    return [opt_variant("all"), opt_variant("reshape", "reshape_optimizer")]

def main():
    import opt_check
    opt_check.NOEMPTY = True
    n, budget = (1300, 150) if TIER == "quick" else (12000, 700)
    chk, st = run_profile("O03", gen, n, variants, budget)
    return finish(chk, st)
