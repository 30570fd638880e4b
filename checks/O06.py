"""O06: optimization respects nested bodies."""
META = ("TLA+ denotational spec (OnnxSem.tla) with Loop, Scan and If run as nested machines; TLC judges recorded before/after traces of the real optimizer", "translation_validation",
        "generated models with nested Loop/Scan/If bodies (captures over one or two levels, values passed through, per-iteration outputs, transposes in bodies, duplicates, run-time trip counts and conditions, zero trips, limits) are executed before and after and judged by TLC; integers; trusts TLC and onnxruntime")
from opt_check import *
import opt_check

STEP = {"unary": 5, "binary": 7, "transpose": 6, "concat": 2, "reshape": 2, "squeeze": 2, "unsqueeze": 2, "slice": 2, "identity": 4, "cast": 2, "reduce": 2,
        "where": 1, "compare": 1, "gather": 1, "shape_of": 1, "split": 1, "flatten": .5, "expand": .5, "tile": .5}

def back_to(g, o, shape):
    """brings a tensor to a wanted shape by the obvious operators"""
    v = g.v(o)
    if v.shape == tuple(shape):
        return o
    if sorted(v.shape) == sorted(shape) and v.ndim == len(shape):
        for _ in range(30):
            p = list(g.rng.permutation(v.ndim))
            if tuple(v.shape[a] for a in p) == tuple(shape):
                return g.emit("Transpose", [o], perm=[int(a) for a in p])
    raise Reject

def any_f(g, own=False):
    c = g.tensors(lambda w: w.dtype == np.float32 and w.size, own=own)
    if not c:
        raise Reject
    return c[g.rng.randint(len(c))]

def f_out(g, o):
    return o if g.v(o).dtype == np.float32 else g.emit("Cast", [o], to=1)

def tp(g, x):
    r = g.v(x).ndim
    if r < 2:
        raise Reject
    p = rnd_perm(g, r)
    t = g.emit("Transpose", [x], perm=p)
    k = g.rng.randint(4)
    if k == 0:
        return [t]
    if k == 1:
        return [g.emit("Identity", [t])]
    if k == 2:
        return [g.emit("Transpose", [flat(Emit.unary(g, t))[0]], perm=inv_perm(p))]
    return [g.emit("Transpose", [flat(Emit.binary(g, t))[0]], perm=inv_perm(p))]

def dup(g, x):
    """a node equal to one that exists already, here or outside"""
    h = g
    if h.parent is not None and g.chance(.6):
        h = h.parent
    ok = [n for n in h.nodes if len(n.output) == 1 and n.op_type not in ("If", "Loop", "Scan", "Constant")]
    if not ok:
        raise Reject
    n = ok[g.rng.randint(len(ok))]
    return [g.emit(n.op_type, list(n.input), **{a.name: helper.get_attribute_value(a) for a in n.attribute})]

def const_work(g, x):
    c = g.const(g.data([2, 3]))
    k = g.rng.randint(4)
    if k == 0:
        return [g.emit("Transpose", [c], perm=[1, 0])]
    if k == 1:
        return [g.emit("Reshape", [c, g.const(np.array([3, 2], np.int64))])]
    if k == 2:
        return [g.emit("Concat", [c, g.shared_const(g.v(c))], axis=0)]
    return [g.emit("Cast", [g.emit("Cast", [c], to=6)], to=1)]

def step(depth):
    def body_step(g, x, w):
        if depth > 0 and g.chance(.16):
            return nested(g, x, depth - 1)
        k = g.rng.randint(12)
        if k == 0:
            return dup(g, x)
        if k == 1:
            return const_work(g, x)
        if k <= 4 and g.v(x).ndim >= 2:
            return tp(g, x)
        if k == 5 and g.parent is not None:
            y = any_f(g.parent)
            return random_step(g, y, STEP)
        return random_step(g, x, STEP)
    return body_step

def nested(g, x, depth):
    if g.v(x).size == 0 or g.v(x).dtype != np.float32:
        raise Reject
    k = g.rng.randint(5)
    if k <= 1:
        return [o for o in emit_if(g, x, STEP, body_fn=step(depth))]
    if k == 2:
        return scan(g, x, depth)
    return loop(g, x, depth)

def loop(g, x, depth):
    rng = g.rng
    trip = int(rng.randint(0, 4))
    top = g.parent is None
    if top and rng.rand() < .5:
        g.root.dyn = True     # scan outputs have another size in every run
        mx = g.add_input([], np.int64, lo=0, hi=5)
        g.val[mx] = np.array(max(trip, 1), np.int64)
        g.order.remove(mx)
    else:
        mx = "" if rng.rand() < .15 else g.shared_const(np.array(max(1, trip) if not top else trip, np.int64))
    if top and rng.rand() < .3:
        g.root.dyn = True
        c0 = g.add_input([], np.bool_)
        g.val[c0] = np.array(True)
        g.order.remove(c0)
    else:
        c0 = g.shared_const(np.array(True)) if mx == "" or rng.rand() < .7 else ""
    sub = GB(rng, g.opset, parent=g, prefix=g.prefix + "b" + str(g.root.cnt) + "_")
    it = sub.add_input([], np.int64, name=sub.name("i"))
    sub.val[it] = np.array(0, np.int64)
    cd = sub.add_input([], np.bool_, name=sub.name("cnd"))
    sub.val[cd] = np.array(True)
    sub.order.remove(it)
    sub.order.remove(cd)
    ncar = int(rng.randint(0, 4))
    inits = [x][:ncar] + [any_f(g) if rng.rand() < .6 else g.const(g.data([2, 3])) for _ in range(ncar - 1)]
    carried = []
    for i in inits:
        w = g.v(i)
        n = sub.name("s")
        sub.inputs.append((n, w.dtype, list(w.shape) if rng.rand() < .5 and not g.root.dyn else [None] * w.ndim if rng.rand() < .5 else None, 0, 0))
        sub.val[n] = w
        sub.order.append(n)
        carried.append(n)
    cur = carried[0] if carried else x
    fn = step(depth)
    for _ in range(int(rng.randint(1, 6))):
        try:
            if rng.rand() < .3:
                cur = any_f(sub, own=rng.rand() < .6)
            r = fn(sub, cur, STEP)
            cur = f_out(sub, r[rng.randint(len(r))])
        except Reject:
            pass
    used = set()
    def own(o):
        if o in used or o not in sub.val:
            o = sub.emit("Identity", [o])
        used.add(o)
        return o
    k = rng.randint(4) if mx != "" else 0
    if k == 0:
        co = sub.emit("Less", [it, sub.const(np.array(rng.randint(0, 4), np.int64))])
    elif k == 1:
        co = cd
    elif k == 2:
        co = sub.emit("Identity", [cd])
    else:
        co = sub.emit("Cast", [sub.const(np.array(1, np.int64))], to=9)
    outs = [own(co)]
    for n in carried:
        w = sub.val[n]
        cand = [m for m in sub.order if sub.val[m].dtype == w.dtype and sorted(sub.val[m].shape) == sorted(w.shape) and sub.val[m].ndim == w.ndim and m not in used]
        o = cand[rng.randint(len(cand))] if cand and rng.rand() < .8 else n
        outs.append(own(back_to(sub, o, w.shape)))
    nscan = int(rng.randint(0 if ncar else 1, 4))
    for _ in range(nscan):
        cand = [m for m in sub.order if m not in used]
        tr = [m for m in cand if any(nd.op_type in ("Transpose", "Identity") and m in nd.output for nd in sub.nodes)]
        if tr and rng.rand() < .55:
            o = tr[rng.randint(len(tr))]
        elif cand and rng.rand() < .85:
            o = cand[rng.randint(len(cand))]
        else:
            o = any_f(g)         # captured, emitted unchanged
        outs.append(own(o) if rng.rand() < .95 else o if o in sub.val else own(o))
    if len(set(outs)) != len(outs):
        raise Reject
    r = flat(g.emit("Loop", [mx, c0] + inits, nout=len(inits) + nscan, body=sub.graph_proto("body", outs)))
    return r

def scan(g, x, depth):
    rng = g.rng
    if g.opset < 9:
        raise Reject
    w = g.v(x)
    if w.ndim == 0 or w.shape[0] == 0:
        raise Reject
    seqs = [x] + [t for t in g.tensors(lambda u: u.dtype == np.float32 and u.ndim >= 1 and u.shape[0] == w.shape[0]) if rng.rand() < .3][:1]
    ns = int(rng.randint(0, 3))
    inits = [any_f(g) if rng.rand() < .5 else g.const(g.data([2, 2])) for _ in range(ns)]
    sub = GB(rng, g.opset, parent=g, prefix=g.prefix + "n" + str(g.root.cnt) + "_")
    st = []
    for i in inits:
        u = g.v(i)
        n = sub.name("s")
        sub.inputs.append((n, u.dtype, None if g.root.dyn else list(u.shape), 0, 0))
        sub.val[n] = u
        sub.order.append(n)
        st.append(n)
    els = []
    for i in seqs:
        u = g.v(i)
        n = sub.name("e")
        sub.inputs.append((n, u.dtype, None if g.root.dyn else list(u.shape[1:]), 0, 0))
        sub.val[n] = u[0]
        sub.order.append(n)
        els.append(n)
    cur = els[0]
    fn = step(depth)
    for _ in range(int(rng.randint(1, 4))):
        try:
            r = fn(sub, cur, STEP)
            cur = f_out(sub, r[rng.randint(len(r))])
        except Reject:
            pass
    used, outs = set(), []
    def own(o):
        if o in used or o not in sub.val or o in st or o in els:   # the runtime shares buffers when a body of Scan hands through its inputs
            o = sub.emit("Identity", [o])
        used.add(o)
        return o
    for n in st:
        u = sub.val[n]
        cand = [m for m in sub.order if sub.val[m].dtype == u.dtype and sub.val[m].shape == u.shape and m not in used]
        outs.append(own(cand[rng.randint(len(cand))] if cand and rng.rand() < .8 else n))
    k = int(rng.randint(0 if ns else 1, 3))
    for _ in range(k):
        cand = [m for m in sub.order if m not in used] or [els[0]]
        outs.append(own(cand[rng.randint(len(cand))]))
    if len(set(outs)) != len(outs):
        raise Reject
    return flat(g.emit("Scan", inits + seqs, nout=ns + k, body=sub.graph_proto("body", outs), num_scan_inputs=len(seqs)))

def gen(rng, i):
    opset = int(rng.choice([8, 9, 10, 11, 12, 13, 13, 15, 17, 18]))
    g = GB(rng, opset)
    g.maxsize = 150
    g.dyn = False
    r = int(rng.choice([1, 2, 2, 3, 3, 4]))
    shape = rng.randint(1, 4, size=r).tolist()
    syms = [k for k in range(r) if rng.rand() < .5] if opset >= 11 and rng.rand() < .3 else []
    g.dyn = bool(syms)
    cur = g.add_input(shape, np.float32, syms, lo=-3, hi=4)
    if rng.rand() < .4:
        g.add_input(shape, np.float32, syms, lo=-3, hi=4)
    fn = step(2)
    made = 0
    for _ in range(int(rng.randint(2, 6))):
        try:
            if made == 0 and rng.rand() < .5 or rng.rand() < .3:
                o = nested(g, cur, int(rng.randint(0, 3)))
                made += 1
            else:
                o = fn(g, cur, STEP)
            cur = f_out(g, o[rng.randint(len(o))]) if rng.rand() < .8 else any_f(g)
        except Reject:
            pass
    if not made:
        nested(g, cur, 1)
    ins = {a[0] for a in g.inputs}
    used = {a for nd in g.nodes for a in g.free_names(nd)}
    leaves = [t for t in g.order if t not in used and t not in ins]
    outs = leaves + [t for t in g.order if t not in leaves and t not in ins and rng.rand() < .1]
    if not outs:
        raise Reject
    m = g.model(outs[-6:])
    kinds = set()
    def walk(ns):
        for n in ns:
            for a in n.attribute:
                if a.type == 5:
                    kinds.add(n.op_type)
                    walk(a.g.node)
    walk(m.graph.node)
    feeds = [g.feeds()] + [g.feeds_variant(k, rng) for k in range(3)]
    return m, feeds, "+".join(sorted(kinds))

def variants(rng):
    v = [opt_variant("all"), opt_variant("loop", "loop_optimizer")]
    k = rng.randint(5)
    v.append([opt_variant("transpose+loop", "optimize_transpose", "loop_optimizer"), opt_variant("identity", "remove_identity"),
              opt_variant("merge", "merge_duplication"), opt_variant("fold", "fold_constants"), opt_variant("fold2", "fold_constants", "remove_identity")][k])
    return v

def main():
    opt_check.NOEMPTY = True
    n, budget = (1200, 60) if TIER == "quick" else (14000, 650)
    chk, st = run_profile("O06", gen, n, variants, budget)
    return finish(chk, st, {"kinds": st["whats"]})
