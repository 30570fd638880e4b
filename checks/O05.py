"""O05: optimizing quantize/dequantize pairs never changes what a model computes."""
META = ("TLA+ denotational spec (OnnxSem.tla); TLC judges recorded before/after traces of the real optimizer", "translation_validation",
        "generated graphs with quantize/dequantize operators (per tensor and per axis, signed/unsigned/int32, with and without zero points, shared parameters, fan-out, graph outputs, nested bodies) around shape and selection operators are executed before and after and judged by TLC; integer scales; trusts TLC and onnxruntime")
from opt_check import *
import opt_check
from onnx import helper

def params(g, x, per, qt):
    v = g.v(x)
    ax = None
    if per and v.ndim:
        ax = int(g.rng.randint(v.ndim))
        n = v.shape[ax]
        sc = g.rng.choice([1, 2, 4], size=n).astype(np.float32)
        zp = np.asarray(g.rng.randint(0, 4, size=n), qt)
    else:
        sc = np.float32(g.pick(1, 2, 2, 4))
        zp = np.asarray(g.pick(0, 0, 1, 3), qt)
        if g.chance(.12):
            sc, zp = sc.reshape(1), zp.reshape(1)
    return sc, zp, ax

def attrs(g, x, ax, sc):
    a = {}
    r = g.v(x).ndim
    if ax is not None:
        if not (ax == 1 and g.chance(.5)):
            a["axis"] = sgn_axis(g, ax, r)
    elif g.opset >= 13 and r and g.chance(.12):
        a["axis"] = int(g.rng.randint(r))
    return a

def add_q(g, x, like=None):
    v = g.v(x)
    if v.dtype != np.float32:
        raise Reject
    if like is not None and g.chance(.85):
        ins, a, pax = like
        if pax is not None and (v.ndim <= pax or v.shape[pax] != g.v(ins[0]).shape[0]):
            raise Reject
        if pax is not None and a.get("axis", 1) not in (pax, pax - v.ndim):
            a = {"axis": pax}
        return g.emit("QuantizeLinear", [x] + ins, **a), like
    qt = g.pick(np.uint8, np.int8)
    per = g.opset >= 13 and g.chance(.25)
    sc, zp, ax = params(g, x, per, qt)
    ins = [g.shared_const(sc)]
    if qt != np.uint8 or np.any(zp != 0) or g.chance(.7):
        ins.append(g.shared_const(zp))
        if g.chance(.06):
            ins = ins[:1]
    a = attrs(g, x, ax, sc)
    return g.emit("QuantizeLinear", [x] + ins, **a), (ins, a, ax)

def add_dq(g, q, like=None):
    v = g.v(q)
    if like is not None and g.chance(.85):
        ins, a, pax = like
        if (len(ins) > 1 and g.v(ins[1]).dtype != v.dtype) or (pax is not None and (v.ndim <= pax or v.shape[pax] != g.v(ins[0]).shape[0])):
            raise Reject
        if pax is not None and a.get("axis", 1) not in (pax, pax - v.ndim):
            a = {"axis": pax}
        return g.emit("DequantizeLinear", [q] + ins, **a), like
    per = g.opset >= 13 and g.chance(.25)
    sc, zp, ax = params(g, q, per, v.dtype)
    if v.dtype == np.int32:
        zp = zp * 0
    ins = [g.shared_const(sc)]
    if g.chance(.75) and v.dtype != np.int32:
        ins.append(g.shared_const(zp))
    a = attrs(g, q, ax, sc)
    return g.emit("DequantizeLinear", [q] + ins, **a), (ins, a, ax)

def gather(g, x):
    v = g.v(x)
    if v.ndim == 0:
        raise Reject
    k = g.rng.randint(3)
    ax = int(g.rng.randint(v.ndim))
    if k == 0 or g.opset < 11:
        return g.emit("Gather", [x, g.const(np.asarray(g.rng.randint(0, v.shape[ax], size=g.pick([], [2], [1, 2])), np.int64))], axis=ax)
    if k == 1:
        return g.emit("GatherElements", [x, g.const(g.rng.randint(0, v.shape[ax], size=v.shape).astype(np.int64))], axis=ax)
    n = g.rng.randint(1, v.ndim + 1)
    return g.emit("GatherND", [x, g.const(np.stack([g.rng.randint(0, v.shape[i], size=2) for i in range(n)], -1).astype(np.int64))])

def scatter(g, x, u=None):
    v = g.v(x)
    if v.ndim == 0 or g.opset < 11:
        raise Reject
    u = u or x
    red = {}
    if g.opset >= 16 and g.chance(.45):
        red = {"reduction": g.pick("add", "mul") if g.opset < 18 else g.pick("add", "mul", "max", "min")}
    if g.chance(.5):
        ax = int(g.rng.randint(v.ndim))
        w = g.v(u)
        if w.ndim != v.ndim or any(a > b for a, b in zip(w.shape, v.shape)):
            raise Reject
        # distinct targets along the axis: identical row of a permutation
        idx = np.zeros(w.shape, np.int64)
        p = g.rng.permutation(v.shape[ax])[:w.shape[ax]]
        idx[...] = p.reshape([-1 if i == ax else 1 for i in range(v.ndim)])
        return g.emit("ScatterElements", [x, g.const(idx), u], axis=ax, **red)
    n = v.shape[0]
    w = g.v(u)
    if w.shape[1:] != v.shape[1:] or w.shape[0] > n:
        raise Reject
    p = g.rng.permutation(n)[:w.shape[0]].astype(np.int64).reshape(-1, 1)
    return g.emit("ScatterND", [x, g.const(p), u], **red)

def multi(g, x):
    """operators with several data inputs"""
    v = g.v(x)
    c = [n for n in g.tensors(lambda w: w.dtype == v.dtype and w.ndim == v.ndim)]
    o = c[g.rng.randint(len(c))]
    k = g.rng.randint(3)
    if k == 0:
        return scatter(g, x, o)
    ax = int(g.rng.randint(max(v.ndim, 1)))
    return g.emit("Concat", [x, o] if g.chance(.5) else [x, o, x], axis=ax)

OPS = {"transpose": 2, "reshape": 2, "squeeze": 1, "unsqueeze": 1, "slice": 2, "split": 2, "concat": 2, "identity": 1, "flatten": 1, "expand": 1, "tile": 1,
       "pad": .5, "unary": 1}

def seq(g, cur):
    qp = None
    made = []
    v = g.v(cur)
    for _ in range(g.rng.randint(3, 9)):
        v = g.v(cur)
        c = g.rng.rand()
        try:
            if v.dtype in (np.uint8, np.int8, np.int32):
                if c < .75:
                    cur, qp2 = add_dq(g, cur, qp)
                    qp = qp2 if qp is None or g.chance(.2) else qp
                    made.append("DQ")
                else:
                    cur = flat(getattr(Emit, g.pick("transpose", "reshape", "slice"))(g, cur))[0]
            elif v.dtype == np.float32:
                if c < .4:
                    cur, qp2 = add_q(g, cur, qp)
                    qp = qp2 if qp is None or g.chance(.2) else qp
                    made.append("Q")
                elif c < .9:
                    r = random_step(g, cur, dict(OPS, **{}) if g.chance(.65) else {gather: 2, scatter: 2, multi: 3})
                    if g.chance(.4) and len(r) > 1:
                        for t in r[1:]:
                            add_q(g, t, qp)
                    cur = r[g.rng.randint(len(r))]
                    made.append(g.nodes[-1].op_type)
                else:
                    # fan-out: several consumers of one tensor
                    for _ in range(2):
                        if g.chance(.6):
                            add_q(g, cur, qp)
                        else:
                            random_step(g, cur, OPS)
            else:
                break
        except Reject:
            continue
    return cur, made

def body_step(sub, x, weights):
    """steps inside a nested body: quantize / dequantize tensors from outside"""
    v = sub.v(x)
    if v.dtype == np.float32 and sub.chance(.5):
        try:
            q, qp = add_q(sub, x)
            if sub.chance(.7):
                q, _ = add_dq(sub, q, qp)
            return [q]
        except Reject:
            pass
    if v.dtype in (np.uint8, np.int8):
        return [add_dq(sub, x)[0]]
    return random_step(sub, x, OPS)

def gen(rng, i):
    opset = int(rng.choice([10, 11, 12, 13, 13, 13, 14, 15, 16, 16, 17, 18]))
    g = GB(rng, opset)
    r = int(rng.choice([0, 1, 2, 2, 3, 3, 4]))
    shape = rng.randint(1, 4, size=r).tolist()
    dt = rng.choice([np.float32] * 4 + [np.uint8, np.int8, np.int32])
    x = g.add_input(shape, dt, [k for k in range(r) if rng.rand() < .25], -9, 10)
    y = None
    if rng.rand() < .3:
        y = g.add_input(shape, dt, [], -9, 10)
    cur, made = seq(g, x)
    if rng.rand() < .4:
        own = [n for n in g.tensors() if g.v(n).dtype in (np.float32, np.uint8, np.int8)]
        c, m2 = seq(g, own[rng.randint(len(own))])
        made += m2
    if rng.rand() < .18:
        own = [n for n in g.tensors() if g.v(n).dtype in (np.float32, np.uint8, np.int8) and g.v(n).size]
        emit_if(g, own[rng.randint(len(own))], None, body_fn=body_step)
        made.append("If")
    if not any(k in made for k in ("Q", "DQ")):
        raise Reject
    used = {a for nd in g.nodes for a in g.free_names(nd)}
    ins = {a[0] for a in g.inputs}
    leaves = [t for t in g.order if t not in used and t not in ins]
    outs = leaves + [t for t in g.order if t not in leaves and t not in ins and rng.rand() < .08]
    if not outs:
        raise Reject
    m = g.model(outs[-6:])
    return m, [g.feeds(), g.feeds_variant(0, rng)], "+".join(sorted(set(made))[:5])

def variants(rng):
    v = [opt_variant("all"), opt_variant("qdq", "q_dq_optimizer")]
    if rng.rand() < .5:
        v.append(opt_variant("qdq+transpose", "q_dq_optimizer", "optimize_transpose"))
    return v

def main():
    n, budget = (1800, 150) if TIER == "quick" else (16000, 700)
    opt_check.NOEMPTY = True
    chk, st = run_profile("O05", gen, n, variants, budget)
    return finish(chk, st)
