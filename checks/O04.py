"""O04: removing redundant operators never changes what a model computes."""
META = ("TLA+ denotational spec (OnnxSem.tla) and Herbrand spec (Terms.tla); TLC judges recorded before/after traces of the real optimizer", "translation_validation",
        "each generated graph with redundant operators (duplicates, near-duplicates, cast/transpose/reshape/squeeze chains, conv+batchnorm, poolable reductions, identity-like resizes, identities) is executed before and after and judged by TLC; integers decided by the specification, other values by equality with the source run; trusts TLC and onnxruntime")
import copy
from opt_check import *
from onnx import helper, numpy_helper

def dtypes_pool(g):
    return [1, 10, 11, 6, 7, 9, 3, 2, 5]

def cast_chain(g, x):
    n = g.pick(2, 2, 3, 4)
    pool = dtypes_pool(g)
    cur, outs = x, []
    v = g.v(x)
    if v.dtype == np.float32 and g.chance(.35):
        cur = g.emit("Mul", [cur, g.shared_const(np.float32(g.pick(.25, .125, .3, 70.25, 20000)))])
    prev = None
    for k in range(n):
        to = prev if prev and g.chance(.2) else g.pick(*pool)
        # conversions whose result the standard leaves open are not generated (float to a type that cannot hold it)
        w = g.v(cur)
        lim = {6: 2**31 - 1, 7: 2**62, 3: 127, 5: 32767, 2: 255, 12: 2**32 - 1}.get(to)
        if w.dtype.kind == "f" and lim is not None and w.size and (np.max(w) > lim or np.min(w) < (0 if to in (2, 12) else -lim)):
            raise Reject
        if w.dtype.kind == "i" and to in (2, 12) and w.size and np.min(w) < 0:
            raise Reject
        if w.dtype.kind in "iu" and to in (3, 2, 5) and w.size and (np.max(w) > lim):
            raise Reject
        if to == 10 and w.size and np.max(np.abs(w.astype(np.float64))) > 60000:
            raise Reject
        cur = g.emit("Cast", [cur], to=to)
        prev = to
        if g.chance(.15):
            outs.append(g.emit("Cast", [cur], to=g.pick(1, 7, 6)) if g.v(cur).dtype.kind != "b" or g.chance(.5) else g.emit("Not", [cur]))
    return outs + [cur]

def trans_chain(g, x):
    cur, outs = x, []
    if g.v(x).ndim == 0:
        raise Reject
    for k in range(g.pick(2, 2, 3)):
        nd = g.nodes[-1]
        if k and g.chance(.5) and nd.op_type == "Transpose" and nd.attribute:
            cur = g.emit("Transpose", [cur], perm=inv_perm(list(helper.get_node_attr_value(nd, "perm"))))
        else:
            cur = Emit.transpose(g, cur)
        if g.chance(.2):
            outs += flat(random_step(g, cur, {"unary": 1}))
        if g.chance(.15):
            outs.append(Emit.transpose(g, cur))
    return outs + [cur]

def sq_unsq(g, x):
    v = g.v(x)
    ones = [i for i, d in enumerate(v.shape) if d == 1]
    if not ones:
        x = Emit.unsqueeze(g, x)
        v = g.v(x)
        ones = [i for i, d in enumerate(v.shape) if d == 1]
    k = [int(a) for a in g.rng.permutation(ones)[:g.rng.randint(1, len(ones) + 1)]]
    if g.chance(.7):
        k.sort()
    def ax(a, r):
        return [sgn_axis(g, i, r) if g.opset >= 11 else i for i in a]
    a1 = ax(k, v.ndim)
    def sq(t, a):
        if g.opset < 13:
            return g.emit("Squeeze", [t], axes=a)
        return g.emit("Squeeze", [t, g.shared_const(np.array(a, np.int64))])
    def un(t, a):
        if g.opset < 13:
            return g.emit("Unsqueeze", [t], axes=a)
        return g.emit("Unsqueeze", [t, g.shared_const(np.array(a, np.int64))])
    if g.chance(.12) and len(k) == len(ones):
        t = g.emit("Squeeze", [x])
    else:
        t = sq(x, a1)
    outs = []
    if g.chance(.15):
        outs += flat(random_step(g, t, {"unary": 1}))
    a2 = a1 if g.chance(.6) else ax(k, v.ndim) if g.chance(.5) else sorted(int(i) for i in g.rng.permutation(v.ndim)[:len(k)])
    u = un(t, a2)
    if g.chance(.3):
        outs.append(sq(u, a2))
    return outs + [u]

def resh_chain(g, x):
    t = Emit.reshape(g, x)
    outs = []
    if g.chance(.15):
        outs += flat(random_step(g, t, {"unary": 1}))
    u = Emit.reshape(g, t)
    if g.chance(.3):
        u = Emit.reshape(g, u)
    return outs + [u]

def conv_bn(g, x):
    if g.v(x).ndim not in (3, 4, 5):
        raise Reject
    t = Emit.conv(g, x)
    outs = []
    if g.chance(.15):
        outs += flat(random_step(g, t, {"unary": 1}))
    u = Emit.bn(g, t)
    if g.chance(.25):
        u = Emit.bn(g, u)
    return outs + [u]

def red_pool(g, x):
    v = g.v(x)
    if not 2 <= v.ndim <= 5 or v.dtype != np.float32:
        raise Reject
    ax = list(range(g.pick(2, 2, 2, 2, 1), v.ndim))
    if not ax:
        ax = [1]
    if g.chance(.15):
        ax = ax[::-1]
    if g.chance(.2) and g.opset >= 11:
        ax = [a - v.ndim if g.chance(.6) else a for a in ax]
    op = g.pick("ReduceMean", "ReduceMax", "ReduceMean", "ReduceSum")
    kd = {} if g.chance(.3) else {"keepdims": g.pick(0, 1)}
    if g.opset >= 18 or (op == "ReduceSum" and g.opset >= 13):
        t = g.emit(op, [x, g.shared_const(np.array(ax, np.int64))], **kd)
    else:
        t = g.emit(op, [x], axes=ax, **kd)
    return flat(random_step(g, t, {"unary": 3, "unsqueeze": 1, "transpose": 1})) if g.chance(.85) else [t]

def upsample(g, x):
    v = g.v(x)
    if v.dtype != np.float32 or v.ndim < 1 or g.opset > 9:
        raise Reject
    sc = [1.0] * v.ndim
    if g.chance(.3):
        sc[-1] = 2.0
    elif g.chance(.15):
        sc[-1] = 1.5
    mode = g.pick("nearest", None)
    if g.opset < 9:
        return [g.emit("Upsample", [x], scales=sc, mode=mode)]
    return [g.emit("Upsample", [x, g.shared_const(np.array(sc, np.float32))], mode=mode)]

def identities(g, x):
    cur, outs = x, []
    for _ in range(g.pick(1, 2, 3)):
        cur = g.emit("Identity", [cur])
        if g.chance(.3):
            outs.append(cur)
    return outs + [cur]

def const_ident(g, x):
    c = g.const(g.data([2, 3]))
    return [g.emit("Identity", [c]), g.emit("Identity", [c])] if g.chance(.4) else [g.emit("Identity", [c])]

def dup(g, x):
    """a copy of an existing node, exact or with something changed"""
    tainted = getattr(g, "tainted", set())
    cand = [n for n in g.nodes if n.op_type != "Constant" and n.output[0] in g.val and not set(n.input) & tainted and not set(n.output) & tainted]
    if not cand:
        raise Reject
    n = cand[-1 - g.rng.randint(min(6, len(cand)))]
    m = copy.deepcopy(n)
    if g.chance(.3):
        for k, i in enumerate(m.input):
            if i and g.is_const(i) and g.chance(.6):
                a = g.v(i)
                if a.size and a.dtype.kind == "f" and g.chance(.4):
                    a = a.copy()
                    a.flat[g.rng.randint(a.size)] += 1
                m.input[k] = g.const(a)
    if g.chance(.3) and m.attribute:
        a = m.attribute[g.rng.randint(len(m.attribute))]
        if a.type == AttributeProto.INT:
            a.i = int(a.i) + int(g.pick(-1, 1)) if g.chance(.6) and a.name not in ("keepdims", "allowzero", "ceil_mode", "count_include_pad") else 1 - int(a.i)
        elif a.type == AttributeProto.INTS and len(a.ints):
            g.rng.shuffle(tmp := list(a.ints))
            del a.ints[:]
            a.ints.extend(int(t) for t in tmp)
        elif a.type == AttributeProto.FLOAT:
            a.f = a.f + 1
    if len(m.input) >= 2 and g.chance(.2):
        m.input[0], m.input[1] = m.input[1], m.input[0]
    if any(a.type == AttributeProto.GRAPH for a in m.attribute):
        raise Reject
    attrs = {a.name: helper.get_attribute_value(a) for a in m.attribute}
    outs = [g.name("t") for _ in m.output]
    if len(outs) > 1 and g.chance(.3) and m.op_type in ("Dropout", "MaxPool"):
        outs = outs[:1]
    res = flat(g.emit(m.op_type, list(m.input), outs=outs, nout=len(outs), **attrs))
    if g.chance(.5) and g.v(res[0]).dtype == np.float32:
        try:
            return [g.emit("Sub", [n.output[0], res[0]])] + res[1:]
        except Reject:
            pass
    return res

def near_equal_consts(g, x):
    """constants that are equal in some respects only: type, shape, sign of zero, bits"""
    k = g.rng.randint(5)
    if k == 0:
        a, b = np.zeros([2], np.float32), -np.zeros([2], np.float32)
        p = [g.const(a, node=False), g.const(b, node=False)]
        return [g.emit("Div", [g.emit("Add", [g.emit("Mul", [g.emit("Cast", [x], to=1), g.const(np.float32(0))]), g.const(np.float32(1))]) if False else g.const(np.float32(3)), q], check=False) for q in p]
    if k == 1:
        a = g.data([2, 3])
        p = [g.const(a), g.const(a.reshape(3, 2))]
    elif k == 2:
        a = np.array([1, 2, 3], np.int32)
        p = [g.const(a), g.const(a.view(np.float32).copy())] if g.chance(.3) else [g.const(a), g.const(a.astype(np.uint32))]
    elif k == 3:
        a = g.data([4])
        p = [g.const(a), g.const(a.copy())]
    else:
        a = np.array([1], np.int64)
        p = [g.const(a), g.const(a.reshape([])), g.const(a.reshape([1, 1]))]
    return [g.emit("Identity", [q], check=False) if g.chance(.3) else g.emit("Concat", [q, q], axis=0) if g.v(q).ndim else g.emit("Shape", [q]) for q in p]

def randoms(g, x):
    """two requests for random numbers are different numbers"""
    k = g.rng.randint(4)
    def one():
        if k == 0:
            return g.emit("RandomUniform", [], shape=[4], dtype=1)
        if k == 1:
            return g.emit("RandomNormal", [], shape=[3])
        if k == 2:
            return g.emit("RandomUniformLike", [x], dtype=1)
        return g.emit("RandomNormalLike", [x], dtype=1)
    a = one()
    b = one()
    if g.v(a).size == 0:
        raise Reject
    d = g.emit("Cast", [g.emit("Greater", [g.emit("Abs", [g.emit("Sub", [a, b])]), g.const(np.float32(0))])], to=1)
    r = g.emit("ReduceMin", [d], keepdims=0)
    inner = {a, b}
    for nd in g.nodes:
        if set(nd.input) & inner:
            inner |= set(nd.output) - {r}
    g.order[:] = [n for n in g.order if n not in inner]
    g.tainted = getattr(g, "tainted", set()) | inner
    return [r]

def rnn(g, x):
    """recurrent nodes with the same inputs but different optional outputs"""
    X = g.const(g.data([2, 1, 2], lo=-1, hi=2)) if g.chance(.5) else g.add_input([2, 1, 2], np.float32, [], -1, 2)
    W = g.const(g.data([1, 6, 2], lo=-1, hi=2)); R = g.const(g.data([1, 6, 2], lo=-1, hi=2))
    o = []
    for f in [(1, 1), (1, 0), (0, 1)] if g.chance(.5) else [(1, 0), (0, 1)]:
        outs = [g.name("t") if b else "" for b in f]
        while outs[-1] == "":
            outs.pop()
        o += flat(g.emit("GRU", [X, W, R], outs=outs, nout=2, hidden_size=2))
    return o

def dup_if(g, x):
    w = {"unary": 3, "binary": 2, "transpose": 1}
    before = len(g.nodes)
    a = emit_if(g, x, w, nout=1)
    nd = g.nodes[-1]
    cond = nd.input[0]
    # a second conditional with the same condition and another (or the same) body
    br = {b.name: b.g for b in nd.attribute}
    k = g.rng.randint(3)
    if k == 0:
        t, e = br["else_branch"], br["then_branch"]
    elif k == 1:
        t, e = br["then_branch"], br["then_branch"]
    else:
        t, e = br["then_branch"], br["else_branch"]
    def ren(b, sfx):
        b = copy.deepcopy(b)
        own = {o for n in b.node for o in n.output} | {i.name for i in b.initializer}
        f = lambda s: s + sfx if s in own else s
        for n in b.node:
            n.name += sfx
            n.input[:] = [f(i) for i in n.input]
            n.output[:] = [f(i) for i in n.output]
            for q in n.attribute:
                if q.type == AttributeProto.GRAPH:
                    raise Reject
        for i in b.initializer:
            i.name = f(i.name)
        for o2 in b.output:
            o2.name = f(o2.name)
        return b
    b2 = g.emit("If", [cond], then_branch=ren(t, "_r" + str(g.root.cnt)), else_branch=ren(e, "_q" + str(g.root.cnt)))
    return flat(a) + flat(b2)

KINDS = [(cast_chain, 3), (trans_chain, 2), (sq_unsq, 2), (resh_chain, 2), (conv_bn, 3), (red_pool, 3), (upsample, 3), (identities, 2), (const_ident, 1),
         (dup, 4), (near_equal_consts, 1), (randoms, .6), (rnn, .6), (dup_if, .8)]

def gen(rng, i):
    opset = int(rng.choice([7, 8, 9, 9, 10, 11, 12, 13, 13, 14, 15, 17, 18]))
    g = GB(rng, opset)
    r = int(rng.choice([0, 1, 2, 3, 4, 4, 4, 5]))
    shape = rng.randint(1, 4, size=r).tolist()
    while np.prod(shape) > 100:
        shape[rng.randint(r)] = 1
    x = g.add_input(shape, rng.choice([np.float32] * 6 + [np.int64, np.int32, np.bool_, np.int8]), [k for k in range(r) if rng.rand() < .25])
    cur, what = x, []
    ks, w = [k for k, _ in KINDS], np.array([b for _, b in KINDS], float)
    n = 0
    for _ in range(rng.randint(4, 9)):
        k = ks[rng.choice(len(ks), p=w / w.sum())]
        own = g.tensors()
        try:
            if rng.rand() < .2:
                o = random_step(g, cur, {"unary": 2, "binary": 2, "transpose": 1, "concat": 1, "reduce": 1, "split": 1, "slice": 1, "cast": 1})
            else:
                o = k(g, cur)
                what.append(k.__name__)
                n += 1
        except (Reject, ValueError, IndexError):
            continue
        cur = o[rng.randint(len(o))] if rng.rand() < .8 else own[rng.randint(len(own))]
        if n >= 3 and rng.rand() < .5:
            break
    if not n:
        raise Reject
    rnd = getattr(g, "tainted", set())
    used = {a for nd in g.nodes for a in g.free_names(nd)} if True else set()
    ins = {a[0] for a in g.inputs}
    leaves = [t for t in g.order if t not in used and t not in ins and t not in rnd]
    outs = leaves + [t for t in g.order if t not in leaves and t not in ins and rng.rand() < .1 and t not in rnd]
    outs = [t for t in outs if g.v(t).dtype.name in NP2ONNX]
    if not outs:
        raise Reject
    m = g.model(outs[-6:])
    return m, [g.feeds(), g.feeds_variant(0, rng)], "+".join(sorted(set(what))[:4])

FAM = ["merge_duplication", "remove_identity", "remove_back_to_back", "global_pool_optimizer", "upsample_optimizer"]
def variants(rng):
    v = [opt_variant("all")]
    import tf2onnx.optimizer as O
    names = [k for k in O._get_optimizers()]
    for k in names:
        if k in ("merge_duplication", "remove_identity", "remove_back_to_back", "global_pool_optimizer", "remove_redundant_upsample") and rng.rand() < .6:
            v.append(opt_variant(k, k))
    return v

def main():
    n, budget = (1500, 150) if TIER == "quick" else (15000, 700)
    chk, st = run_profile("O04", gen, n, variants, budget)
    return finish(chk, st)
