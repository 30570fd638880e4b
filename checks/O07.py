"""O07: einsum decomposition equals einsum."""
META = ("TLA+ denotation of einsum (Tensor.tla EinsumT); TLC judges the decomposed model produced by the real optimizer against it", "translation_validation",
        "random and (thorough) small-scope enumerated equations of one to three operands with permuted letters, summed, shared, size-one and repeated letters, static and unknown sizes, several element types, in the main graph and in bodies, several equations per model and per process; integers; trusts TLC and onnxruntime")
from opt_check import *
import opt_check, itertools

LET = "abcdefghijklmnopqrstuvwxyzABCDEFGHIJKLMNOPQRSTUVWXYZ"

def canon_words(maxlen, k):
    """words of distinct letters over 0..k-1 plus new ones"""
    out = []
    def rec(w, nxt):
        out.append(tuple(w))
        if len(w) < maxlen:
            for l in range(nxt + 1):
                if l not in w:
                    rec(w + [l], max(nxt, l + 1))
    rec([], k)
    return out

def enum_equations():
    """every equation of one or two operands of at most 2 (one of at most 3) distinct letters, up to renaming"""
    res = []
    for w1 in canon_words(3, 0):
        for w2 in [None] + canon_words(2 if len(w1) > 2 else 3, len(w1)):
            ls = sorted(set(w1) | set(w2 or ()))
            if len(ls) > 4 or not ls:
                continue
            for r in range(0, len(ls) + 1):
                for o in itertools.permutations(ls, r):
                    res.append(([w1] if w2 is None else [w1, w2], o))
    return res

ENUM = enum_equations()

def random_equation(rng):
    n = int(rng.choice([1, 2, 2, 2, 2, 3]))
    nl = int(rng.randint(1, 6))
    ops = []
    for _ in range(n):
        k = int(rng.randint(0 if n > 1 and rng.rand() < .1 else 1, min(4, nl) + 1))
        w = list(rng.permutation(nl)[:k])
        if k and rng.rand() < .07:
            w.append(w[int(rng.randint(k))])
        ops.append(tuple(int(x) for x in w))
    ls = sorted(set(sum(ops, ())))
    if not ls:
        return random_equation(rng)
    if rng.rand() < .3:      # what matmul does
        cnt = {l: sum(l in o for o in ops) for l in ls}
        o = [l for l in ls if cnt[l] == 1 or rng.rand() < .3]
    else:
        o = [l for l in ls if rng.rand() < .6]
    o = [o[i] for i in rng.permutation(len(o))]
    return ops, tuple(o)

def einsum(g, eq, operands=None):
    rng = g.rng
    ops, out = eq
    ls = sorted(set(sum((tuple(o) for o in ops), ())))
    nm = [LET[i] for i in rng.permutation(8 if rng.rand() < .7 else 52)[:len(ls)]]
    name = {l: nm[i] for i, l in enumerate(ls)}
    one = [l for l in ls if rng.rand() < .12]
    dt = operands[2] if operands else np.float32
    size = {l: 1 if l in one else int(rng.randint(1, 4)) for l in ls}
    # a letter of unknown size is unknown wherever it occurs, in inputs only: all its dimensions agree in every run
    sym = {l for l in ls if rng.rand() < .4} if g.parent is None and rng.rand() < .5 else set()
    xs = []
    for w in ops:
        shp = [size[l] for l in w]
        k = rng.rand()
        have = [t for t in g.tensors(lambda v: v.dtype == dt and list(v.shape) == shp) if t not in g.symbolic]
        if not sym & set(w) and have and k < .5:
            xs.append(have[rng.randint(len(have))])
        elif g.parent is None and (k < .7 or sym & set(w)):
            xs.append(g.add_input(shp, dt, lo=-3, hi=4))
            n, t, dims, lo, hi = g.inputs[-1]
            g.inputs[-1] = (n, t, ["L%s%d" % (name[l], g.eqn) if l in sym else d for l, d in zip(w, dims)], lo, hi)
            if sym & set(w):
                g.symbolic.add(n)
        else:
            xs.append(g.const(g.data(shp, dt, -3, 4)))
    body = ",".join("".join(name[l] for l in w) for w in ops)
    rhs = "".join(name[l] for l in out)
    k = rng.rand()
    if k < .05:
        eqs = body.replace(",", ", ") + " -> " + rhs
    elif k < .09:
        eqs = body                    # implicit output
    elif k < .12:
        eqs = "..." + body.split(",")[0] + "->..." + body.split(",")[0][::-1]
        xs = xs[:1]
    else:
        eqs = body + "->" + rhs
    o = g.emit("Einsum", xs, equation=eqs)
    if sym or any(x in g.symbolic for x in xs):
        g.symbolic.add(o)
    return o

def gen(rng, i):
    opset = int(rng.choice([12, 13, 13, 14, 15, 18]))
    g = GB(rng, opset)
    g.BIG = 300000
    g.symbolic, g.eqn = set(), 0
    what = "random"
    made = []
    n = int(rng.choice([1, 1, 1, 2, 3]))
    dt = [np.float32, np.float32, np.float64][rng.randint(3)]     # the runtime has no integer Gemm
    for k in range(n):
        g.eqn = k
        eq = random_equation(rng)
        if k == 0 and (TIER != "quick" and i < len(ENUM)):
            eq = ENUM[i]
            what = "enumerated"
        elif rng.rand() < .3:
            eq = ENUM[rng.randint(len(ENUM))]
        try:
            if made and rng.rand() < .15:
                c = g.const(np.array(True))
                sub = GB(rng, opset, parent=g, prefix="s%d_" % k)
                sub.eqn, sub.symbolic = k, g.symbolic
                o = einsum(sub, eq, (0, 0, dt))
                v = sub.v(o)
                els = GB(rng, opset, parent=g, prefix="e%d_" % k)
                o2 = els.emit("Identity", [els.const(g.data(v.shape, v.dtype))])
                made.append(g.emit("If", [c], then_branch=sub.graph_proto("t", [o]), else_branch=els.graph_proto("e", [o2])))
            else:
                made.append(einsum(g, eq, (0, 0, dt)))
        except Reject:
            if k == 0:
                raise
    if rng.rand() < .2:
        made.append(g.emit("Neg", [made[-1]]))
    if not any("Einsum" in str(x) for x in g.nodes):
        raise Reject
    m = g.model(list(dict.fromkeys(made)))
    return m, [g.feeds()] + [g.feeds_variant(0, rng)], what + ":" + np.dtype(dt).name

def variants(rng):
    return [opt_variant("all")] + ([opt_variant("einsum", "einsum_optimizer")] if rng.rand() < .3 else [])

def main():
    opt_check.NOEMPTY = True
    n, budget = (1200, 60) if TIER == "quick" else (len(ENUM) + 4000, 650)
    chk, st = run_profile("O07", gen, n, variants, budget)
    dec = sum(1 for c in st["cases"] if c["_changed"] and not any("Einsum" == x for x in c.get("_left", [])))
    return finish(chk, st, {"equation_kinds": st["whats"], "small_scope_equations": len(ENUM)})
