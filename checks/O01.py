"""O01: moving and cancelling transposes never changes what a model computes."""
META = ("TLA+ denotational spec (OnnxSem.tla), TLC judges recorded before/after traces of the real optimizer", "translation_validation",
        "each generated graph, its run-time inputs and the values of the optimized graph are judged by TLC against OnnxSem.tla; covers 30+ operators with transposes in all positions, opsets 7-18; integers only; trusts TLC and onnxruntime (as executor of the models on both sides)")
from opt_check import *

W = {"unary": 5, "binary": 9, "where": 1, "compare": 1, "clip": 1.5, "shape_of": 1, "reshape": 2, "squeeze": 3, "unsqueeze": 2.5, "concat": 4,
     "split": 3, "slice": 4, "pad": 4, "tile": 2, "expand": .5, "gather": .7, "flatten": .5, "reduce": 5, "argm": 2.5, "softmax": 2.5, "cumsum": .3,
     "conv": 3, "pool": 1.5, "bn": 1, "quant": 2, "dequant": 3, "identity": 1.5, "transpose": 3, "matmul": .5, "cast": 1.5, "d2s": .3}

def gen(rng, i):
    opset = int(rng.choice([7, 8, 9, 10, 11, 12, 13, 13, 14, 15, 17, 18, 18]))
    g = GB(rng, opset)
    r = int(rng.choice([4, 4, 4, 5, 3, 2, 1, 6], p=[.28, .14, .14, .14, .14, .08, .02, .06]))
    hi = {6: 3, 5: 3}.get(r, 4)
    shape = rng.randint(1, hi + 1, size=r).tolist()
    if r == 4 and rng.rand() < .3:
        shape = list([[1, 2, 2, 2], [2, 3, 3, 3], [1, 4, 4, 1], [1, 1, 3, 2], [2, 2, 3, 1], [1, 3, 3, 3]][rng.randint(6)])
    nin = 1 if rng.rand() < .6 else 2
    syms = [k for k in range(r) if rng.rand() < .5] if rng.rand() < .5 else []
    dt = np.float32 if rng.rand() < .93 else (np.int64 if rng.rand() < .5 else np.uint8 if opset >= 10 else np.float32)
    xs = [g.add_input(shape, dt, syms) for _ in range(nin)]
    p = rnd_perm(g, r) if rng.rand() < .97 else None
    cur = g.emit("Transpose", [xs[0]], perm=p)
    starts = [cur]
    if nin == 2 and rng.rand() < .75:
        starts.append(g.emit("Transpose", [xs[1]], perm=p if rng.rand() < .8 else rnd_perm(g, r)))
    what = []
    for k in range(int(rng.randint(1, 4))):
        base = cur
        if k and rng.rand() < .2:
            own = g.tensors()
            base = own[rng.randint(len(own))]
        out = random_step(g, base, W)
        what.append(g.nodes[-1].op_type)
        cur = out[rng.randint(len(out))]
        # close the pair at random points
        if rng.rand() < .5 and g.v(cur).ndim >= 2:
            rr = g.v(cur).ndim
            q = inv_perm(p) if p and rr == r and rng.rand() < .8 else rnd_perm(g, rr)
            t = g.emit("Transpose", [cur], perm=q)
            if rng.rand() < .4:
                cur = t
    used = {x for n in g.nodes for x in n.input}
    leaves = [n for n in g.order if n not in used and n not in xs]
    outs = leaves[:]
    for n in g.order:
        if n not in outs and n not in xs and rng.rand() < .1:
            outs.append(n)
    if len(outs) > 4:
        outs = outs[-4:]
    m = g.model(outs)
    feeds = [g.feeds()] + [g.feeds_variant(k, rng) for k in range(2)]
    return m, feeds, "+".join(what)

def variants(rng):
    v = [opt_variant("all"), opt_variant("transpose", "optimize_transpose")]
    if rng.rand() < .3:
        v.append(opt_variant("transpose2", "optimize_transpose", "fold_constants", "remove_identity"))
    return v

def main():
    import opt_check
    opt_check.NOEMPTY = True

    n, budget = (1500, 150) if TIER == "quick" else (14000, 700)
    chk, st = run_profile("O01", gen, n, variants, budget)
    return finish(chk, st)
