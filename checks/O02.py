"""O02: constant folding and dequantization folding store what the operators compute."""
META = ("TLA+ denotational spec (OnnxSem.tla), TLC judges recorded before/after traces of the real optimizer", "translation_validation",
        "as O01 for graphs with constant sub-expressions and quantize/dequantize of constants")
from opt_check import *

FOLD = {"transpose": 4, "cast": 4, "reshape": 5, "concat": 4, "unsqueeze": 4, "split": 4, "binary": 6, "squeeze": .7, "slice": .7, "unary": .7,
        "dequant": 3, "shape_of": .4, "gather": .7, "identity": .5, "quant": .5, "where": .3, "expand": .3, "reduce": .4}
MIX = {"binary": 6, "concat": 3, "transpose": 1.5, "reshape": 1, "unary": 1, "slice": 1, "where": .5, "matmul": .7, "identity": .3, "cast": .7}

def gen(rng, i):
    opset = int(rng.choice([7, 8, 9, 10, 11, 12, 13, 13, 14, 15, 17, 18, 18]))
    g = GB(rng, opset)
    x = g.add_input(rng.randint(1, 4, size=rng.randint(1, 4)).tolist(), np.float32, [0] if rng.rand() < .3 else [])
    y = g.add_input(rng.randint(1, 4, size=rng.randint(1, 3)).tolist(), np.int64) if rng.rand() < .3 else None
    dts = [np.float32, np.float32, np.int64, np.int32, np.bool_, np.float64]
    if opset >= 10:
        dts += [np.uint8, np.int8, np.uint8]
    what, pool = [], []
    for _ in range(rng.randint(1, 3)):
        dt = dts[rng.randint(len(dts))]
        shape = rng.randint(1, 5, size=rng.randint(0, 5)).tolist()
        if rng.rand() < .06:
            shape = [0] + shape[:2]
        if dt in (np.uint8, np.int8) and rng.rand() < .7:
            c = deq_chain(g, shape, dt, what)
        else:
            c = g.data(shape, dt, -3, 4)
            if dt in (np.float32, np.float64) and rng.rand() < .3:
                c = (c * g.pick(.25, .5, .75, 1.25)).astype(dt)
            c = g.const(c)
        pool.append(c)
        for _ in range(rng.randint(1, 4)):
            base = pool[-1] if rng.rand() < .8 else pool[rng.randint(len(pool))]
            out = random_step(g, base, FOLD)
            what.append(g.nodes[-1].op_type)
            pool += out
    # mix folded values with run-time data
    made = [p for p in pool if not g.is_const(p)]
    outs = []
    for p in made[-3:]:
        if rng.rand() < .6:
            v = g.v(p)
            if v.dtype == np.float32 and v.ndim <= 4 and rng.rand() < .8:
                for b in (x, made[0]):
                    try:
                        p2 = g.emit(g.pick("Add", "Mul", "Sub"), [b, p] if rng.rand() < .5 else [p, b])
                        outs.append(p2)
                        break
                    except Reject:
                        pass
            elif v.dtype == np.int64 and v.ndim <= 1 and y is not None and rng.rand() < .5:
                try:
                    outs.append(g.emit("Reshape", [y, p]))
                except Reject:
                    pass
    for _ in range(rng.randint(0, 3)):
        own = g.tensors()
        try:
            o = random_step(g, own[rng.randint(len(own))], MIX)
            what.append(g.nodes[-1].op_type)
        except Reject:
            pass
    used = {a for n in g.nodes for a in n.input}
    leaves = [n for n in g.order if n not in used and n not in (x, y)]
    outs = leaves + [n for n in g.order if n not in leaves and n not in (x, y) and rng.rand() < .12]
    if not outs:
        raise Reject
    m = g.model(outs[-5:])
    return m, [g.feeds(), g.feeds_variant(0, rng)], "+".join(what[:6])

def deq_chain(g, shape, dt, what):
    if not shape:
        shape = [2]
    c = g.const(g.data(shape, dt, -3, 9))
    d = Emit.dequant(g, c)
    what.append("Deq")
    for _ in range(g.rng.randint(1, 3)):
        try:
            d = flat(getattr(Emit, g.pick("transpose", "reshape", "unsqueeze", "reshape"))(g, d))[0]
            what.append(g.nodes[-1].op_type)
        except Reject:
            break
    return d

def variants(rng):
    v = [opt_variant("all"), opt_variant("fold", "fold_constants")]
    if rng.rand() < .6:
        v.append(opt_variant("dequant", "const_dequantize_optimizer"))
    return v

def main():
    n, budget = (1600, 150) if TIER == "quick" else (16000, 700)
    chk, st = run_profile("O02", gen, n, variants, budget)
    return finish(chk, st)
