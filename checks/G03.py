"""G03: generated names never collide."""
META = ("TLA+ specification of name generation (Names.tla, NamesTrace.tla); TLC checks freshness for every short history and validates recorded histories; conversions and optimizations of models renamed to the names about to be generated are compared with those of the plain models", "model_checking",
        "TLC explores all histories of loads and generations over small stems and numbers; real histories: models and TensorFlow programs whose tensors, nodes, constants, inputs and body tensors carry the very names the converter generated for them in an earlier run (shifted to the present counter) are loaded, edited, optimized and converted; every generated name must be new and the result equal to that of the plain model up to names; trusts TLC and the canonical form (lib/canon.py)")
from opt_check import *
import re, importlib
import onnx
from onnx import helper, TensorProto
import tf2onnx
from tf2onnx import utils, graph as graph_mod, tfonnx
from tf2onnx.graph import GraphUtil, Graph
import canon
NUM = re.compile(r"__(\d+)")
LOG = None

def hook():
    """records name generation, loading and use"""
    if getattr(utils, "_verif_hook", None):
        return
    real = utils.make_name
    def make_name(*a, **k):
        r = real(*a, **k)
        if LOG is not None:
            LOG.append({"k": "gen", "n": [r]})
        return r
    utils._verif_hook = real
    for m in list(sys.modules.values()):
        if getattr(m, "__name__", "").startswith("tf2onnx"):
            for k, v in list(vars(m).items()):
                if v is real:
                    setattr(m, k, make_name)
    init = Graph.__init__
    def ginit(self, nodes, *a, **k):
        if LOG is not None:
            LOG.append({"k": "load", "n": sorted({x for n in nodes for x in [n.name] + list(n.output) if x})})
        return init(self, nodes, *a, **k)
    Graph.__init__ = ginit
    mk = Graph.make_node
    def make_node(self, *a, **k):
        n = mk(self, *a, **k)
        if LOG is not None:
            LOG.append({"k": "use", "n": sorted({x for x in [n.name] + list(n.output) if x})})
        return n
    Graph.make_node = make_node

def counter():
    return int(NUM.findall(utils.make_name("probe"))[-1])

def shift(name, d):
    return NUM.sub(lambda m: "__%d" % (int(m.group(1)) + d), name)

def record(fn):
    global LOG
    LOG = []
    try:
        return fn(), LOG
    finally:
        LOG = None

def all_names(g):
    s = {t.name for t in g.initializer} | {i.name for i in g.input}
    for n in g.node:
        s |= {n.name} | set(n.output)
        for a in n.attribute:
            for b in canon.bodies(a):
                s |= all_names(b)
    return s - {""}

def rename(m, mp, nodes):
    m = onnx.ModelProto.FromString(m.SerializeToString())
    f = lambda x: mp.get(x, x)
    def walk(g):
        for t in g.initializer:
            t.name = f(t.name)
        for v in list(g.input) + list(g.output) + list(g.value_info):
            v.name = f(v.name)
        for n in g.node:
            n.name = nodes.get(n.name, n.name)
            for l in (n.input, n.output):
                l[:] = [f(x) for x in l]
            for a in n.attribute:
                for b in canon.bodies(a):
                    walk(b)
    walk(m.graph)
    return m

def tensors_of(g, io):
    s = {t.name for t in g.initializer}
    if not io:
        s |= {i.name for i in g.input}
    for n in g.node:
        s |= set(n.output)
        for a in n.attribute:
            for b in canon.bodies(a):
                s |= tensors_of(b, False)
    return s - {""}

def node_names(g):
    s = {n.name for n in g.node}
    for n in g.node:
        for a in n.attribute:
            for b in canon.bodies(a):
                s |= node_names(b)
    return s - {""}

def differs(a, b, feeds):
    """outputs of the two models (all outputs are compared bit by bit)"""
    oa, _ = observe(a, feeds, len(a.graph.output))
    ob, _ = observe(b, feeds, len(b.graph.output))
    for (ea, xa), (eb, xb) in zip(oa, ob):
        if not ea and (eb or xa != xb):
            return eb or "outputs"
    return ""

PROFILES = ["O01", "O02", "O03", "O04", "O05", "O06", "O07"]

def onnx_case(j):
    rng = rng_for("G03o", j)
    prof = importlib.import_module(PROFILES[j % len(PROFILES)])
    m = None
    for _ in range(20):
        try:
            m, feeds, what = prof.gen(rng, j)
            onnx.checker.check_model(m)
            break
        except Exception:
            m = None
    if m is None:
        return []
    cases, base, made = [], counter(), None
    opt = lambda x: GraphUtil.optimize_model_proto(x, catch_errors=False)
    try:
        r0, log = record(lambda: opt(m))
    except Exception:
        return []      # other checks look at that
    cases.append({"id": "o%d" % j, "log": log})
    gen = [n for e in log if e["k"] != "load" for n in e["n"]] + sorted(all_names(r0.graph) - all_names(m.graph))
    gen = list(dict.fromkeys(gen))
    have = all_names(m.graph)
    for v in range(2):
        now = counter()
        pool = [shift(n, now - base) for n in gen]
        pool = [n for n in dict.fromkeys(pool) if n not in have and NUM.search(n)]
        if not pool:
            break
        mine = sorted(tensors_of(m.graph, True) - {o.name for o in m.graph.output})
        outs = [pool[i] for i in rng.permutation(len(pool))]
        mp = dict(zip([mine[i] for i in rng.permutation(len(mine))], outs))
        if rng.rand() < .3:
            mp.update(zip([i.name for i in m.graph.input], outs[len(mp):]))
        nn = sorted(node_names(m.graph))
        nodes = dict(zip([nn[i] for i in rng.permutation(len(nn))], [pool[i] for i in rng.permutation(len(pool))]))
        m2 = rename(m, mp, nodes)
        try:
            r2, log = record(lambda: opt(m2))
            back = {b: a for a, b in mp.items()}
            for x in list(r2.graph.input):
                if x.name in back:
                    r2 = rename(r2, {x.name: back[x.name]}, {})
            d = canon.model_diff(r0, r2)
            if d:       # passes may prefer one of two equal nodes by its name: what the models compute decides
                d = differs(r0, r2, feeds)
            err = "" if not d else "result differs: " + d
        except Exception as e:
            err = "raises %s: %s" % (type(e).__name__, str(e)[:150])
            log = []
        cases.append({"id": "o%d.%d" % (j, v), "log": log, "_err": err, "_kind": "optimizing"})
    return cases

def direct_case(j):
    """loaded models with names at and above the counter; what is generated afterwards has to be new"""
    rng = rng_for("G03d", j)
    log = []
    stems = ["Transpose", "x", "const", "n", "a/b", "y_cast"]
    for _ in range(rng.randint(1, 4)):
        c = counter()
        nm = lambda: "%s__%d" % (stems[rng.randint(len(stems))], c + rng.randint(-2, 30)) + ["", "", ":0", ":1", "_x", "_castback", "/y"][rng.randint(7)]
        names = list(dict.fromkeys(nm() for _ in range(40)))
        it = iter(names)
        kind = rng.randint(2)
        if kind == 0:
            x, k, y, z = (next(it) for _ in range(4))
            bi, bc, bt, bo = (next(it) for _ in range(4))
            body = helper.make_graph([helper.make_node("Mul", [x, bc], [bt], name=next(it)), helper.make_node("Neg", [bt], [bo], name=next(it))], next(it), [],
                                     [helper.make_tensor_value_info(bo, 1, [2])], [helper.make_tensor(bc, 1, [2], [1, 2])])
            els = next(it)
            body2 = helper.make_graph([helper.make_node("Neg", [x], [els], name=next(it))], next(it), [], [helper.make_tensor_value_info(els, 1, [2])])
            cond = next(it)
            m = helper.make_model(helper.make_graph([helper.make_node("Add", [x, k], [y], name=next(it)), helper.make_node("If", [cond], [z], name=next(it), then_branch=body, else_branch=body2)],
                                                    next(it), [helper.make_tensor_value_info(x, 1, [2]), helper.make_tensor_value_info(cond, 9, [])],
                                                    [helper.make_tensor_value_info(n, 1, [2]) for n in (y, z)], [helper.make_tensor(k, 1, [2], [1, 2])]),
                                  opset_imports=[helper.make_opsetid("", 13)])
            g, l = record(lambda: GraphUtil.create_graph_from_onnx_model(m))
            l = [{"k": "load", "n": sorted(all_names(m.graph))}] + [e for e in l if e["k"] == "gen"]
        else:
            x, y = next(it), next(it)
            ns = [helper.make_node("Placeholder", [], [x], name=next(it)), helper.make_node("Neg", [x], [y], name=next(it))]
            g, l = record(lambda: Graph(ns, output_shapes={x: [2], y: [2]}, dtypes={x: 1, y: 1}, output_names=[]))
            g2, l2 = g, []
            if rng.rand() < .5:
                for _ in range(2):
                    n = next(it)
                    g.make_node("Abs", [y], name=n, outputs=[next(it)], shapes=[[2]], dtypes=[1]) if rng.rand() < .5 else g.make_const(n, np.zeros(2, np.float32))
                l = l + []
        log += l
        _, l = record(lambda: [utils.make_name(stems[q % len(stems)]) for q in range(60)])
        log += l
    return [{"id": "d%d" % j, "log": log}]

def tf_differs(tf_check, prog, a, b):
    feeds = [prog.feeds(k) for k in range(2)]
    n = len(a.graph.output)
    for (ea, xa), (eb, xb) in zip(tf_check.run_converted(a, prog, feeds, n), tf_check.run_converted(b, prog, feeds, n)):
        if not ea and (eb or xa != xb):
            return eb or "outputs"
    return ""

def tf_case(j):
    import tf_check, C01, C02
    tf_check.setup()
    mod = (C01, C02)[j % 2]
    prog = None
    for att in range(20):
        try:
            prog, _ = tf_check.make_prog("G03t", mod.gen, j, att)
            outs = prog.outputs(4)
            break
        except Exception:
            prog = None
    if prog is None:
        return []
    rng = rng_for("G03t2", j)
    opset = int(rng.choice([9, 11, 13, 18]))
    names = {}
    orig = prog.call

    def call(op, args, attrs, get):
        k = len(seen)
        seen.append(op)
        attrs = dict(attrs or {})
        if k in names:
            attrs["name"] = names[k]
        return orig(op, args, attrs, get)
    prog.call = call
    cases, res, base = [], None, None
    for v in range(3):
        seen = []
        now = counter()
        if v:
            pool = [shift(n, now - base) for n in gen]
            pool = [n for n in dict.fromkeys(pool) if re.fullmatch(r"[A-Za-z0-9.][A-Za-z0-9_.\\/>-]*", n) and NUM.search(n)]
            if not pool:
                break
            names = {k: pool[i] for k, i in zip(rng.permutation(count), rng.permutation(len(pool)))}
        try:
            f, sig = prog.function(outs)
            with_log = lambda: tf2onnx.convert.from_function(f, input_signature=sig, opset=opset)[0]
            r, log = record(with_log)
            err = ""
            if v:
                d = canon.model_diff(res, r)
                if d:
                    d = tf_differs(tf_check, prog, res, r)
                err = "" if not d else "result differs: " + d
        except Exception as e:
            if v == 0:
                return []
            err, log = "raises %s: %s" % (type(e).__name__, str(e)[:150]), []
        if v == 0:
            res, base, count = r, now, len(seen)
            gen = list(dict.fromkeys([n for e in log if e["k"] != "load" for n in e["n"]]))
            gen += [n[:-2] for n in gen if n.endswith(":0")]
        cases.append({"id": "t%d.%d" % (j, v), "log": log, "_err": err, "_kind": "converting"})
    return cases

def work(it):
    hook()
    mbt.phase("x")
    return [c for j in range(*it[1:]) for c in {"o": onnx_case, "d": direct_case, "t": tf_case}[it[0]](j)]

def main():
    import tf_check, C01, C02
    chk = Check("G03", META[1])
    q = TIER == "quick"
    _, st = run_tlc("Names", cfg="INIT Init\nNEXT Next\nINVARIANT Fresh Room\n", consts={"Stems": '{"a", "b"}', "MaxNum": "3" if q else "4", "Careful": "TRUE"})
    if not tlc_ok(st):
        raise RuntimeError(st["out"][-3000:])
    n = int(os.environ.get("NN", 0)) or (700 if q else 9000)
    t0 = time.time()
    items = []
    for lo in range(0, n, 20):
        items += [("t", lo // 4, lo // 4 + 5), ("o", lo, lo + 20), ("d", lo // 2, lo // 2 + 10)]
    cases = [c for l in pool_map(work, items, deadline=t0 + (120 if q else 600), on_crash=lambda c: []) for c in l]
    byid = {c["id"]: c for c in cases}
    for c in cases:
        if c.get("_err"):
            chk.violation("%s:%s" % (c["_kind"], re.sub(r"[\d]+", "#", c["_err"])[:60]), "case %s: %s a model that carries names the converter is about to generate: %s" % (c["id"], c["_kind"], c["_err"]), c)
    states = ok = 0
    for lo in range(0, len(cases), 4000):
        lines, s2 = run_tlc("NamesTrace", [{k: v for k, v in c.items() if k[0] != "_"} for c in cases[lo:lo + 4000]])
        if not tlc_ok(s2):
            raise RuntimeError(s2["out"][-3000:])
        states += s2["states"]
        for l in lines:
            p = l.split("|")
            ok += p[0] in ("OK", "BAD")
            if p[0] == "BAD":
                chk.violation("generated name in use", "case %s: the generated name %s was already in use" % (p[1], p[2]), byid[p[1]])
    if ok != len(cases):
        raise RuntimeError("%d of %d judged" % (ok, len(cases)))
    for c in cases[:: max(1, len(cases) // 6)]:
        chk.sample({"id": c["id"], "log": c["log"][:8]})
    return chk.finish({"states": st["distinct"] + states, "transitions": st["states"] + states, "traces_validated_against_impl": len(cases),
                       "names_generated": sum(1 for c in cases for e in c["log"] if e["k"] == "gen"), "renamed_models_compared": sum(1 for c in cases if "_kind" in c)})
