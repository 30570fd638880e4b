"""G02: sorting and exporting real graphs under different listings of their nodes, judged by GraphTopo.tla."""
import os, sys, json, time, itertools
import mbt
from mbt import rng_for, run_tlc, tlc_ok, Check, pool_map, TIER
import logging
logging.disable(logging.CRITICAL)
sys.path.insert(0, os.environ.get("VERIF_REPO", "/repo"))
from tf2onnx.graph import Graph, GraphUtil
from tf2onnx import utils
from onnx import TensorProto

META = ("TLA+ specification of dependency order in graphs with nested bodies (GraphTopo.tla over GraphIR.tla); orders returned by the real sorts and exports for several listings of the same graph are judged by TLC",
        "exploration", "all graphs of 3 nodes with direct and captured edges, all dependency tables of 4 items, random graphs of up to 14 nodes with bodies on three levels")

OPS = ["Identity", "Neg", "Sum", "Custom"]

class B:
    """builds a random real graph with bodies; edges may be closed to cycles by rewiring"""
    def __init__(self, rng):
        self.rng, self.n, self.gs = rng, 0, []
    def name(self):
        # names whose string order has nothing to do with the dependency order, sometimes equal in different graphs
        self.n += 1
        if self.clash and self.rng.rand() < .5:
            return self.rng.choice(["a", "b", "c", "d", "e"])
        return "%s%d" % (self.rng.choice(["n", "N", "z/", "a__", "_"]), self.rng.randint(1000) * 100 + self.n)
    def graph(self, parent, depth, outer):
        rng = self.rng
        if parent is None:
            g = Graph([], output_shapes={}, dtypes={}, opset=13, output_names=[])
        else:
            g = parent.create_new_graph_with_same_config()
            g.parent_graph = parent
            g.outputs = []
        self.gs.append(g)
        ts = []
        for _ in range(rng.randint(1, 3) if parent is None else rng.randint(0, 2)):
            nm = "in%d" % self.n
            self.n += 1
            g.add_graph_input(nm, TensorProto.FLOAT, [2])
            ts.append(nm)
        for _ in range(rng.randint(1, 9) if parent is None else rng.randint(1, 5)):
            nm = self.name()
            if g.get_node_by_name(nm):
                continue
            self.n += 1
            no = 1 + (rng.rand() < .2)
            outs = ["t%d_%d" % (self.n, k) for k in range(no)]
            if self.clash and depth:      # bodies next to each other may use the same names inside
                outs = ["s%d_%d_%d" % (depth, len(g.get_nodes()), k) for k in range(no)]
            if rng.rand() < .12:
                import numpy as np
                c = g.make_const(nm, np.array([1., 2.], np.float32))
                ts.append(c.output[0])
                continue
            br = {}
            src = ts + outer
            if depth < 2 and rng.rand() < .35:
                for k in range(rng.randint(1, 3)):
                    br["body%d" % k] = self.graph(g, depth + 1, ts + outer)
            ins = [src[rng.randint(len(src))] for _ in range(rng.randint(0, 3))] if src else []
            if ins and rng.rand() < .1:
                ins.append("")
            if not br and not ins:
                ins = ["dummy"]
            op = "If" if br else OPS[rng.randint(4)]
            ins = [i for i in ins if i != "dummy"]
            if op != "If" and not [i for i in ins if i]:
                op = "RandomNormal"
            g.make_node(op, ins, name=nm, outputs=outs, shapes=[[2]] * no, dtypes=[TensorProto.FLOAT] * no, branches=br,
                        domain="custom" if op == "Custom" else "")
            ts += outs
        for t in [ts[k] for k in rng.permutation(len(ts))[:1 + rng.randint(2)]] if ts else []:
            g.add_graph_output(t, TensorProto.FLOAT, [2])
        return g
    def close(self):
        """turn some input, possibly inside a body, to a tensor produced anywhere in scope: may close a cycle"""
        rng = self.rng
        g = self.gs[rng.randint(len(self.gs))]
        ns = [n for n in g.get_nodes() if [i for i in n.input if i]]
        if not ns:
            return
        n = ns[rng.randint(len(ns))]
        ks = [k for k, i in enumerate(n.input) if i]
        k = ks[rng.randint(len(ks))]
        scope, h = [], g
        while h is not None:
            scope += [o for m in h.get_nodes() for o in m.output]
            h = h.parent_graph
        g.replace_input(n, n.input[k], scope[rng.randint(len(scope))], k)

def dump(main):
    """the family of graphs as GraphIR sees it"""
    out, todo, ids = {}, [main], {}
    def gid(g):
        if id(g) not in ids:
            ids[id(g)] = str(len(ids))
            todo.append(g)
        return ids[id(g)]
    gid(main)
    done = set()
    keep = {}
    while todo:
        g = todo.pop()
        if id(g) in done:
            continue
        done.add(id(g))
        keep[ids[id(g)] if id(g) in ids else gid(g)] = g
        nodes = []
        for n in g.get_nodes():
            b = g.contained_graphs.get(n.name) or {}
            nodes.append({"n": n.name, "i": list(n.input), "o": list(n.output), "b": [gid(x) for x in b.values()]})
        out[ids[id(g)]] = {"nodes": nodes}
    return out, keep

def sorts(main, rng, reps):
    gs, keep = dump(main)
    runs = []
    for r in range(reps):
        for k in sorted(keep):
            g = keep[k]
            ns = sorted(g.get_nodes(), key=lambda n: n.name)
            ns = [ns[j] for j in rng.permutation(len(ns))]
            g.reset_nodes(ns)
        for k in sorted(keep):
            g = keep[k]
            try:
                g.topological_sort(g.get_nodes())
                runs.append({"how": "sort", "g": k, "err": False, "order": [n.name for n in g.get_nodes()]})
            except ValueError:
                runs.append({"how": "sort", "g": k, "err": True, "order": []})
    return gs, runs

def flat(gp):
    """exported graph -> graphs in GraphIR form and the listed orders"""
    out, runs = {}, []
    def walk(p, k):
        nodes, order = [], []
        out[k] = {"nodes": nodes}
        for j, n in enumerate(p.node):
            bs = []
            for a in n.attribute:
                if a.HasField("g"):
                    b = "%s.%s.%s" % (k, n.name, a.name)
                    walk(a.g, b)
                    bs.append(b)
            nodes.append({"n": n.name, "i": list(n.input), "o": list(n.output), "b": bs})
            order.append(n.name)
        runs.append({"how": "export", "g": k, "err": False, "order": order})
    walk(gp, "x")
    return out, runs

def rnd(i):
    rng = rng_for("G02", i)
    b = B(rng)
    b.clash = rng.rand() < .4
    main = b.graph(None, 0, [])
    for _ in range(rng.choice([0, 0, 1, 2, 3])):
        b.close()
    res = []
    gs, runs = sorts(main, rng, 4)
    res.append({"kind": "graph", "graphs": gs, "runs": runs})
    if not any(r["err"] for r in runs) and main.outputs:
        # exports of two listings: valid, and equal
        runs, out = [], None
        for r in range(2):
            for g in b.gs:
                ns = list(g.get_nodes())
                g.reset_nodes([ns[j] for j in rng.permutation(len(ns))])
            try:
                m = main.make_model("x")
            except Exception as e:
                runs.append({"how": "export", "g": "x", "err": True, "order": [repr(e)[:200]]})
                continue
            o, rr = flat(m.graph)
            out = out or o
            runs += rr
        if out:
            res.append({"kind": "graph", "graphs": out, "runs": runs})
    return res

NM = ["m", "k", "z"]
def small(j):
    """three nodes, every ordered pair (also with itself) unconnected, directly connected or connected through a body"""
    e = []
    for _ in range(9):
        e.append(j % 3)
        j //= 3
    g = Graph([], output_shapes={}, dtypes={}, opset=13, output_names=[])
    nodes = []
    for x in range(3):
        ins = ["t%d" % y for y in range(3) if e[3 * x + y] == 1]
        cap = ["t%d" % y for y in range(3) if e[3 * x + y] == 2]
        br = {}
        if cap:
            b = g.create_new_graph_with_same_config()
            b.parent_graph = g
            b.outputs = []
            b.make_node("Foo", cap, name="m", outputs=["i%d" % x], shapes=[[1]], dtypes=[1], domain="custom", infer_shape_dtype=False)
            br = {"then_branch": b}
        nodes.append(g.make_node("If" if cap else "Foo", ins, name=NM[x], outputs=["t%d" % x], shapes=[[1]], dtypes=[1], branches=br, domain="custom",
                                 infer_shape_dtype=False))
    gs, _ = dump(g)
    runs = []
    for p in itertools.permutations(nodes):
        g.reset_nodes(list(p))
        try:
            g.topological_sort(g.get_nodes())
            runs.append({"how": "sort", "g": "0", "err": False, "order": [n.name for n in g.get_nodes()]})
        except ValueError:
            runs.append({"how": "sort", "g": "0", "err": True, "order": []})
    u = []
    for r in runs:
        if r not in u:
            u.append(r)
    return [{"kind": "graph", "graphs": gs, "runs": u}]

def table(j):
    """dependency tables of the tflite / tfjs readers"""
    rng = rng_for("G02t", j)
    if j < 4096:      # all tables of 4 items without self-dependency
        bits, keys = j, ["a", "b", "c", "d"]
        pairs = [(x, y) for x in range(4) for y in range(4) if x != y]
        t = {k: [] for k in keys}
        for b, (x, y) in enumerate(pairs):
            if bits >> b & 1:
                t[keys[x]].append(keys[y])
    else:
        keys = ["k%d" % k for k in range(rng.randint(1, 9))]
        t = {k: [] for k in keys}
        rank = rng.permutation(len(keys))
        for x in range(len(keys)):
            for y in range(len(keys)):
                if rng.rand() < .25 and (rank[x] < rank[y] or rng.rand() < .05):
                    t[keys[x]] += [keys[y]] * (1 + (rng.rand() < .2))
    for k in t:
        rng.shuffle(t[k])
    order = list(t)
    rng.shuffle(order)
    arg = {k: list(t[k]) for k in order}
    try:
        r = {"err": False, "order": utils.topological_sort(arg)}
    except ValueError:
        r = {"err": True, "order": []}
    return [{"kind": "table", "table": t, "run": r}]

def work(it):
    k, lo, hi, step = it
    f = {"s": small, "r": rnd, "t": table}[k]
    out = []
    for j in range(lo, hi, step):
        for q, c in enumerate(f(j)):
            c["id"] = "%s%d.%d" % (k, j, q)
            out.append(c)
    return out

def main():
    chk = Check("G02", META[1])
    quick = TIER == "quick"
    sstep = 7 if quick else 1
    items = [("s", lo + (mbt.SEED % sstep), min(19683, lo + 700), sstep) for lo in range(0, 19683, 700)]
    nr = 3000 if quick else 60000
    items += [("r", lo, min(nr, lo + 100), 1) for lo in range(0, nr, 100)]
    nt = 4096 + (2000 if quick else 30000)
    items += [("t", lo, min(nt, lo + 500), 1) for lo in range(0, nt, 500)]
    t0 = time.time()
    cases = [c for l in pool_map(work, items, deadline=t0 + (60 if quick else 500)) for c in l]
    bad, states, ok = {}, 0, 0
    byid = {c["id"]: c for c in cases}
    for lo in range(0, len(cases), 20000):
        lines, st = run_tlc("GraphTopo", cases[lo:lo + 20000])
        if not tlc_ok(st):
            raise RuntimeError(st["out"][-3000:])
        states += st["states"]
        for l in lines:
            p = l.split("|")
            if p[0] == "OK":
                ok += 1
            elif p[0] == "BAD":
                bad[p[1]] = p[2:]
    if ok + len(bad) != len(cases):
        raise RuntimeError("only %d of %d cases judged" % (ok + len(bad), len(cases)))
    for i in sorted(bad):
        chk.violation("%s:%s" % (bad[i][1], bad[i][0]), "case %s: %s" % (i, bad[i][0]), byid[i])
    cyc = sum(1 for c in cases if c["kind"] == "graph" and any(r["err"] for r in c["runs"]) or c["kind"] == "table" and c["run"]["err"])
    bodies = sum(1 for c in cases if c["kind"] == "graph" and len(c["graphs"]) > 1)
    for c in cases[:: max(1, len(cases) // 10)]:
        chk.sample(c)
    return chk.finish({"evaluations": sum(len(c["runs"]) if c["kind"] == "graph" else 1 for c in cases), "distinct_nontrivial": len({json.dumps([c.get("graphs"), c.get("table")]) for c in cases}),
                       "rule": "sorts and exports of distinct graphs or dependency tables, each under several listings", "cases_with_cycle": cyc, "cases_with_bodies": bodies, "tlc_states": states})
