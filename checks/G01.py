"""G01: histories of editing calls on real graphs, validated step by step against GraphIR.tla."""
import os, sys, json, time
import mbt
from mbt import rng_for, run_tlc, tlc_ok, Check, pool_map, TIER
import logging
logging.disable(logging.CRITICAL)
sys.path.insert(0, os.environ.get("VERIF_REPO", "/repo"))
from tf2onnx.graph import Graph, GraphUtil
from tf2onnx import utils
import numpy as np

META = ("TLA+ specification of the graph container (GraphIR.tla); recorded histories of editing calls on real graphs are checked step by step by TLC (GraphTrace.tla)",
        "exploration", "random histories of 12-40 calls on a main graph with nested bodies; every lookup is compared after every call")

def js(v):
    return "null" if v is None else json.dumps(v)

class Drv:
    """Performs calls on real graphs, chosen from what the graphs hold, and records them."""
    def __init__(self, rng):
        self.rng = rng
        self.gs = {}
        self.alive = set()
        self.ids = {}
        self.names, self.tensors = {}, {}     # per graph id: universe of the queries
        self.steps = []
        self.cnt = 0
        self.gone = set()                     # tensors whose name was taken off a node: not used again
        self.new_graph("0")

    def fresh(self, p):
        self.cnt += 1
        return "%s%d" % (p, self.cnt)

    def new_graph(self, gid):
        if gid == "0":
            g = Graph([], output_shapes={}, dtypes={}, opset=13, output_names=[])
        else:
            g = self.gs["0"].create_new_graph_with_same_config()
            g.outputs = []
        self.gs[gid] = g
        self.ids[id(g)] = gid
        self.alive.add(gid)
        self.names[gid], self.tensors[gid] = set(), set()
        return g

    def pick(self, l):
        l = list(l)
        return l[self.rng.randint(len(l))]

    def ch(self, p):
        return self.rng.rand() < p

    # ---- observations
    def gid(self, g):
        return self.ids.get(id(g), "?")

    def bodies_of(self, n):
        b = n.graph.contained_graphs.get(n.name)
        return [self.gid(x) for x in b.values()] if b else []

    def scope(self, gid):
        """tensors of a graph and those visible from outside"""
        t = set()
        g = self.gs[gid]
        while g is not None:
            t |= self.tensors[self.gid(g)]
            g = g.parent_graph
        return t

    def obs(self):
        res = []
        for gid in sorted(self.alive):
            g = self.gs[gid]
            nodes = [{"n": n.name, "t": n.type, "i": list(n.input), "o": list(n.output), "b": self.bodies_of(n)} for n in g.get_nodes()]
            byname = []
            for nm in sorted(self.names[gid]):
                n = g.get_node_by_name(nm)
                byname.append([nm, "" if n is None else (n.name if any(n is x for x in g.get_nodes()) else "stale node")])
            ts = []
            for t in sorted(self.scope(gid)):
                p = g.get_node_by_output(t)
                pc = g.get_node_by_output(t, search_in_parent_graphs=False)
                pg = self.gid(p.graph) if p is not None else ""
                if p is not None and not any(p is x for x in self.gs.get(pg, g).get_nodes()):
                    pg = "stale"
                if (pc is not None) != (p is not None and pg == gid):
                    pg = "current lookup differs"
                ts.append({"t": t, "p": [pg, p.name if p is not None else ""],
                           "c": [[self.gid(c.graph), c.name] for c in g.find_output_consumers(t)],
                           "s": js(g.get_shape(t)), "d": js(g.get_dtype(t))})
            res.append({"g": gid, "nodes": nodes, "outs": list(g.outputs), "ins": [n.name for n in g.inputs],
                        "byname": byname, "ts": ts})
        return res

    def refresh_universe(self):
        # bodies of removed nodes are no longer part of anything
        for gid in list(self.alive):
            g = self.gs[gid]
            if gid == "0" or g.parent_graph is None:
                continue
            pg = self.gid(g.parent_graph)
            if pg not in self.alive or not any(any(b is g for b in bs.values()) for bs in g.parent_graph.contained_graphs.values()):
                self.alive.discard(gid)
        for gid in self.alive:
            for n in self.gs[gid].get_nodes():
                self.names[gid].add(n.name)
                self.tensors[gid].update(t for t in list(n.output) + list(n.input) if t)

    def do(self, rec, fn, ret=None):
        err, r = False, "-"
        try:
            v = fn()
            if ret:
                r = ret(v)
        except Exception as e:
            err = True
            rec["exc"] = "%s: %s" % (type(e).__name__, str(e)[:80])
        self.refresh_universe()
        rec["err"], rec["ret"] = err, r
        rec["rs"] = rec.get("rs", [])
        rec["obs"] = self.obs()
        self.steps.append(rec)
        return err

    # ---- vocabulary
    def nodes(self, gid):
        return list(self.gs[gid].get_nodes())

    def some_tensor(self, gid, own=False):
        g = self.gs[gid]
        c = {t for n in self.nodes(gid) for t in n.output if t}
        if not own:
            p = g.parent_graph
            while p is not None:
                c |= {t for n in p.get_nodes() for t in n.output if t}
                p = p.parent_graph
        c = sorted(c)
        return self.pick(c) if c else None

    def uses(self, gid, n=None):
        return sorted({t for x in self.nodes(gid) for t in x.input if t})

    def visible_above(self, gid):
        s, p = set(), self.gs[gid].parent_graph
        while p is not None:
            s |= {t for n in p.get_nodes() for t in n.output}
            p = p.parent_graph
        return s

    def below(self, gid):
        s = set()
        for n in self.nodes(gid):
            for b in self.bodies_of(n):
                s |= {t for m in self.nodes(b) for t in m.output} | self.below(b)
        return s

    def depth(self, gid):
        d, g = 0, self.gs[gid]
        while g.parent_graph is not None:
            d, g = d + 1, g.parent_graph
        return d

    def produces_under(self, gid, t):
        """does a body below produce t itself"""
        return t in self.below(gid)

    def out_names(self, gid, name, cnt):
        r = self.rng.rand()
        if r < .12:
            # a name used before somewhere (freed, or in a sibling body), a duplicate now and then
            c = sorted(t for t in set().union(*self.tensors.values()) if t not in self.gone)
            if c:
                t = self.pick(c)
                if t not in self.visible_above(gid) and t not in self.below(gid):
                    return [t] + ["%s:%d" % (name, i) for i in range(1, cnt)]
        return ["%s:%d" % (name, i) for i in range(cnt)]

    def shape(self):
        return [int(x) for x in self.rng.randint(1, 4, size=self.rng.randint(0, 3))]

    # ---- calls
    def make_node(self, gid):
        g = self.gs[gid]
        name = self.fresh("n") if self.ch(.9) or not self.names[gid] else self.pick(sorted(self.names[gid]))
        cnt = 1 if self.ch(.75) else 2
        outs = self.out_names(gid, name, cnt)
        ins = [t for t in (self.some_tensor(gid) for _ in range(self.rng.randint(0, 4))) if t and t not in outs]
        if ins and self.ch(.2):
            ins.append(ins[0])
        if self.ch(.06):
            ins.append("")
        if self.ch(.05):
            ins.append(self.fresh("missing"))
        bodies = []
        if self.depth(gid) < 2 and self.ch(.35):
            free = [b for b in self.alive if b != "0" and self.gs[b].parent_graph is None and b != gid and self.attachable(gid, b)]
            for b in free[:2]:
                if not (set(outs) & ({t for m in self.nodes(b) for t in m.output} | self.below(b))):
                    bodies.append(b)
        shapes = [self.shape() for _ in outs] if bodies or self.ch(.6) else []
        dtypes = [int(self.rng.choice([1, 7])) for _ in outs] if bodies or self.ch(.6) else []
        rec = {"op": "make_node", "g": gid, "name": name, "type": "MyIf" if bodies else "MyOp", "ins": ins, "outs": outs, "bodies": bodies,
               "shapes": [js(s) for s in shapes], "dtypes": [js(d) for d in dtypes]}
        before = g.get_node_by_name(name) is None and not any(g.get_node_by_output_in_current_graph(o) for o in outs)
        if bodies and not before:
            return self.make_node(gid) if self.ch(.5) else None
        self.do(rec, lambda: g.make_node(rec["type"], list(ins), outputs=list(outs), name=name, shapes=shapes or None, dtypes=dtypes or None,
                                         branches={"b%d" % i: self.gs[b] for i, b in enumerate(bodies)}))

    def attachable(self, gid, b):
        own = {t for m in self.nodes(b) for t in m.output} | self.below(b)
        vis = self.visible_above(gid) | {t for n in self.nodes(gid) for t in n.output}
        # the body to be attached must not contain gid
        return not (own & vis) and gid not in self.subtree(b)

    def subtree(self, gid):
        s = {gid}
        for n in self.nodes(gid):
            for b in self.bodies_of(n):
                s |= self.subtree(b)
        return s

    def new_body(self, gid):
        if len(self.alive) >= 5:
            return
        b = self.fresh("g")
        self.do({"op": "new_graph", "g": b}, lambda: self.new_graph(b))
        for _ in range(self.rng.randint(0, 3)):
            self.make_node(b)

    def set_body(self, gid):
        free = [b for b in self.alive if b != "0" and self.gs[b].parent_graph is None and b != gid and self.attachable(gid, b)]
        ns = self.nodes(gid)
        if free and ns and self.depth(gid) < 2:
            b, n = self.pick(sorted(free)), self.pick(ns)
            k = "s%d" % len(self.steps)
            self.do({"op": "set_body", "g": gid, "name": n.name, "body": b}, lambda: n.set_body_graph_as_attr(k, self.gs[b]))

    def remove_node(self, gid):
        nm = self.pick([n.name for n in self.nodes(gid)] + sorted(self.names[gid])[:1] + ["nothing"])
        self.do({"op": "remove_node", "g": gid, "name": nm}, lambda: self.gs[gid].remove_node(nm))

    def replace_input(self, gid):
        ns = [n for n in self.nodes(gid) if n.input]
        if not ns:
            return
        n = self.pick(ns)
        new = self.some_tensor(gid)
        if not new or new in n.output:
            return
        k = self.rng.randint(len(n.input))
        old = n.input[k]
        if self.ch(.5):
            if self.ch(.1):
                old = self.pick(sorted(self.scope(gid)))
            idx = k
            self.do({"op": "replace_input", "g": gid, "name": n.name, "old": old, "new": new, "idx": k + 1},
                    lambda: self.gs[gid].replace_input(n, old, new, idx), str)
        else:
            if self.ch(.15):
                old = self.pick(sorted(self.scope(gid)))
            self.do({"op": "replace_input", "g": gid, "name": n.name, "old": old, "new": new, "idx": 0},
                    lambda: self.gs[gid].replace_input(n, old, new), str)

    def replace_inputs(self, gid):
        ns = self.nodes(gid)
        if not ns:
            return
        n = self.pick(ns)
        ins = [t for t in (self.some_tensor(gid) for _ in range(self.rng.randint(0, 4))) if t and t not in n.output]
        if n.input and self.ch(.5):
            ins = ins[:1] + [n.input[self.rng.randint(len(n.input))]]
        self.do({"op": "replace_inputs", "g": gid, "name": n.name, "ins": list(ins)}, lambda: self.gs[gid].replace_inputs(n, list(ins)))

    def remove_input(self, gid):
        ns = [n for n in self.nodes(gid) if n.input]
        if not ns:
            return
        n = self.pick(ns)
        k = self.rng.randint(len(n.input))
        t = n.input[k]
        idx = k if self.ch(.5) else None
        self.do({"op": "remove_input", "g": gid, "name": n.name, "old": t, "idx": 0 if idx is None else k + 1},
                lambda: self.gs[gid].remove_input(n, t, idx))

    def replace_all_inputs(self, gid):
        us = self.uses(gid)
        own = sorted({t for n in self.nodes(gid) for t in n.output if t})
        if not (us or own):
            return
        old = self.pick(own) if own and self.ch(.6) else self.pick(us or own)
        new = self.some_tensor(gid)
        if not new:
            return
        if any(old in m.input and new in m.output for b in self.subtree(gid) - {gid} for m in self.nodes(b)):
            return
        ops = None
        if self.ch(.45):
            ops = [n for n in self.nodes(gid) if self.ch(.6)]
        self.do({"op": "replace_all_inputs", "g": gid, "old": old, "new": new, "all": ops is None, "names": [n.name for n in ops or []]},
                lambda: self.gs[gid].replace_all_inputs(old, new, ops=ops))

    def insert_on_input(self, gid):
        ns = [n for n in self.nodes(gid) if n.input and n.input[0]]
        if not ns:
            return
        n = self.pick(ns)
        k = self.rng.randint(len(n.input))
        t = n.input[k]
        if not t:
            return
        name = self.fresh("i") if self.ch(.9) else n.name
        idx = k if self.ch(.4) else None
        ins = [t] + ([u] if self.ch(.2) and (u := self.some_tensor(gid)) else [])
        self.do({"op": "insert_new_node_on_input", "g": gid, "name": n.name, "type": "MyOp", "ins": ins, "name2": name, "idx": 0 if idx is None else k + 1},
                lambda: self.gs[gid].insert_new_node_on_input(n, "MyOp", ins if len(ins) > 1 or self.ch(.3) else t, name=name, input_index=idx))

    def insert_on_output(self, gid):
        t = self.some_tensor(gid, own=self.ch(.8))
        if not t:
            return
        if self.ch(.75):
            name = self.fresh("o")
            self.do({"op": "insert_new_node_on_output", "g": gid, "t": t, "type": "MyOp", "name2": name, "ins": [t]},
                    lambda: self.gs[gid].insert_new_node_on_output("MyOp", t, name=name))
        else:
            ns = [n for n in self.nodes(gid) if n.output and t not in n.output]
            if ns:
                n = self.pick(ns)
                if any(t in m.input and n.output[0] in m.output for b in self.subtree(gid) for m in self.nodes(b) if m is not n):
                    return
                self.do({"op": "insert_node_on_output", "g": gid, "t": t, "name": n.name}, lambda: self.gs[gid].insert_node_on_output(n, t))

    def rename(self, gid):
        own = sorted({t for n in self.nodes(gid) for t in n.output if t})
        if not own or gid != "0" and self.ch(.5):
            return
        k = self.rng.permutation(len(own))[:self.rng.randint(1, 3)]
        src = [own[i] for i in k]
        if len(src) == 2 and self.ch(.4):
            dst = src[::-1]
        else:
            dst = [self.fresh("r") for _ in src]
        m = dict(zip(src, dst))
        self.do({"op": "rename_tensors", "g": gid, "map": [list(p) for p in m.items()]}, lambda: self.gs[gid].rename_tensors(m))

    def change_name(self, gid):
        ns = [n for n in self.nodes(gid) if n.type == "MyOp" or n.type == "MyIf"]
        if ns:
            n = self.pick(ns)
            nm = self.fresh("c") if self.ch(.85) else self.pick([x.name for x in ns])
            self.do({"op": "change_node_name", "g": gid, "name": n.name, "name2": nm}, lambda: self.gs[gid].change_node_name(n, nm))

    def set_outputs(self, gid):
        ns = [n for n in self.nodes(gid) if n.output]
        if ns:
            n = self.pick(ns)
            outs = list(n.output)
            k = self.rng.randint(len(outs))
            if self.produces_under(gid, outs[k]):
                return
            self.gone.add(outs[k])
            outs[k] = self.fresh("w")
            self.do({"op": "set_outputs", "g": gid, "name": n.name, "outs": list(outs)}, lambda: setattr(n, "output", list(outs)))

    def add_input(self, gid):
        g = self.gs[gid]
        t = self.fresh("in") if self.ch(.85) else (self.some_tensor(gid, own=True) or self.fresh("in"))
        dt, sh = int(self.rng.choice([1, 7])), self.shape()
        before = {n.name for n in g.get_nodes()}
        rec = {"op": "add_graph_input", "g": gid, "t": t, "dtype": js(dt), "shape": js(sh), "name": "?"}
        self.do(rec, lambda: g.add_graph_input(t, dt, sh))
        new = [n.name for n in g.get_nodes() if n.name not in before]
        rec["name"] = new[0] if new else "?"

    def add_input_default(self, gid):
        """an input with a default: the value is a node nothing uses yet"""
        g = self.gs[gid]
        used = {x for h in self.gs.values() for n in h.get_nodes() for x in n.input} | {o for h in self.gs.values() for o in h.outputs}
        free = [n for n in self.nodes(gid) if len(n.output) == 1 and n.output[0] not in used and not n.get_body_graphs() and n not in g.inputs]
        if not free:
            return
        c = self.pick(free)
        t, dt, sh = self.fresh("in"), int(self.rng.choice([1, 7])), self.shape()
        before = {n.name for n in g.get_nodes()}
        rec = {"op": "add_graph_input_with_default", "g": gid, "t": t, "dtype": js(dt), "shape": js(sh), "name": "?", "const": c.name, "ct": "?"}
        def f():
            g.add_graph_input_with_default(t, c, dt, sh)
            rec["name"] = [n.name for n in g.get_nodes() if n.name not in before][0]
            rec["ct"] = c.output[0]
        self.do(rec, f)

    def add_output(self, gid):
        t = self.some_tensor(gid, own=True) if self.ch(.9) else "nothing"
        if not t:
            return
        dt, sh = (None, None) if self.ch(.4) else (1, self.shape())
        self.do({"op": "add_graph_output", "g": gid, "t": t, "dtype": js(dt), "shape": js(sh)}, lambda: self.gs[gid].add_graph_output(t, dt, sh))

    def set_sd(self, gid):
        t = self.some_tensor(gid) if self.ch(.95) else "nothing"
        if not t:
            return
        r = self.rng.randint(3)
        if r == 0:
            v = self.shape()
            self.do({"op": "set_shape", "g": gid, "t": t, "v": js(v)}, lambda: self.gs[gid].set_shape(t, v))
        elif r == 1:
            v = int(self.rng.choice([1, 6, 7]))
            self.do({"op": "set_dtype", "g": gid, "t": t, "v": js(v)}, lambda: self.gs[gid].set_dtype(t, v))
        else:
            u = self.some_tensor(gid) or t
            self.do({"op": "copy_shape", "g": gid, "t": t, "old": u}, lambda: self.gs[gid].copy_shape(u, t))

    def safe_remove(self, gid):
        ns = [n for n in self.nodes(gid) if self.ch(.35)]
        if not ns:
            return
        if self.ch(.3):
            rec = {"op": "safe_to_remove_nodes", "g": gid, "names": [n.name for n in ns]}
            self.do(rec, lambda: rec.update(rs=[n.name for n in self.gs[gid].safe_to_remove_nodes(ns)]))
        elif self.ch(.5):
            self.do({"op": "safe_remove_nodes", "g": gid, "names": [n.name for n in ns]}, lambda: self.gs[gid].safe_remove_nodes(ns))
        else:
            ign = [t for n in ns for t in n.output if self.ch(.2)]
            self.do({"op": "is_safe_to_remove_nodes", "g": gid, "names": [n.name for n in ns], "ignore": ign},
                    lambda: self.gs[gid].is_safe_to_remove_nodes(ns, ign), str)

    def order_ops(self, gid):
        g = self.gs[gid]
        if self.ch(.5):
            p = self.rng.permutation(len(self.nodes(gid)))
            ns = [self.nodes(gid)[i] for i in p]
            if all(o in {t for n in ns for t in n.output} for o in g.outputs):
                self.do({"op": "reset_nodes", "g": gid}, lambda: g.reset_nodes(ns))
        elif gid == "0" and g.outputs and all(g.get_node_by_output_in_current_graph(o) for o in g.outputs):
            outs = list(g.outputs)
            if all(all(self.gs[b].get_node_by_output_in_current_graph(o) for o in self.gs[b].outputs) for b in self.subtree(gid)):
                self.do({"op": "delete_unused_nodes", "g": gid, "outs": outs}, lambda: g.delete_unused_nodes(outs))

OPS = [("make_node", 6), ("new_body", 1.5), ("set_body", 1), ("remove_node", 2), ("replace_input", 3), ("replace_inputs", 1.5), ("remove_input", 1.5),
       ("replace_all_inputs", 3), ("insert_on_input", 2), ("insert_on_output", 3), ("rename", 1.2), ("change_name", 1), ("set_outputs", .8),
       ("add_input", 1), ("add_input_default", .5), ("add_output", 1), ("set_sd", 1.5), ("safe_remove", 1.2), ("order_ops", 1)]
NAMES, W = [a for a, _ in OPS], np.array([b for _, b in OPS]) / sum(b for _, b in OPS)

def history(i):
    rng = rng_for("G01", i)
    d = Drv(rng)
    n = rng.randint(12, 41)
    for _ in range(3):
        d.make_node("0")
    while len(d.steps) < n:
        gid = "0" if rng.rand() < .55 else d.pick(sorted(d.alive))
        getattr(d, NAMES[rng.choice(len(NAMES), p=W)])(gid)
        if len([x for g in d.alive for x in d.nodes(g)]) > 22:
            break
    return {"id": i, "steps": d.steps}

def campaign(chk, gen, n, budget, B, rule="a history is nontrivial when all its calls were replayed in the specification and every lookup agreed"):
    t0 = time.time()
    states, calls, rejected, bad, done, hs_total = 0, {}, 0, [], 0, 0
    for lo in range(0, n, B):
        if time.time() - t0 > budget:
            break
        hs = pool_map(gen, list(range(lo, min(n, lo + B))))
        for h in hs:
            for s in h["steps"]:
                calls[s["op"]] = calls.get(s["op"], 0) + 1
                rejected += s["err"]
                s["exc_"] = s.pop("exc", "")
        lines, s = run_tlc("GraphTrace", hs, mem="10g")
        if not tlc_ok(s):
            sys.stderr.write(s["out"][-4000:])
            raise mbt.TlcError("TLC failed")
        states += s["states"]
        hs_total += len(hs)
        byid = {str(h["id"]): h for h in hs}
        for l in lines:
            p = l.split("|")
            if p[0] == "BAD":
                bad.append((p, byid[p[1]]["steps"][:int(p[2])]))
            elif p[0] == "DONE":
                done += 1
        if done + len(bad) != hs_total:
            raise mbt.TlcError("TLC judged %d of %d histories" % (done + len(bad), hs_total))
        for h in hs[:2]:
            chk.sample([{k: v for k, v in s.items() if k not in ("obs", "exc_")} for s in h["steps"][:8]])
    for p, steps in bad:
        last = {k: v for k, v in steps[-1].items() if k != "obs"}
        chk.violation("%s:%s" % (p[3], p[4]), "history %s, call %s %s: wrong %s" % (p[1], p[2], json.dumps(last)[:250], p[4]), {"steps": steps})
    return chk.finish({"evaluations": sum(calls.values()), "distinct_nontrivial": done, "states": states, "histories": hs_total, "calls_rejected": rejected,
                       "calls": calls, "rule": rule})

def main():
    chk = Check("G01", META[1])
    return campaign(chk, history, 700 if TIER == "quick" else 9000, 70 if TIER == "quick" else 700, 1500)
