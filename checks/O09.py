"""O09: pruning and extraction on random graphs with nested bodies, against the reachability definitions of GraphIR.tla."""
import sys, json, time
import mbt
from mbt import rng_for, run_tlc, tlc_ok, Check, pool_map, TIER
import G01
from G01 import Drv

META = ("TLA+ specification of reachability in nested graphs (GraphIR.tla: Needed, NeededX, Prune); graphs built and pruned or extracted by the real code are judged by TLC (GraphTrace.tla)",
        "exploration", "random graphs of up to 12 nodes with up to three bodies on two levels; several output sets and node filters each")

class D9(Drv):
    quiet = True
    def obs(self):
        return [] if self.quiet else super().obs()

def build(i):
    rng = rng_for("O09", i)
    d = D9(rng)
    for _ in range(rng.randint(0, 3)):
        d.add_input("0")
    for _ in range(rng.randint(2, 6)):
        d.make_node("0")
    for _ in range(rng.choice([0, 1, 1, 2, 2, 3])):
        d.new_body("0")
    # attach bodies first, then fill them, so that they capture outer tensors
    free = sorted(b for b in d.alive if b != "0")
    for b in free:
        host = "0" if rng.rand() < .7 else d.pick(sorted(d.alive))
        if host == b or b not in d.alive or d.gs[b].parent_graph is not None:
            continue
        d.set_body(host)
    for g in sorted(d.alive):
        if g != "0" and d.gs[g].parent_graph is not None:
            if rng.rand() < .4:
                d.add_input(g)
            for _ in range(rng.randint(1, 4)):
                d.make_node(g)
    for _ in range(rng.randint(0, 4)):
        d.make_node("0")
    for g in sorted(d.alive):
        if rng.rand() < .3:
            d.add_input_default(g)
    for g in sorted(d.alive):
        if d.gs[g].parent_graph is not None or g == "0":
            ts = sorted({t for n in d.nodes(g) for t in n.output if t})
            rng.shuffle(ts)
            for t in ts[:rng.randint(1, 3)]:
                d.do({"op": "add_graph_output", "g": g, "t": t, "dtype": "1", "shape": "[]"}, lambda: d.gs[g].add_graph_output(t, 1, []))
    d.quiet = False
    own = sorted({t for n in d.nodes("0") for t in n.output if t})
    for _ in range(rng.randint(1, 5)):
        gid = "0" if rng.rand() < .7 else d.pick(sorted(d.alive))
        g = d.gs[gid]
        mine = sorted({t for n in d.nodes(gid) for t in n.output if t})
        if not mine:
            continue
        outs = [mine[k] for k in rng.permutation(len(mine))[:rng.randint(1, 3)]]
        ref = [n.name for n in d.nodes(gid) if rng.rand() < .2]
        if not ref or rng.rand() < .3:
            ref, fn = [], None
        else:
            fn = lambda n: n.name not in ref
        keep = bool(rng.rand() < .4)
        rec = {"op": "extract_sub_graph_nodes", "g": gid, "outs": outs, "refuse": ref, "keepins": keep}
        d.do(rec, lambda: rec.update(rs=[n.name for n in g.extract_sub_graph_nodes(list(outs), fn, remove_unused_inputs=not keep)]))
        if rng.rand() < .5:
            d.safe_remove(gid)
            if d.steps[-1]["op"] == "safe_remove_nodes":
                break
    if all(o in {t for n in d.nodes("0") for t in n.output} for o in d.gs["0"].outputs) and all(
            all(d.gs[b].get_node_by_output_in_current_graph(o) for o in d.gs[b].outputs) for b in d.subtree("0")):
        for r in range(2):
            outs = list(d.gs["0"].outputs)
            if r == 0 and rng.rand() < .5:
                outs = outs[:1]
                d.gs["0"].outputs = list(outs)
                if not outs:
                    break
                d.steps[-1]["obs"] = []
                d.do({"op": "set_graph_outputs", "g": "0", "outs": outs}, lambda: None)
            d.do({"op": "delete_unused_nodes", "g": "0", "outs": outs}, lambda: d.gs["0"].delete_unused_nodes(outs))
            # a second pruning of the result has nothing to do
    return {"id": i, "steps": d.steps}

def main():
    chk = Check("O09", META[1])
    n = 2500 if TIER == "quick" else 30000
    return G01.campaign(chk, build, n, 60 if TIER == "quick" else 700, 5000)
