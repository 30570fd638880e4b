"""C08: the handler used is the newest applicable one."""
META = ("TLA+ model of the handler table and the choice of handlers (Registry.tla), TLC model checking of short histories (RegistryMC.tla) and trace validation of histories recorded on the real table (RegistryTrace.tla)", "model_checking",
        "TLC explores every history of up to 2 registrations over 2 operators, 2 domains, 3 versions and checks the choice for every request; random histories of decorator registrations (several names, domains, versions, options) and requests (all opsets, additional domains, caller-supplied handlers) on the real table, and every opset with every set of known domains on the built-in table, must be behaviours of the model; trusts TLC")
from registry import *

def synth(j):
    rng = rng_for("C08", j)
    h = Hist(rng)
    try:
        h.reg(dom="")
        h.reg(tfl=True)
        for _ in range(rng.randint(4, 16)):
            x = rng.rand()
            if x < .5:
                h.reg()
            elif x < .85:
                h.map()
            else:
                h.conv()
        h.map()
        return [h.case("s%d" % j)]
    finally:
        h.close()

def real(j):
    rng = rng_for("C08r", j)
    h = Hist(rng, True)
    try:
        doms = [d for d in tf_op._OPSETS if d and d != TFL]
        for k in range(1 << len(doms)):
            if k % 4 != j % 4 and TIER == "quick":
                continue
            h.map({"onnx": j // 4 + 1, "extra": [[d, 1] for i, d in enumerate(doms) if k >> i & 1], "cust": []})
        h.reg(dom="", vers=[j // 4 + 1])
        h.reg(dom="my.domain")
        h.map()
        return [h.case("r%d" % j)]
    finally:
        h.close()

def work(it):
    return [c for j in range(*it[1:]) for c in (synth if it[0] == "s" else real)(j)]

def main():
    chk = Check("C08", META[1])
    q = TIER == "quick"
    n = int(os.environ.get("NN", 1200 if q else 12000))
    t0 = time.time()
    _, st = run_tlc("RegistryMC", cfg="INIT Init\nNEXT Next\nINVARIANT Newest Unsupported Monotone\n",
                    consts={"Ops": '{"a", "b"}', "Doms": '{"", "d"}', "Vers": "{1, 2, 3}", "MaxRegs": "2" if q else "3"})
    if not tlc_ok(st):
        raise RuntimeError(st["out"][-3000:])
    items = [("r", j, j + 4) for j in range(0, 72, 4)] + [("s", j, min(n, j + 50)) for j in range(0, n, 50)]
    cases = [c for l in pool_map(work, items, deadline=t0 + (120 if q else 500)) for c in l]
    states = judge(chk, cases)
    for c in cases[:: max(1, len(cases) // 8)]:
        chk.sample({"steps": c["steps"][:3]} if len(c["init"]) < 100 else {"built-in table": len(c["init"])})
    maps = sum(len(s["obs"]) + len(s["find"]) for c in cases for s in c["steps"] if s["k"] == "map")
    return chk.finish({"states": st["distinct"] + states, "transitions": st["states"] + states, "traces_validated_against_impl": len(cases), "choices_compared": maps,
                       "model_states": st["distinct"]})
