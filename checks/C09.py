"""C09: every node is converted exactly once, failures are reported."""
META = ("TLA+ model of the mapping pass (Registry.tla, RegistryTrace.tla); TLC trace validation of conversions of random graphs with recording and failing handlers", "model_checking",
        "graphs with up to three levels of bodies, TensorFlow and TFLite operators, handlers that succeed, fail, rename the operator, add nodes (asking for conversion or not), nodes without a handler and nodes to be skipped are put through the real conversion of a graph, with and without continue-on-error; the recorded hand-overs, errors and outcome must be a behaviour of the model; trusts TLC")
from registry import *

def synth(j):
    rng = rng_for("C09", j)
    h = Hist(rng)
    try:
        h.reg(dom="")
        h.reg(dom="")
        h.reg(tfl=True)
        for _ in range(rng.randint(1, 5)):
            h.reg()
        for _ in range(rng.randint(2, 6)):
            h.conv()
            if h.ch(.2):
                h.reg()
        return h.case("s%d" % j)
    finally:
        h.close()

def work(it):
    return [synth(j) for j in range(*it)]

def main():
    chk = Check("C09", META[1])
    q = TIER == "quick"
    n = int(os.environ.get("NN", 1500 if q else 20000))
    t0 = time.time()
    cases = [c for l in pool_map(work, [(j, min(n, j + 50)) for j in range(0, n, 50)], deadline=t0 + (120 if q else 500)) for c in l]
    states = judge(chk, cases)
    for c in cases[:: max(1, len(cases) // 8)]:
        chk.sample({"steps": [s for s in c["steps"] if s["k"] == "conv"][:1]})
    conv = [s for c in cases for s in c["steps"] if s["k"] == "conv"]
    return chk.finish({"states": states, "transitions": states, "traces_validated_against_impl": len(conv), "handovers": sum(len(s["calls"]) for s in conv),
                       "failing_handlers": sum(1 for s in conv if s["end"]["raised"])})
