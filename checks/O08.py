"""O08: the driver of the optimization passes, with passes that fail."""
META = ("TLA+ specification of the pass driver (OptDriver.tla): TLC explores every schedule of pass outcomes and checks no damage, order and termination on it; "
        "every behaviour is replayed into the real driver with passes that edit or fail as scheduled, and faults are injected into the real passes", "model_checking",
        "all schedules of two passes over two rounds and seven outcomes, with and without error catching, sampled schedules of three and four passes over three rounds; "
        "edits on graphs with nested bodies; faults at random editing calls of the real passes; trusts TLC")
import copy, itertools, re
from opt_check import *
import opt_check
from onnx import helper, numpy_helper, TensorProto
from tf2onnx.graph import Graph, Node
from tf2onnx.optimizer import optimize_graph, _get_optimizers
from tf2onnx.optimizer.optimizer_base import GraphOptimizerBase

OUTCOMES = ["idle", "edit", "quiet", "claim", "ctor", "fail0", "failmid", "failend"]
LOWER = ["idle", "edit", "quiet", "claim", "fail0", "failmid", "failend"]

# ------------------------------------------------------------ the graph the stub passes work on
def base_model():
    f = TensorProto.FLOAT
    vi = helper.make_tensor_value_info
    def ini(name, v):
        return numpy_helper.from_array(np.array(v), name)
    def body(tag):
        return helper.make_graph([
            helper.make_node("Constant", [], [tag + "k"], name=tag + "kn", value=ini("", np.float32([5.]))),
            helper.make_node("Add", ["h", tag + "k"], [tag + "a"], name=tag + "an"),
            helper.make_node("Mul", [tag + "a", "x"], [tag + "m"], name=tag + "mn"),
            helper.make_node("LeakyRelu", ["h"], [tag + "l"], name=tag + "ln", alpha=.5)], tag, [], [vi(tag + "m", f, [2, 3]), vi(tag + "l", f, [2, 3])])
    inner = helper.make_graph([helper.make_node("Add", ["st", "h"], ["li1"], name="li1n"), helper.make_node("Neg", ["x"], ["li2"], name="li2n"),
                               helper.make_node("Identity", ["ci"], ["co"], name="con"), helper.make_node("Add", ["li1", "c1"], ["li3"], name="li3n")], "lb",
                              [vi("it", TensorProto.INT64, []), vi("ci", TensorProto.BOOL, []), vi("st", f, [2, 3])],
                              [vi("co", TensorProto.BOOL, []), vi("li3", f, [2, 3]), vi("li2", f, [2, 3])])
    nodes = [helper.make_node("Neg", ["x"], ["h"], name="hn"),
             helper.make_node("LeakyRelu", ["h"], ["p"], name="pn", alpha=.25),
             helper.make_node("Add", ["p", "c1"], ["q"], name="qn"),
             helper.make_node("If", ["b"], ["i1", "i2"], name="ifn", then_branch=body("t"), else_branch=body("e")),
             helper.make_node("Loop", ["n", "", "q"], ["lo", "ls"], name="lpn", body=inner),
             helper.make_node("Add", ["i1", "lo"], ["r"], name="rn"),
             helper.make_node("Sub", ["r", "c2"], ["y"], name="yn"),
             helper.make_node("Identity", ["i2"], ["z"], name="zn")]
    g = helper.make_graph(nodes, "g", [vi("x", f, [2, 3]), vi("b", TensorProto.BOOL, []), vi("n", TensorProto.INT64, [])],
                          [vi("y", f, [2, 3]), vi("z", f, [2, 3]), vi("ls", f, None)],
                          [ini("c1", np.float32([[1, 2, 3]])), ini("c2", np.float32([7]))])
    return helper.make_model(g, opset_imports=[helper.make_opsetid("", 13), helper.make_opsetid("my", 1)])

def walk(g):
    yield g
    for n in g.get_nodes():
        for b in (n.get_body_graphs() or {}).values():
            yield from walk(b)

def dump(g):
    """everything a graph holds, independent of the order nodes are listed in and of the numbers in generated names"""
    return repr(dump_(g))

def plain(x):
    return x if EXACT else re.sub(r"__\d+", "__", x) if isinstance(x, str) else x

EXACT = False   # names as they are

def dump_(g):
    ns = []
    ts = set()
    for n in sorted(g.get_nodes(), key=lambda n: (plain(n.name), [plain(x) for x in n.output], [plain(x) for x in n.input])):
        at = [(k, v.SerializeToString(deterministic=True)) for k, v in sorted(n.attr.items()) if v.type != onnx.AttributeProto.GRAPH]
        bs = [(k, dump_(b), b.parent_graph is g) for k, b in sorted((n.get_body_graphs() or {}).items())]
        ns.append((plain(n.name), n.type, n.domain, [plain(x) for x in n.input], [plain(x) for x in n.output], at, bs, n.skip_conversion, n.graph is g))
        ts |= set(n.output)
    q = sorted(((plain(t), g.get_shape(t), g.get_dtype(t), plain(getattr(g.get_node_by_output(t), "name", None)), sorted(plain(c.name) for c in g.find_output_consumers(t)))
                for t in ts), key=repr)
    return (ns, q, list(g.outputs), [(plain(n.name), [plain(x) for x in n.output]) for n in g.inputs], g.opset, [(o.domain, o.version) for o in g.extra_opset],
            sorted(plain(g.get_node_by_name(n.name).name) for n in g.get_nodes()))

class Boom(Exception):
    pass

# --------------------------------------------------- edits: lists of steps, each leaving its own mark
def E(kind, tag, v):
    def on_out(g):
        g.insert_new_node_on_output("Identity", "p", name="id_" + tag, shapes=None, dtypes=None)
    def then(g):
        return g.get_node_by_name("ifn").get_body_graphs()["then_branch"]
    def loop(g):
        return g.get_node_by_name("lpn").get_body_graphs()["body"]
    if kind == 0:
        return [on_out, lambda g: g.get_node_by_name("id_" + tag).set_attr("mark", v)]
    if kind == 1:
        return [lambda g: g.get_node_by_name("pn").set_attr("alpha", float(v)), lambda g: g.get_node_by_name("qn").set_attr("m" + tag, v)]
    if kind == 2:
        return [lambda g: g.get_node_by_name("c1").set_tensor_value(np.float32([[v, v + 1, 3]])), lambda g: g.set_shape("q", [2, v])]
    if kind == 3:
        return [lambda g: then(g).get_node_by_name("tkn").set_tensor_value(np.float32([v])), lambda g: then(g).set_dtype("ta", 1), lambda g: then(g).set_shape("ta", [v])]
    if kind == 4:
        return [lambda g: then(g).insert_new_node_on_output("Neg", "tm" if "tm" in then(g).outputs else then(g).outputs[0], name="bn_" + tag),
                lambda g: then(g).get_node_by_name("bn_" + tag).set_attr("mark", v)]
    if kind == 5:
        return [lambda g: g.make_node("Abs", ["x"], name="abs_" + tag, outputs=["abs_" + tag]), lambda g: g.replace_all_inputs("h", "abs_" + tag)]
    if kind == 6:
        was = []
        return [lambda g: was.extend([g.get_node_by_name("yn").output, g.get_node_by_name("yn").input]) or g.remove_node("yn"),
                lambda g: g.make_node("Mul", was[1], outputs=was[0], name="yn", shapes=[[2, 3]], dtypes=[1], attr={"v" + tag: v})]
    if kind == 7:
        return [lambda g: g.make_node("Neg", ["q"], outputs=["o_" + tag], name="on_" + tag, shapes=[[2, 3]], dtypes=[1]), lambda g: g.add_graph_output("o_" + tag)]
    if kind == 8:
        return [lambda g: setattr(loop(g), "outputs", [loop(g).outputs[0], loop(g).outputs[2], loop(g).outputs[1]]), lambda g: loop(g).get_node_by_name("li2n").set_attr("m" + tag, v)]
    if kind == 9:
        return [lambda g: g.extra_opset.append(helper.make_opsetid("d" + tag, v)), lambda g: g.get_node_by_name("zn").set_attr("m" + tag, v)]
    if kind == 10:
        return [lambda g: g.rename_tensors({"r": "r_" + tag} if g.get_node_by_output("r") else {}), lambda g: g.get_node_by_name("rn").set_attr("mark" + tag, v)]
    if kind == 11:
        return [lambda g: setattr(g.get_node_by_name("pn").attr["alpha"], "f", float(v)), lambda g: setattr(g.get_node_by_name("pn"), "domain", "my"), lambda g: setattr(g.get_node_by_name("zn"), "skip_conversion", v % 2 == 0)]
    if kind == 12:
        return [lambda g: loop(g).get_node_by_name("li3n").graph.make_const("lc_" + tag, np.float32([v])), lambda g: loop(g).replace_input(loop(g).get_node_by_name("li3n"), loop(g).get_node_by_name("li3n").input[1], "lc_" + tag)]
    if kind == 13:
        return [lambda g: g.make_const("k_" + tag, np.float32([v])), lambda g: g.replace_inputs(g.get_node_by_name("rn"), ["k_" + tag, g.get_node_by_name("rn").input[1]])]
    if kind == 14:
        return [lambda g: setattr(g, "outputs", list(reversed(g.outputs))), lambda g: g.get_node_by_name("rn").set_attr("m" + tag, v)]
    if kind == 15:
        return [lambda g: setattr(then(g).get_node_by_name("tln"), "type", "Relu" if v % 2 else "Abs"), lambda g: then(g).get_node_by_name("tan").set_attr("m" + tag, v)]
    return [lambda g: g.get_node_by_name("c2").attr["value"].t.CopyFrom(numpy_helper.from_array(np.float32([v]), "c2")), lambda g: g.copy_shape("x", "q"), lambda g: g.set_shape("q", [v])]
NK = 17

def new_graph():
    g = GraphUtil.create_graph_from_onnx_model(base_model())
    class Idle(GraphOptimizerBase):
        def _optimize(self, graph):
            return graph
    return Idle().optimize(g, 0)     # every run of a pass ends with updating and pruning the graph

def edit_of(case, p, r):
    rng = rng_for("O08e", case["seed"], p, r)
    return E(rng.randint(NK), "p%dr%d" % (p, r), 10 * p + r)

EXC = [Boom, ValueError, AssertionError, KeyError, RuntimeError, IndexError, NotImplementedError, StopIteration, RecursionError, OSError, ArithmeticError]

def replay(case):
    """runs the real driver under the case's schedule; returns what happened"""
    log, keep = [], []
    exc = EXC[case["seed"] % len(EXC)]
    def factory(p):
        class Stub(GraphOptimizerBase):
            def __init__(self):
                count[p] += 1
                super().__init__()
                if out(p, count[p]) == "ctor":
                    log.append((p, count[p], None, None))
                    raise exc("ctor %d" % p)
            def _optimize(self, graph):
                r = count[p]
                o = out(p, r)
                log.append((p, r, dump(graph), self.opt_iteration))
                keep.append(graph)
                if o == "fail0":
                    raise exc("at start")
                if o in ("edit", "quiet", "failmid", "failend"):
                    st = edit_of(case, p, r)
                    if o in ("failmid", "failend"):
                        self.graph_been_opt = True
                    for k, s in enumerate(st[:1] if o == "failmid" else st):
                        s(graph)
                    if o in ("failmid", "failend"):
                        raise exc("amid %d" % p)
                if o in ("edit", "claim"):
                    self.graph_been_opt = True
                return graph
        return Stub
    plan = case["plan"]
    count = {p: 0 for p in range(1, len(plan) + 1)}
    def out(p, k):
        return plan[p - 1][k - 1] if k <= len(plan[p - 1]) else "idle"
    opts = OrderedDict(("pass%d" % p, factory(p)) for p in count)
    g = new_graph()
    try:
        res = with_deadline(lambda: optimize_graph(g, case["catch"], optimizers=opts), 30)
        status, final = "done", dump(res)
    except Hang:
        status, final = "does not terminate", None
    except Exception as e:
        status, final = ("raised" if isinstance(e, exc) else "raised something else: %r" % e), None
    return log, status, final

_memo = {}
def oracle(case, store):
    """the graph that carries exactly the edits in store, made without the driver"""
    key = (case["seed"], tuple(map(tuple, store)))
    if key not in _memo:
        g = new_graph()
        class Quiet(GraphOptimizerBase):
            def _optimize(self, graph):
                for s in self.steps:
                    s(graph)
                return graph
        for p, r in store:
            q = Quiet()
            q.steps = edit_of(case, p, r)
            q.optimize(g, 0)
        _memo[key] = dump(g)
    return _memo[key]

def oracle_first(case, store):
    """what a pass sees: nothing has been pruned or updated before the first successful pass"""
    return oracle(case, store)

def judge_replay(arg):
    case, exp = arg
    log, status, final = replay(case)
    if status != exp["status"]:
        return "status: expected %s, got %s" % (exp["status"], status)
    if [list(x[:2]) for x in log] != [x[:2] for x in exp["log"]]:
        return "passes run: expected %s, got %s" % ([x[:2] for x in exp["log"]], [list(x[:2]) for x in log])
    for k, (got, want) in enumerate(zip(log, exp["log"])):
        if got[2] is None:
            continue
        if got[3] != got[1] - 1:
            return "iteration number passed to a pass: %s in round %d" % (got[3], got[1])
        if got[2] != oracle(case, want[2]):
            return "graph given to pass %d in round %d is not the one with edits %s" % (got[0], got[1], want[2])
    if exp["status"] == "done" and final != oracle(case, exp["store"]):
        return "result is not the graph with edits %s" % exp["store"]
    return ""

def schedules(tier):
    cases = []
    k = 0
    def add(plan, catch):
        nonlocal k
        k += 1
        cases.append({"id": k, "catch": catch, "plan": [list(p) for p in plan], "seed": k})
    two = list(itertools.product(LOWER, repeat=2))
    for a in two:
        for b in two:
            for catch in (True, False):
                add((a, b), catch)
    rng = rng_for("O08", "plans")
    for _ in range(1200 if tier == "quick" else 20000):
        n = rng.randint(1, 5)
        add([[OUTCOMES[rng.choice(len(OUTCOMES), p=[.2, .25, .08, .1, .07, .08, .12, .1])] for _ in range(rng.randint(0, 4))] for _ in range(n)], rng.rand() < .75)
    return cases

def explore(cases):
    lines, s = run_tlc("OptDriver", [{k: c[k] for k in ("id", "catch", "plan")} for c in cases],
                       cfg="SPECIFICATION Spec\nINVARIANT NoDamage\nINVARIANT InOrder\nINVARIANT Ends\nPROPERTY Terminates\n")
    if not tlc_ok(s):
        sys.stderr.write(s["out"][-3000:])
        raise mbt.TlcError("OptDriver: TLC failed")
    exp = {}
    for l in lines:
        try:
            d = json.loads(l)
        except ValueError:
            continue
        exp[d["id"]] = d
    if len(exp) != len(cases):
        raise mbt.TlcError("behaviours missing: %d of %d" % (len(exp), len(cases)))
    return exp, s

# ------------------------------------------------- faults in the real passes
EDITS = ["make_node", "make_const", "remove_node", "replace_all_inputs", "replace_input", "replace_inputs", "remove_input", "insert_new_node_on_input",
         "insert_new_node_on_output", "insert_node_on_output", "set_shape", "set_dtype", "copy_shape", "safe_remove_nodes", "find_output_consumers", "get_shape", "append_node"]
NEDITS = ["set_attr", "set_tensor_value", "set_body_graph_as_attr", "get_tensor_value", "get_attr"]

class Inject:
    """raises at the k-th call of an editing method while armed"""
    def __init__(self, k=None, after=False):
        self.k, self.n, self.armed, self.after = k, 0, False, after
        self.saved = []
    def wrap(self, cls, name):
        if not hasattr(cls, name):
            return
        orig = getattr(cls, name)
        def f(*a, **kw):
            if not self.armed:
                return orig(*a, **kw)
            self.n += 1
            n = self.n
            if self.k == n and not self.after:
                raise Boom("injected")
            r = orig(*a, **kw)
            if self.k == n and self.after:
                raise Boom("injected")
            return r
        self.saved.append((cls, name, orig))
        setattr(cls, name, f)
    def __enter__(self):
        for m in EDITS:
            self.wrap(Graph, m)
        for m in NEDITS:
            self.wrap(Node, m)
        return self
    def __exit__(self, *a):
        for c, n, o in self.saved:
            setattr(c, n, o)

def drive(model, where, inj):
    """optimizes with the real passes; at (pass, round) the pass is armed with the fault. Returns what each run saw, did and reported."""
    log, cnt = [], {}
    def factory(name, real):
        class W:
            def __init__(self):
                cnt[name] = cnt.get(name, 0) + 1
                self.opt = real()
            @property
            def graph_been_opt(self):
                return self.opt.graph_been_opt
            def optimize(self, graph, iteration):
                e = {"pass": name, "round": cnt[name], "in": dump(graph), "out": None, "reported": False, "calls": 0}
                log.append(e)
                try:
                    if where is None or (name, cnt[name]) == where:
                        inj.armed, inj.n = True, 0
                    try:
                        r = self.opt.optimize(graph, iteration)
                    finally:
                        inj.armed = False
                    e["out"], e["reported"] = dump(r), bool(self.opt.graph_been_opt)
                    return r
                finally:
                    e["calls"] = inj.n if where is None else 0
        return W
    opts = OrderedDict((n, factory(n, f)) for n, f in _get_optimizers().items())
    g = GraphUtil.create_graph_from_onnx_model(model)
    start = dump(g)
    g2 = with_deadline(lambda: optimize_graph(g, True, optimizers=opts), 60)
    return start, log, dump(g2)

def encode(start, log, final, names):
    ids = {}
    def num(d):
        return ids.setdefault(d, len(ids) + 1)
    return {"np": len(names), "start": num(start), "final": num(final),
            "log": [{"p": names.index(e["pass"]) + 1, "r": e["round"], "in": num(e["in"]), "ok": e["out"] is not None,
                     "out": num(e["out"]) if e["out"] is not None else 0, "rep": e["reported"]} for e in log]}

def real_faults(i):
    from O01 import gen as gen1
    import O06
    rng = rng_for("O08r", i)
    model = None
    for t in range(10):
        try:
            case = (O06.gen if rng.rand() < .6 else gen1)(rng_for("O08m", i, t), i)
        except Exception:
            continue
        if case is not None:
            model = case[0] if isinstance(case, tuple) else case
            break
    if model is None:
        return None
    global EXACT
    EXACT = True
    names = list(_get_optimizers())
    try:
        with Inject() as inj:
            start, log, final = drive(model, None, inj)
    except Exception as e:
        return i, [("%s raised out of the driver" % type(e).__name__, ("none", 0), 0)], model.SerializeToString()
    res = [(encode(start, log, final, names), ("none", 0), 0)]
    spots = [((e["pass"], e["round"]), e["calls"]) for e in log if e["calls"]]
    for _ in range(3 if spots else 0):
        w, n = spots[rng.randint(len(spots))]
        k = int(rng.randint(1, n + 1))
        try:
            with Inject(k, after=rng.rand() < .5) as inj:
                d = encode(*drive(model, w, inj), names)
        except Exception as e:
            d = "%s raised out of the driver" % type(e).__name__
        res.append((d, w, k))
    return i, res, model.SerializeToString()

# ------------------------------------------------- the switch for error catching, as the entry points set it
def entry_points(_):
    import tensorflow as tf, tf2onnx.convert
    seen = []
    class Fails(GraphOptimizerBase):
        def _optimize(self, graph):
            seen.append("ran")
            graph.remove_node([n for n in graph.get_nodes() if n.type == "Neg"][0].name)
            raise Boom("fails")
    _get_optimizers()["failing"] = Fails
    fn = tf.function(lambda x: -x + 1., input_signature=[tf.TensorSpec([2], tf.float32)])
    res = []
    for env in (None, "TRUE", "true", "FALSE", "false"):
        for large in (False, True):
            os.environ.pop("TF2ONNX_CATCH_ERRORS", None)
            if env:
                os.environ["TF2ONNX_CATCH_ERRORS"] = env
            catch = (env.upper() == "TRUE") if env else not large
            del seen[:]
            try:
                m, _ = tf2onnx.convert.from_function(fn, input_signature=[tf.TensorSpec([2], tf.float32)], opset=13, large_model=large)
                got = "ok" if "Neg" in [n.op_type for n in m.graph.node] else "damaged model"
            except Boom:
                got = "raised"
            except Exception as e:
                got = "raised %r" % e
            want = "ok" if catch else "raised"
            if got != want or not seen:
                res.append("from_function with a failing pass, large_model=%s, TF2ONNX_CATCH_ERRORS=%s: expected %s, got %s" % (large, env, want, got))
    os.environ.pop("TF2ONNX_CATCH_ERRORS", None)
    del _get_optimizers()["failing"]
    m = base_model()
    b = m.SerializeToString()
    for catch in (True, False):
        try:
            r = GraphUtil.optimize_model_proto(m, catch_errors=catch, optimizers=OrderedDict(a=lambda: 1 // 0))
            got = "ok"
        except ZeroDivisionError:
            got = "raised"
        if got != ("ok" if catch else "raised") or m.SerializeToString() != b:
            res.append("optimize_model_proto with a failing pass, catch_errors=%s: %s" % (catch, got))
        bad = base_model()
        bad.graph.node[1].input[0] = "nowhere"
        try:
            r = GraphUtil.optimize_model_proto(bad, catch_errors=catch)
            got = "ok" if r.SerializeToString() == bad.SerializeToString() else "another model"
        except Exception:
            got = "raised"
        if got != ("ok" if catch else "raised"):
            res.append("optimize_model_proto of a model that cannot be loaded, catch_errors=%s: %s" % (catch, got))
    return res

def main():
    chk = Check("O08", META[1])
    cases = schedules(TIER)
    exp, s = explore(cases)
    jobs = [(c, exp[c["id"]]) for c in cases]
    if TIER == "quick":
        sel = rng_for("O08", "sel").permutation(len(jobs))[:2600]
        jobs = [jobs[k] for k in sorted(sel)]
    groups = [jobs[k:k + 50] for k in range(0, len(jobs), 50)]
    n = 0
    for gr, rs in zip(groups, pool_map(lambda gr: [judge_replay(j) for j in gr], groups)):
        for (c, e), r in zip(gr, rs):
            n += 1
            if r:
                chk.violation("driver:" + r.split(":")[0][:40], "schedule %s catch=%s: %s" % (c["plan"], c["catch"], r), {"case": c, "expected": e})
    for c, e in jobs[:6]:
        chk.sample({"plan": c["plan"], "catch": c["catch"], "store": e["store"], "status": e["status"]})
    for m in pool_map(entry_points, [0])[0]:
        chk.violation("entry:" + m[:30], m, {})
    runs, info, faults = [], {}, 0
    for r in pool_map(real_faults, list(range(160 if TIER == "quick" else 3000)), deadline=time.time() + (45 if TIER == "quick" else 500)):
        for d, w, k in r[1] if r else []:
            faults += 1
            rep = {"model_hex": r[2].hex(), "pass": w[0], "round": w[1], "call": k}
            if isinstance(d, str):
                chk.violation("fault:%s" % w[0], "model %d, %s fails in round %d at call %d: %s" % (r[0], w[0], w[1], k, d), rep)
            else:
                runs.append(dict(d, id=len(runs)))
                info[len(runs) - 1] = (r[0], w, k, rep)
    done = 0
    lines, s2 = run_tlc("OptDriverTrace", runs)
    if not tlc_ok(s2):
        sys.stderr.write(s2["out"][-3000:])
        raise mbt.TlcError("OptDriverTrace: TLC failed")
    for l in lines:
        p = l.split("|")
        done += p[0] in ("DONE", "BAD")
        if p[0] == "BAD":
            i, w, k, rep = info[int(p[1])]
            chk.violation("fault:%s" % w[0], "model %d, %s fails in round %d at call %d: %s" % (i, w[0], w[1], k, p[2]), rep)
    if done != len(runs):
        raise mbt.TlcError("TLC judged %d of %d runs" % (done, len(runs)))
    return chk.finish({"states": s["distinct"] + s2["distinct"], "transitions": s["states"] + s2["states"], "traces_validated_against_impl": n + faults, "schedules": len(cases), "faults_in_real_passes": faults})
