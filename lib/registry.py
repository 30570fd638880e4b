"""Random histories of the handler table and of mapping passes, performed on the real tables and recorded."""
import collections, logging, json
import mbt
from mbt import *
from tf2onnx import handler, tfonnx, utils, constants
from tf2onnx.graph import Graph
from onnx import TensorProto, helper
tf_op, tfl_op = handler.tf_op, handler.tfl_op
TFL = "com.google.tensorflow"

class Boom(Exception):
    pass

class Logs(logging.Handler):
    def __init__(self):
        super().__init__(logging.ERROR)
        self.msgs = []

    def emit(self, r):
        self.msgs.append(r.getMessage())

class Hist:
    def __init__(self, rng, real=False):
        self.rng, self.steps, self.nh = rng, [], 0
        self.rename = {}
        self.hid = {}
        self.calls, self.stage, self.plan = None, 2, {}
        self.saved = tf_op._OPSETS, tf_op._MAPPING, tf_op._DOMAIN_MAPPING
        self.init = []
        self.ops = ["Qa", "Qb", "Qc", "Qd", "Qe"]
        self.tops = ["TQa", "TQb", "TQc"]
        if real:
            src = tf_op._OPSETS
            tf_op._OPSETS = collections.OrderedDict((d, [dict(m) for m in l]) for d, l in src.items())
            ops = set()
            for d, l in tf_op._OPSETS.items():
                for v, m in enumerate(l):
                    for o, (f, kw) in m.items():
                        self.init.append({"dom": d, "op": o, "v": v, "h": self.ident(f)})
                        ops.add(o)
            self.ops = sorted(ops) + ["NoSuchOp"]
        else:
            tf_op._OPSETS = collections.OrderedDict()

    def close(self):
        tf_op._OPSETS, tf_op._MAPPING, tf_op._DOMAIN_MAPPING = self.saved

    def ident(self, f):
        k = (getattr(f, "__func__", f), getattr(f, "__self__", None))
        if k not in self.hid:
            self.nh += 1
            self.hid[k] = self.nh
        return self.hid[k]

    def ch(self, p):
        return self.rng.rand() < p

    def pick(self, l):
        l = list(l)
        return l[self.rng.randint(len(l))]

    def some(self, l, lo=1):
        l = list(l)
        n = self.rng.randint(lo, len(l) + 1)
        return [l[i] for i in self.rng.permutation(len(l))[:n]]

    # ------------------------------------------------------------ registering
    def make(self, cls):
        """a recording handler"""
        self.nh += 1
        h = self.nh
        hist = self

        def f(ctx, node, **kw):
            hist.called(h, False, ctx, node, kw)
        if cls:
            def m(c, ctx, node, **kw):
                hist.called(h, False, ctx, node, kw)
            return h, classmethod(m)
        return h, f

    def reg(self, dom=None, ops=None, vers=None, tfl=False):
        r = self.rng
        tfl = tfl or dom is None and self.ch(.15)
        if dom is None:
            dom = self.pick(["", "", "", "d1", "d2"])
        ops = ops or self.some(self.tops if tfl else self.ops if len(self.ops) < 20 else [self.pick(self.ops) for _ in range(3)])
        vers = vers or sorted({int(v) for v in r.randint(1, 20, r.randint(1, 4))})
        kw = {}
        if self.ch(.3):
            kw["onnx_op"] = "R%d" % r.randint(3)
        if self.ch(.2):
            kw["extra_thing"] = 1
        if tfl:
            kw = {}
            if self.ch(.5):
                kw["tf_op"] = self.pick(self.ops)
        body, ids = {}, {}
        if tfl:
            h, f = self.make(True)
            body["to_tf"], vers, dom = f, [], TFL
            ids[0] = h
            self.rename[h] = kw.get("tf_op", "")
        for v in vers:
            h, f = self.make(True)
            body["version_%d" % v], ids[v] = f, h
            self.rename[h] = kw.get("onnx_op", "")
        if self.ch(.3):
            body["any_version"] = classmethod(lambda c, ctx, node, **k: None)
        k = type("H", (), body)
        (tfl_op if tfl else tf_op)(ops if len(ops) > 1 or self.ch(.5) else ops[0], **({} if tfl else {"domain": dom} if dom or self.ch(.3) else {}), **kw)(k)
        for v, h in ids.items():
            if not tfl:
                self.hid[(body["version_%d" % v].__func__, k)] = h
            self.steps.append({"k": "reg", "dom": dom, "ops": ops, "v": v, "h": h})

    # ------------------------------------------------------------ requests
    def request(self, cust=False):
        q = {"onnx": int(self.rng.randint(1, 20)), "extra": [], "cust": []}
        doms = [d for d in tf_op._OPSETS if d not in ("", TFL)] + ["d9"]
        if self.ch(.6):
            q["extra"] = [[d, int(self.rng.randint(1, 20) if self.ch(.5) else 1)] for d in self.some(doms)]
        if self.ch(.15):
            q["extra"].append(["ai.onnx.converters.tensorflow", 1])
        return q

    def map(self, q=None):
        q = q or self.request()
        ex = [helper.make_opsetid(d, v) for d, v in q["extra"]]
        m = tf_op.create_mapping(q["onnx"], ex if ex or self.ch(.5) else None)
        seen = self.ops + self.tops if len(self.ops) < 20 else self.ops
        obs = [{"op": o, "h": self.ident(m[o][0]) if o in m else 0} for o in seen]
        for o in seen:
            e = tf_op.find_effective_op(o)
            if (e[0] if e else None) != (m[o][0] if o in m else None):
                obs.append({"op": o, "h": self.ident(e[0]) if e else 0})
        find = []
        for d in [""] + [x[0] for x in q["extra"]]:
            for o in seen if len(seen) < 20 else [seen[i] for i in self.rng.permutation(len(seen))[:60]] + ["Equal", "NotEqual"]:
                e = tf_op.find_effective_op(o, d)
                find.append({"op": o, "dom": d, "h": self.ident(e[0]) if e else 0})
        self.steps.append({"k": "map", "q": q, "obs": obs, "find": find})

    # ------------------------------------------------------------ mapping passes
    def called(self, h, cust, ctx, node, kw):
        stage = 2 if not self.tfl or not self.stage1() else 1
        src = kw.get("tfl_op" if stage == 1 else "tf_op", "")
        self.calls.append({"n": node.name, "h": h, "cust": cust, "type": node.type, "src": src or "", "stage": stage,
                           "tables": kw.get("initialized_tables") is self.tables, "deq": bool(kw.get("dequantize"))})
        p = self.plan.get(node.name)
        if p is None:
            return
        good = p["tflok"] if stage == 1 else p["ok"]
        first = 1 if self.tfl else 2
        if good and stage == first:
            for a in p["adds"]:
                ctx.make_node(a["op"], [ctx.parent_graph and "x" or "x"] if True else [], name=a["n"], outputs=[a["n"] + ":0"], skip_conversion=not a["asks"],
                              shapes=[[2]], dtypes=[TensorProto.FLOAT])
                ctx.add_graph_output(a["n"] + ":0", TensorProto.FLOAT, [2])
        if not good:
            raise Boom("planned failure")

    def stage1(self):
        return not self.mapping_made

    def conv(self):
        r = self.rng
        q = self.request()
        self.tfl = self.ch(.35)
        go = self.ch(.5)
        deq = self.ch(.3)
        nodes = []

        def mk(owner, depth):
            for _ in range(r.randint(1, 5 if not depth else 3)):
                n = "n%d" % len(nodes)
                op = self.pick(self.tops if self.tfl and self.ch(.6) else self.ops + ["Qz"])
                p = {"n": n, "op": op, "owner": owner, "ok": not self.ch(.15), "tflok": not self.ch(.08), "skip": self.ch(.1),
                     "adds": [], "_g": None}
                if self.ch(.2):
                    p["adds"] = [{"n": n + "a%d" % i, "op": self.pick(self.ops), "asks": bool(self.tfl and self.ch(.6))} for i in range(r.randint(1, 3))]
                nodes.append(p)
                if depth < 2 and self.ch(.25) and not self.tfl:
                    p["_b"] = True
                    mk(n, depth + 1)
        mk("", 0)
        cust = {}
        if self.ch(.4):
            for o in self.some(self.ops)[:2]:
                h, _ = self.make(False)

                def f(ctx, node, name, args, h=h):
                    self.called(h, True, ctx, node, {})
                a = ["C%d" % r.randint(3)] if self.ch(.5) else []
                self.rename[h] = a[0] if a else ""
                cust[o] = (f, a)
                q["cust"].append([o, h])
        ex = [helper.make_opsetid(d, v) for d, v in q["extra"]]
        top = Graph([], opset=q["onnx"], extra_opset=ex, output_names=[])
        top.add_graph_input("x", TensorProto.FLOAT, [2])
        graphs = {"": top}
        for p in nodes:
            g = graphs[p["owner"]]
            node = g.make_node(p["op"], ["x"], name=p["n"], outputs=[p["n"] + ":0"], skip_conversion=p["skip"], shapes=[[2]], dtypes=[TensorProto.FLOAT])
            g.add_graph_output(p["n"] + ":0", TensorProto.FLOAT, [2])
            if p.get("_b"):
                b = g.create_new_graph_with_same_config()
                b.parent_graph = g
                b.outputs = []
                node.set_body_graph_as_attr("body", b)
                graphs[p["n"]] = b
        self.calls, self.plan, self.tables = [], {p["n"]: p for p in nodes}, {"t": 1}
        self.mapping_made = False
        logs = Logs()
        loggers = [logging.getLogger(n) for n in ("tf2onnx.tfonnx", "tf2onnx")]
        lg = logging.getLogger("tf2onnx")
        orig, dis, lev = tf_op.create_mapping, logging.root.manager.disable, tfonnx.logger.level
        logging.disable(logging.NOTSET)
        tfonnx.logger.addHandler(logs)
        prop = tfonnx.logger.propagate
        tfonnx.logger.propagate = False
        tfonnx.logger.setLevel(logging.ERROR)

        def watch(*a, **k):
            self.mapping_made = True
            return orig(*a, **k)
        tf_op.create_mapping = staticmethod(watch)
        raised, other = False, None
        try:
            tfonnx.process_parsed_graph(top, cust or (None if self.ch(.5) else {}), None, None, go, None, self.tables, self.tfl, deq)
        except Boom:
            raised = True
        except Exception as e:
            raised, other = True, e
        finally:
            tf_op.create_mapping = staticmethod(orig)
            tfonnx.logger.removeHandler(logs)
            tfonnx.logger.propagate = prop
            tfonnx.logger.setLevel(lev)
            logging.disable(dis)
        import re
        words = set(w for m in logs.msgs for w in re.findall(r"[A-Za-z0-9_]+", m.split("\n")[0]))
        every = [p["n"] for p in nodes] + [a["n"] for p in nodes for a in p["adds"]]
        self.steps.append({"k": "conv", "q": q, "tfl": self.tfl, "go": go, "deq": deq, "nodes": [{k: v for k, v in p.items() if k[0] != "_"} for p in nodes],
                           "calls": self.calls, "error": repr(other) if other is not None else "", "end": {"raised": raised, "reported": [n for n in every if n in words]}})

    def case(self, cid):
        n = max([self.nh] + list(self.rename))
        return {"id": cid, "init": self.init, "steps": self.steps, "rename": {str(k): v for k, v in self.rename.items() if v}}

def judge(chk, cases):
    """cases -> TLC; handler numbers are per case"""
    states = 0
    ok = 0
    byid = {c["id"]: c for c in cases}
    for lo in range(0, len(cases), 400):
        part = cases[lo:lo + 400]
        lines, st = run_tlc("RegistryTrace", {"cases": part})
        if not tlc_ok(st):
            raise RuntimeError(st["out"][-3000:])
        states += st["states"]
        for l in lines:
            p = l.replace('\\"', '').replace('"', '').split("|")
            if p[0] == "OK":
                ok += 1
            elif p[0] == "BAD":
                chk.violation(p[3], "case %s step %s: %s %s" % (p[1], p[2], p[3], "|".join(p[4:])), byid[p[1]])
                ok += 1
    if ok != len(cases):
        raise RuntimeError("%d of %d cases judged" % (ok, len(cases)))
    return states
