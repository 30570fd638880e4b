"""Random structured TensorFlow programs: loops, conditionals, tensor arrays, calls of shared functions."""
import numpy as np
import mbt
import tensorflow as tf
from gen_tf import TP, C, Reject, F32, F64, I32, I64, BOOL, DTATTRS

CONTROL = {"While", "Cond", "Switch", "MapFn", "ScanFn", "Foldl", "Call"}
TA_OPS = {"TARead", "TAWrite"}
MAXIT = 30

class Sub:
    """a sub-program: formals, steps over its own and outer tensors, results"""
    def __init__(self, formals, steps=(), outs=()):
        self.formals = list(formals)
        self.steps = list(steps)
        self.outs = list(outs)

    def free(self):
        """tensors of the outer scopes it uses, in order"""
        own, fr = set(self.formals), []
        def see(q):
            if not isinstance(q, C) and q is not None and q not in own and q not in fr:
                fr.append(q)
        for op, args, attrs, ids in self.steps:
            for _, q in args:
                for z in (q if isinstance(q, list) else [q]):
                    see(z)
            own |= set(ids)
        for z in self.outs:
            see(z)
        return fr

class CP(TP):
    """program with control flow; a scope stack holds the sub-program being generated"""
    LIM = 1e6
    ILIM = 4e8
    MAX = 200

    def __init__(self, rng, pcomp=.1):
        TP.__init__(self, rng, pcomp)
        self.depth = 0
        self.tas = set()
        self.funs = {}       # shared functions of the current construction
        self.check_graph = True
        self.v1 = False

    # ---- execution of sub-programs
    def run_sub(self, sub, args, get):
        env = dict(zip(sub.formals, args))
        def g2(q):
            if isinstance(q, C):
                return tf.constant(q.a)
            return env[q] if q in env else get(q)
        for op, a, attrs, ids in sub.steps:
            env.update(zip(ids, self.call(op, a, attrs, g2)))
        return [g2(o) for o in sub.outs]

    def ta_of(self, x, n=None):
        if n is None:
            return tf.TensorArray(x.dtype, size=tf.shape(x)[0], element_shape=x.shape[1:], clear_after_read=False).unstack(x)
        return None

    def call(self, op, args, attrs, get):
        if op not in CONTROL and op not in TA_OPS:
            return TP.call(self, op, args, attrs, get)
        d = dict(args)
        g = lambda k: [get(q) for q in d[k]]
        if op == "TARead":
            ta, i = get(d["ta"]), get(d["i"])
            return [tf.gather(ta, i)] if tf.is_tensor(ta) else [ta.read(i)]
        if op == "TAWrite":
            ta, i, v = get(d["ta"]), get(d["i"]), get(d["v"])
            return [tf.tensor_scatter_nd_update(ta, [[i]], [v])] if tf.is_tensor(ta) else [ta.write(i, v)]
        if op == "While":
            vs = g("vars")
            rs = [self.ta_of(x) for x in g("reads")]
            ws = [tf.TensorArray(tf.as_dtype(np.dtype(t)), size=n, element_shape=s if attrs["eshape"] else None, clear_after_read=False) for n, (t, s) in zip(g("sizes"), attrs["elems"])]
            mx = get(d["max"][0]) if d["max"] else None
            nv, nr = len(vs), len(rs)
            body, cond = attrs["body"], attrs["cond"]
            carry = attrs["carry"]         # whether the arrays that are read are loop variables as well
            def split(xs):
                return list(xs[:nv]), (list(xs[nv:nv + nr]) if carry else rs), list(xs[nv + (nr if carry else 0):])
            def b(*xs):
                v, r, w = split(xs)
                o = self.run_sub(body, v + r + w, get)
                return o[:nv] + (r if carry else []) + o[nv:]
            def c(*xs):
                v, r, w = split(xs)
                return self.run_sub(cond, v, get)[0]
            inv = None
            if attrs.get("inv"):
                inv = [tf.TensorShape(s) for s in attrs["inv"]] + [tf.TensorShape(None)] * ((nr if carry else 0) + len(ws))
            kw = {} if inv is None or tf.executing_eagerly() else {"shape_invariants": inv}
            res = tf.while_loop(c, b, vs + (rs if carry else []) + ws, maximum_iterations=mx, parallel_iterations=1, **kw)
            v, r, w = split(list(res))
            return v + [x.stack() for x in w]
        if op == "Cond":
            r = tf.cond(get(d["pred"]), lambda: self.run_sub(attrs["then"], [], get), lambda: self.run_sub(attrs["else"], [], get))
            return list(r) if isinstance(r, (list, tuple)) else [r]
        if op == "Switch":
            k = len(attrs["n"])
            r = tf.switch_case(get(d["index"]), [lambda j=j: self.run_sub(attrs["b%d" % j], [], get) for j in range(k)])
            return list(r) if isinstance(r, (list, tuple)) else [r]
        sub = attrs["body"]
        def sig(outs):
            return [tf.TensorSpec(s, tf.as_dtype(np.dtype(t))) for t, s in outs]
        if op == "MapFn":
            xs = g("xs")
            r = tf.map_fn(lambda e: tuple(self.run_sub(sub, list(e), get)), tuple(xs), fn_output_signature=tuple(sig(attrs["elems"])), parallel_iterations=1)
            return list(r)
        if op == "ScanFn":
            xs, init = g("xs"), g("init")
            r = tf.scan(lambda a, e: tuple(self.run_sub(sub, list(a) + list(e), get)), tuple(xs), initializer=tuple(init), reverse=bool(attrs["reverse"]), parallel_iterations=1)
            return list(r)
        if op == "Foldl":
            xs, init = g("xs"), g("init")
            f = tf.foldr if attrs["reverse"] else tf.foldl
            r = f(lambda a, e: tuple(self.run_sub(sub, list(a) + list(e), get)), tuple(xs), initializer=tuple(init), parallel_iterations=1)
            return list(r)
        if op == "Call":
            xs = g("xs")
            if tf.executing_eagerly() or self.v1:
                return self.run_sub(sub, xs, get)
            k = attrs["fn"]
            if k not in self.funs:
                self.funs[k] = tf.function(lambda *a: tuple(self.run_sub(sub, list(a), None)))
            return list(self.funs[k](*xs))
        raise Reject(op)

    # ---- scopes
    def scope(self, formals, vals, isolate=False):
        """enters a sub-program: its steps are collected until leave()"""
        self.depth += 1
        saved = (self.steps, self.vals, set(self.used), self.params, self.pcomp)
        self.steps = []
        self.vals = {} if isolate else dict(self.vals)
        self.params = set(self.params)
        if isolate:
            self.pcomp = 0
        self.vals.update(zip(formals, vals))
        return saved
    def leave(self, saved):
        self.depth -= 1
        steps = self.steps
        local = self.vals
        self.steps, self.vals, used, self.params, self.pcomp = saved
        for q in self.inputs:          # inputs made inside belong to the program
            if q[0] not in self.vals and q[0] in local:
                self.vals[q[0]] = local[q[0]]
                if q[4][3] is not None:
                    self.params.add(q[0])
        return steps, local

    def trace(self, outs):
        """whether TensorFlow accepts the program as a graph and computes the recorded values with it"""
        if self.v1:
            try:
                gd, ins, os = self.graph_def(outs)
                with tf.Graph().as_default() as g:
                    tf.import_graph_def(gd, name="")
                    with tf.compat.v1.Session(graph=g) as s:
                        r = s.run(os, {n: self.vals[i[0]] for n, i in zip(ins, self.inputs)})
            except Exception:
                return False
            return all(np.array_equal(a, self.vals[o]) for a, o in zip(r, outs))
        f, sig = self.function(outs)
        try:
            c = f.get_concrete_function()
        except Exception:
            return False
        r = c(*[tf.constant(self.vals[i[0]]) for i in self.inputs])
        return all(np.array_equal(a.numpy(), self.vals[o]) for a, o in zip(r, outs))

    def graph_def(self, outs):
        """the program as a graph of TensorFlow 1 (control flow out of Switch, Merge, Enter, Exit and NextIteration)"""
        need = self.needed(outs)
        self.funs = {}
        tf.compat.v1.disable_control_flow_v2()
        try:
            with tf.Graph().as_default() as g:
                env = {}
                for x, dtype, dims, dyn, p in self.inputs:
                    sh = [None if d else k for d, k in zip(dyn, np.shape(self.vals[x]))]
                    env[x] = tf.compat.v1.placeholder(tf.as_dtype(np.dtype(dtype)), sh, name="in_%s" % x)
                for op, args, attrs, ids in self.steps:
                    if any(i in need for i in ids):
                        env.update(zip(ids, self.call(op, args, attrs, lambda q: tf.constant(q.a) if isinstance(q, C) else env[q])))
                for k, o in enumerate(outs):
                    tf.identity(env[o], name="out_%d" % k)
            return g.as_graph_def(), ["in_%s:0" % i[0] for i in self.inputs], ["out_%d:0" % k for k in range(len(outs))]
        finally:
            tf.compat.v1.enable_control_flow_v2()

    def free_args(self, subs):
        caps = []
        for s in subs:
            for q in s.free():
                if q not in caps:
                    caps.append(q)
        return caps

    # ---- specification form
    def function(self, outs):
        self.funs = {}
        return TP.function(self, outs)

    def spec_steps(self, steps, k, need=None):
        nodes = []
        for op, args, attrs, ids in steps:
            if need is not None and not any(i in need for i in ids):
                continue
            ins = []
            for _, q in args:
                for z in (q if isinstance(q, list) else [q]):
                    if isinstance(z, C):
                        k[0] += 1
                        nodes.append({"op": "Const", "in": [], "out": ["c%d" % k[0]], "a": {"value": mbt.enc_array(z.a)}})
                        ins.append("c%d" % k[0])
                    else:
                        ins.append(z)
            a = {}
            for n, v in attrs.items():
                if isinstance(v, Sub):
                    a[n] = {"in": list(v.formals), "nodes": self.spec_steps(v.steps, k), "out": list(v.outs)}
                    if any(isinstance(o, C) for o in v.outs):
                        for j, o in enumerate(v.outs):
                            if isinstance(o, C):
                                k[0] += 1
                                a[n]["nodes"].append({"op": "Const", "in": [], "out": ["c%d" % k[0]], "a": {"value": mbt.enc_array(o.a)}})
                                a[n]["out"][j] = "c%d" % k[0]
                elif n in ("elems", "inv", "eshape", "carry", "fn"):
                    if n == "elems":
                        a[n] = [{"t": mbt.DT[np.dtype(t).name], "s": list(s)} for t, s in v]
                elif n in DTATTRS or isinstance(v, type):
                    a[n] = mbt.DT[np.dtype(v).name]
                elif isinstance(v, (bool, np.bool_)):
                    a[n] = int(v)
                elif isinstance(v, float):
                    continue
                else:
                    a[n] = v
            if op in CONTROL:
                d = dict(args)
                a["cnt"] = [len(q) if isinstance(q, list) else 1 for _, q in args]
                a["caps"] = [q for q in d.get("caps", [])]
            nodes.append({"op": op, "in": ins, "out": list(ids), "a": a})
        return nodes

    def spec(self, outs):
        return {"in": [i[0] for i in self.inputs], "out": list(outs), "nodes": self.spec_steps(self.steps, [0], self.needed(outs))}

    def describe(self, outs=None, steps=None, ind=""):
        if steps is None:
            need = self.needed(outs) if outs else None
            s = []
            for x, dtype, dims, dyn, p in self.inputs:
                if need is None or x in need:
                    s.append("%s = input %s %s" % (x, np.dtype(dtype).name, [None if d else n for d, n in zip(dyn, np.shape(self.vals[x]))]))
            steps = self.steps
        else:
            need, s = None, []
        f = lambda q: "[%s]" % ", ".join(map(f, q)) if isinstance(q, list) else ("%s%s" % (q.a.dtype.name, str(q.a.tolist())[:120]) if isinstance(q, C) else str(q))
        for op, args, attrs, ids in steps:
            if need is None or any(i in need for i in ids):
                s.append("%s%s = %s(%s%s)" % (ind, ",".join(ids), op, ", ".join("%s=%s" % (k, f(q)) for k, q in args if k != "caps"),
                                            "".join(", %s=%s" % (k, getattr(v, "__name__", v)) for k, v in attrs.items() if not isinstance(v, Sub) and k not in ("fn",))))
                for k, v in attrs.items():
                    if isinstance(v, Sub):
                        s.append("%s  %s(%s):" % (ind, k, ",".join(v.formals)))
                        s += self.describe(None, v.steps, ind + "    ")
                        s.append("%s    -> %s" % (ind, ", ".join(f(o) for o in v.outs)))
        return s
