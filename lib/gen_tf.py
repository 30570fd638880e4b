"""Random TensorFlow programs made of raw operators, executed eagerly and turned into functions for conversion."""
import numpy as np
import mbt
import tensorflow as tf

class Reject(Exception):
    pass

F32, F64, I32, I64, I8, U8, I16, BOOL = np.float32, np.float64, np.int32, np.int64, np.int8, np.uint8, np.int16, np.bool_
_ready = False
def setup():
    global _ready
    if not _ready:
        _ready = True
        try:
            tf.config.threading.set_intra_op_parallelism_threads(1)
            tf.config.threading.set_inter_op_parallelism_threads(1)
        except RuntimeError:
            pass

DTATTRS = {"T", "Targmax", "DstT", "output_type", "out_type", "out_idx", "dtype"}

class C:
    """a constant operand"""
    def __init__(self, a):
        self.a = np.asarray(a)

class TP:
    LIM = 1e6
    ILIM = 4e8
    MAX = 300

    def __init__(self, rng, pcomp=.15):
        self.rng = rng
        self.pcomp = pcomp
        self.inputs = []      # (id, dtype, symbolic dims, dynamic flags, (lo, hi, kind))
        self.steps = []       # (op, [(argname, ref or [ref])], attrs, [out ids])
        self.vals = {}        # id -> np array of the first run
        self.used = set()
        self.n = 0
        self.ref = {}         # replacement evaluators by step index (programs TensorFlow cannot run on this machine)
        self.params = set()   # small tensors made to be parameters (sizes, indices): not operands of arithmetic
        self.syms = {k: int(rng.randint(1, 5)) for k in "ABCD"}
        self.dyn = {k: rng.rand() < .5 for k in "ABCD"} if rng.rand() < .6 else {k: False for k in "ABCD"}

    # ---- random helpers
    def ch(self, p):
        return self.rng.rand() < p
    def pick(self, *xs):
        return xs[self.rng.randint(len(xs))]
    def new(self):
        self.n += 1
        return "t%d" % self.n
    def dt(self, x):
        return self.vals[x].dtype.type
    def sh(self, x):
        return list(self.vals[x].shape)
    def rank(self, x):
        return self.vals[x].ndim

    def data(self, shape, dtype, kind="int", lo=-5, hi=6):
        r = self.rng
        if dtype == BOOL:
            return r.randint(0, 2, size=shape).astype(bool)
        if kind == "big":
            lo, hi = 16777214, 16777220
        if dtype in (U8,):
            lo = max(lo, 0)
        a = r.randint(lo, hi, size=shape)
        if np.dtype(dtype).kind == "f":
            if kind == "half":
                a = a / 2.
            elif kind == "frac":
                a = a + r.randint(-7, 8, size=shape) / 8.
            elif kind == "special":
                a = np.where(r.rand(*shape) < .3, np.array([np.nan, np.inf, -np.inf, 0.])[r.randint(0, 4, size=shape)], a)
        return np.asarray(a, dtype=dtype)

    def add_input(self, dims=None, dtype=F32, kind="int", lo=-5, hi=6, fixed=None, name=None):
        """dims: list of symbols or ints"""
        if dims is None:
            dims = [self.pick("A", "B", "C", "D") for _ in range(self.pick(0, 1, 1, 2, 2, 2, 3, 3, 4))]
        x = self.new()
        shape = [self.syms[d] if isinstance(d, str) else d for d in dims]
        self.inputs.append((x, dtype, list(dims), [isinstance(d, str) and self.dyn[d] for d in dims], (lo, hi, kind, fixed)))
        self.vals[x] = self.data(shape, dtype, kind, lo, hi) if fixed is None else np.asarray(fixed, dtype)
        return x

    def param(self, a):
        """a parameter operand: mostly a constant, sometimes an input or a computed tensor of that value"""
        a = np.asarray(a)
        if self.ch(self.pcomp):
            x = self.add_input(list(a.shape), a.dtype.type, fixed=a)
            self.params.add(x)
            if self.ch(.3) and a.dtype.type in (I32, I64, F32):
                y = self.op("AddV2", [("x", x), ("y", C(np.zeros_like(a)))], {})[0]
                self.params.add(y)
                return y
            return x
        return C(a)

    def ten(self, pred=lambda v: True, own=None):
        c = [x for x in self.vals if x not in self.params and pred(self.vals[x])]
        if not c:
            raise Reject("no tensor")
        # recent ones are more likely
        k = len(c)
        w = np.arange(1, k + 1) + 2.
        return c[int(self.rng.choice(k, p=w / w.sum()))]

    def num(self, dts=(F32, F32, F32, I32, I64), rank=None):
        dtype = self.pick(*dts)
        return self.ten(lambda v: v.dtype.type == dtype and (rank is None or v.ndim in rank) and v.size > 0)

    def partner(self, x, same=False):
        """another operand that broadcasts with x: a tensor of the program or a constant"""
        v = self.vals[x]
        def ok(w):
            if w.dtype != v.dtype or (same and w.shape != v.shape):
                return False
            try:
                return np.broadcast_shapes(w.shape, v.shape) is not None
            except ValueError:
                return False
        if self.ch(.55):
            try:
                return self.ten(ok)
            except Reject:
                pass
        if same:
            return C(self.data(list(v.shape), v.dtype.type))
        s = list(v.shape)
        r = self.rng.randint(0, 4)
        if r == 0:
            s = []
        elif r == 1 and s:
            s = s[-1:]
        elif r == 2 and s:
            k = self.rng.randint(len(s))
            s[k] = 1
        if not self.static(x):
            s = []
        return C(self.data(s, v.dtype.type))

    def static(self, x):
        return not any(self.dyn.values())

    # ---- operators
    def call(self, op, args, attrs, get):
        kw = {}
        for k, ref in args:
            kw[k] = [get(q) for q in ref] if isinstance(ref, list) else get(ref)
        for k, v in attrs.items():
            if k in ("terms", "outl") or k[0] == "_":
                continue
            kw[k] = tf.as_dtype(np.dtype(v)) if k in DTATTRS or isinstance(v, type) else v
        r = getattr(tf.raw_ops, op)(**kw)
        if isinstance(r, (tf.Tensor,)) or tf.is_tensor(r):
            return [r]
        return list(r)

    def op(self, op, args, attrs=None, ref=None, keep=None):
        attrs = dict(attrs or {})
        try:
            if ref is not None:
                outs = ref(lambda q: q.a if isinstance(q, C) else self.vals[q])
            else:
                outs = [o.numpy() for o in self.call(op, args, attrs, lambda q: tf.constant(q.a if isinstance(q, C) else self.vals[q]))]
        except Exception as e:
            raise Reject(str(e)[:200])
        for o in outs:
            o = np.asarray(o)
            if o.size > self.MAX:
                raise Reject("size")
            if o.dtype.kind in "iuf" and o.size and not getattr(self, "special", False):
                with np.errstate(all="ignore"):
                    if not np.all(np.isfinite(o.astype(np.float64))) or np.max(np.abs(o.astype(np.float64))) > (self.LIM if o.dtype.kind == "f" else self.ILIM):
                        raise Reject("range")
        ids = [self.new() for _ in outs]
        if ref is not None:
            self.ref[len(self.steps)] = ref
        self.steps.append((op, args, attrs, ids))
        for i, o in zip(ids, outs):
            self.vals[i] = np.asarray(o)
        for k, q in args:
            for z in (q if isinstance(q, list) else [q]):
                if not isinstance(z, C):
                    self.used.add(z)
        return ids

    # ---- whole program
    def outputs(self, cap=12, extra=.2):
        made = [o for _, _, _, ids in self.steps for o in ids]
        if not made:
            raise Reject("empty")
        outs = [o for o in made if o not in self.used]
        outs += [o for o in made if o in self.used and self.ch(extra)]
        outs = [o for o in outs if o not in self.params] or outs
        # results of one operator together
        return outs[-cap:]

    def feeds(self, k):
        """input vector k: 0 as generated, 1 other values, 2 other sizes"""
        if k == 0:
            return [self.vals[i[0]] for i in self.inputs]
        syms = dict(self.syms)
        if k >= 2:
            for s in syms:
                if self.dyn[s]:
                    syms[s] = int(self.rng.randint(1, 6))
        return [self.data([syms[d] if isinstance(d, str) else d for d in dims], dtype, p[2], p[0], p[1]) if p[3] is None else np.asarray(p[3], dtype)
                for _, dtype, dims, _, p in self.inputs]

    def skip(self, vals):
        """whether an input vector is left out (overridden where a recorded finding would hide everything else)"""
        return False

    def execute(self, feed, names=None):
        """all tensors for one input vector"""
        vals = {i[0]: a for i, a in zip(self.inputs, feed)}
        for j, (op, args, attrs, ids) in enumerate(self.steps):
            if names is not None and not any(i in names for i in ids):
                continue
            if j in self.ref:
                outs = self.ref[j](lambda q: q.a if isinstance(q, C) else vals[q])
            else:
                outs = [o.numpy() for o in self.call(op, args, attrs, lambda q: tf.constant(q.a if isinstance(q, C) else vals[q]))]
            for i, o in zip(ids, outs):
                vals[i] = np.asarray(o)
        return vals

    def needed(self, outs):
        need = set(outs)
        for op, args, attrs, ids in reversed(self.steps):
            if any(i in need for i in ids):
                for _, q in args:
                    need |= {z for z in (q if isinstance(q, list) else [q]) if not isinstance(z, C)}
        return need

    def function(self, outs):
        need = self.needed(outs)
        def f(*xs):
            env = {i[0]: x for i, x in zip(self.inputs, xs)}
            for op, args, attrs, ids in self.steps:
                if any(i in need for i in ids):
                    rs = self.call(op, args, attrs, lambda q: tf.constant(q.a) if isinstance(q, C) else env[q])
                    env.update(zip(ids, rs))
            return tuple(tf.identity(env[o], name="out_%d" % k) for k, o in enumerate(outs))
        sig = [tf.TensorSpec([None if d else s for d, s in zip(dyn, np.shape(self.vals[x]))], dtype=tf.as_dtype(np.dtype(dtype)), name="in_%s" % x)
               for x, dtype, dims, dyn, p in self.inputs]
        return tf.function(f, input_signature=sig), sig

    # ---- specification form
    def spec(self, outs):
        need = self.needed(outs)
        nodes, k = [], 0
        for op, args, attrs, ids in self.steps:
            if not any(i in need for i in ids):
                continue
            ins = []
            for _, q in args:
                for z in (q if isinstance(q, list) else [q]):
                    if isinstance(z, C):
                        k += 1
                        nodes.append({"op": "Const", "in": [], "out": ["c%d" % k], "a": {"value": mbt.enc_array(z.a)}})
                        ins.append("c%d" % k)
                    else:
                        ins.append(z)
            a = {}
            for n, v in attrs.items():
                if n in DTATTRS or isinstance(v, type):
                    a[n] = mbt.DT[np.dtype(v).name]
                elif isinstance(v, (bool, np.bool_)):
                    a[n] = int(v)
                elif isinstance(v, float):
                    continue
                else:
                    a[n] = v
            nodes.append({"op": op, "in": ins, "out": list(ids), "a": a})
        return {"in": [i[0] for i in self.inputs], "out": list(outs), "nodes": nodes}

    def describe(self, outs=None):
        need = self.needed(outs) if outs else None
        s = []
        for x, dtype, dims, dyn, p in self.inputs:
            if need is None or x in need:
                s.append("%s = input %s %s" % (x, np.dtype(dtype).name, [None if d else n for d, n in zip(dyn, np.shape(self.vals[x]))]))
        f = lambda q: "[%s]" % ", ".join(map(f, q)) if isinstance(q, list) else ("%s%s" % (q.a.dtype.name, str(q.a.tolist())[:120]) if isinstance(q, C) else q)
        for op, args, attrs, ids in self.steps:
            if need is None or any(i in need for i in ids):
                s.append("%s = %s(%s%s)" % (",".join(ids), op, ", ".join("%s=%s" % (k, f(q)) for k, q in args),
                                            "".join(", %s=%s" % (k, getattr(v, "__name__", v)) for k, v in attrs.items())))
        return s
