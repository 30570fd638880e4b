"""C03: converted image programs (convolution, pooling, normalisation, resizing, layouts, matrix products) compute what TensorFlow computes."""
META = ("TLA+ operator semantics of TensorFlow and execution machine (TFSem.tla, TFTrace.tla); TLC follows recorded TensorFlow executions and judges the converted models' answers", "translation_validation",
        "random raw-operator image programs (2-D/3-D/depthwise/grouped/dilated/transposed convolution, pooling, batch norm, bias, padding before convolution, space/depth/batch rearrangements, resizing, patches, crops, matrix products, einsum, flatten and gemm patterns; NHWC and NCHW, static/dynamic sizes) are converted at opsets 7..18 and run; TLC decides every result from the specification; trusts TLC, TensorFlow eager execution (NCHW by transposing around it) and onnxruntime")
from tf_check import *
from gen_tf import *

LAST = {4: "NHWC", 5: "NDHWC"}
FIRST = {4: "NCHW", 5: "NCDHW"}

def to_last(a):
    return np.moveaxis(a, 1, -1)
def to_first(a):
    return np.moveaxis(a, -1, 1)
def perm_list(v):
    return [v[0]] + list(v[2:]) + [v[1]]

class Img(TP):
    MAX = 500
    def img(self, rank=4, minsp=1, dt=F32, pred=lambda v: True):
        return self.ten(lambda v: v.ndim == rank and v.dtype.type == dt and v.size > 0 and min(v.shape) >= minsp and np.abs(v).max() < 2000 and pred(v))

    def skip(self, vals):
        """results without elements, which the runtime's kernels refuse, and crops of the image's own size, for which it
        ignores the box"""
        if any(isinstance(v, np.ndarray) and v.size == 0 for k, v in vals.items() if k not in self.params):
            return True
        for op, args, attrs, ids in self.steps:
            d = dict(args)
            if op == "Conv2D":
                # TensorFlow reads the number of groups off the channels of the image it gets
                c = attrs["data_format"].index("C")
                if vals[d["input"]].shape[c] != self.sh(d["input"])[c]:
                    return True
            if op.startswith("Resize") and min(getattr(self, "opsets", OPSETS)) < 10:
                # Upsample of opset 7 to 9 does not make images smaller, which shows when the sizes are known
                to = d["size"].a if isinstance(d["size"], C) else vals[d["size"]]
                if any(vals[d["images"]].shape[1 + i] > to[i] for i in range(2)) and any(self.dyn.values()):
                    return True
            if op == "Greater" and any(v.dtype.kind == "f" and np.any(v != np.round(v)) for v in vals.values()):
                # a rounded number next to the threshold falls on either side of it
                if np.any(np.abs(vals[d["x"]] - d["y"].a) < 1e-3):
                    return True
            if op == "CropAndResize":
                im = vals[d["image"]].shape
                if any(im[1 + i] == d["crop_size"].a[i] and im[1 + i] > 1 for i in range(2)):
                    return True
        return False

    def layout(self, x):
        """(data format, channels, spatial sizes)"""
        r = self.rank(x)
        f = getattr(self, "fmt", "last") == "last"
        if self.ch(.1):
            f = not f
        s = self.sh(x)
        return (LAST[r], s[-1], s[1:-1], True) if f else (FIRST[r], s[1], s[2:], False)

    def lop(self, op, args, attrs, last, img=(), lists=(), outs=1):
        """an operator with a data format: TensorFlow's own for the last-channel layout, transposed around it otherwise"""
        ref = None
        if not last:
            r = len(attrs.get("strides", attrs.get("ksize", [0] * self.rank(args[0][1]))))
            at = dict(attrs)
            at["data_format"] = LAST[r] if r in LAST else "NHWC"
            for k in lists:
                at[k] = perm_list(at[k])
            if "explicit_paddings" in at and at["explicit_paddings"]:
                e = at["explicit_paddings"]
                at["explicit_paddings"] = e[:2] + e[4:] + e[2:4]
            def ref(get, at=at):
                a2 = []
                for k, q in args:
                    v = np.asarray(get(q))
                    if k in img:
                        v = to_last(v)
                    elif k in ("input_sizes", "_sizes"):
                        v = np.asarray(perm_list(list(v)), v.dtype)
                    a2.append((k, C(v)))
                res = [o.numpy() for o in self.call(op, a2, at, lambda q: tf.constant(q.a))]
                return [to_first(o) if o.ndim == r and k == 0 else o for k, o in enumerate(res)]
        return self.op(op, args, attrs, ref=ref)

def ones(sp, a, last, ends=1):
    return [1] + list(a) + [1] if last else [1, 1] + list(a)

def kern(p, shape, lo=-2, hi=3):
    k = C(p.data(shape, F32, "int", lo, hi))
    if p.ch(.08):
        return p.add_input(list(shape), F32, fixed=k.a)
    if p.ch(.05):
        return p.op("Mul", [("x", p.add_input(list(shape), F32, fixed=k.a)), ("y", C(np.float32(1)))], {})[0]
    return k

def sizes(p, sp, hi, same):
    return [int(p.rng.randint(1, min(hi, (n if not same else n + 2)) + 1)) for n in sp]

def e_conv(p, rank=4):
    x = p.img(rank)
    df, c, sp, last = p.layout(x)
    pad = p.pick("SAME", "VALID", "SAME", "VALID", "EXPLICIT") if rank == 4 else p.pick("SAME", "VALID")
    ex = []
    if pad == "EXPLICIT":
        q = [int(v) for v in p.rng.randint(0, 3, size=2 * len(sp))]
        ex = [0, 0] + q + [0, 0] if last else [0, 0, 0, 0] + q
    ks = sizes(p, sp, 3, pad != "VALID")
    dl = [1] * len(sp)
    if p.ch(.25):
        dl = [int(v) for v in p.rng.randint(1, 4, size=len(sp))]
    if pad == "VALID":
        dl = [d if (k - 1) * d + 1 <= n else 1 for d, k, n in zip(dl, ks, sp)]
    st = [1] * len(sp) if p.ch(.5) else [int(v) for v in p.rng.randint(1, 4, size=len(sp))]
    if rank == 4 and p.ch(.3):
        st = [st[0]] * 2
    if rank == 5 and pad == "SAME":
        st = [min(a, (k - 1) * d + 1) for a, k, d in zip(st, ks, dl)]
    g = 1
    if rank == 4 and c % 2 == 0 and p.ch(.2) and not any(p.dyn.values()):
        g = 2
    m = g * p.pick(1, 2, 3)
    a = {"strides": ones(sp, st, last), "padding": pad, "data_format": df, "dilations": ones(sp, dl, last)}
    if rank == 4:
        a.update({"explicit_paddings": ex, "use_cudnn_on_gpu": True})
    w = kern(p, ks + [c // g, m])
    y = p.lop("Conv%dD" % (rank - 2), [("input", x), ("filter", w)], a, last, ("input",), ("strides", "dilations"))[0]
    if p.ch(.4):
        y = bias(p, y, df, m, last)
    return y

def bias(p, y, df, m, last):
    b = p.param(p.data([m], F32))
    if last and p.ch(.35):
        return p.op(p.pick("AddV2", "Add"), [("x", y), ("y", b)], {})[0]
    if p.rank(y) == 5 and not last:
        return p.op("AddV2", [("x", y), ("y", C(p.data([m, 1, 1, 1], F32)))], {})[0]
    f = "NHWC" if last else "NCHW"
    if last and p.ch(.2):
        return p.op("BiasAddV1", [("value", y), ("bias", b)], {})[0]
    return p.lop("BiasAdd", [("value", y), ("bias", b)], {"data_format": f}, last, ("value",))[0]

def e_conv3(p):
    return e_conv(p, 5)

def e_conv1(p):
    x = p.ten(lambda v: v.ndim == 3 and v.dtype.type == F32 and v.size > 0 and np.abs(v).max() < 2000)
    n, l, c = p.sh(x)
    e = p.op("ExpandDims", [("input", x), ("axis", C(np.int32(p.pick(1, -3))))])[0]
    pad = p.pick("SAME", "VALID")
    k = int(p.rng.randint(1, min(l, 3) + 1))
    s = p.pick(1, 1, 2)
    y = p.op("Conv2D", [("input", e), ("filter", kern(p, [1, k, c, p.pick(1, 2, 3)]))],
             {"strides": [1, s, s, 1], "padding": pad, "data_format": "NHWC", "dilations": [1, 1, 1, 1], "explicit_paddings": [], "use_cudnn_on_gpu": True})[0]
    return p.op("Squeeze", [("input", y)], {"axis": [1] if p.ch(.5) else [-3]})[0]

def e_depthwise(p):
    x = p.img()
    df, c, sp, last = p.layout(x)
    pad = p.pick("SAME", "VALID", "EXPLICIT")
    ex = []
    if pad == "EXPLICIT":
        q = [int(v) for v in p.rng.randint(0, 3, size=4)]
        ex = [0, 0] + q + [0, 0] if last else [0, 0, 0, 0] + q
    ks = sizes(p, sp, 3, pad != "VALID")
    s = p.pick(1, 1, 2, 3)
    a = {"strides": ones(sp, [s, s], last), "padding": pad, "data_format": df, "dilations": [1, 1, 1, 1], "explicit_paddings": ex}
    m = p.pick(1, 1, 2)
    y = p.lop("DepthwiseConv2dNative", [("input", x), ("filter", kern(p, ks + [c, m]))], a, last, ("input",), ("strides", "dilations"))[0]
    if p.ch(.3):
        y = bias(p, y, df, c * m, last)
    return y

def e_deconv(p, rank=4):
    x = p.img(rank)
    df, c, sp, last = p.layout(x)
    pad = p.pick("SAME", "VALID") if rank == 5 or p.ch(.8) else "EXPLICIT"
    ks = [int(v) for v in p.rng.randint(1, 4, size=len(sp))]
    st = [int(v) for v in p.rng.randint(1, 3, size=len(sp))]
    ex = []
    if pad == "SAME":
        os = [n * s - int(p.rng.randint(0, s)) for n, s in zip(sp, st)]
    elif pad == "VALID":
        os = [(n - 1) * s + k + int(p.rng.randint(0, s)) for n, s, k in zip(sp, st, ks)]
    else:
        q = [int(v) for v in p.rng.randint(0, 2, size=4)]
        os = [(n - 1) * s + k - q[2 * i] - q[2 * i + 1] for i, (n, s, k) in enumerate(zip(sp, st, ks))]
        ex = [0, 0] + q + [0, 0] if last else [0, 0, 0, 0] + q
    if min(os) <= 0:
        raise Reject("size")
    m = p.pick(1, 2)
    n0 = p.sh(x)[0]
    full = [n0] + os + [m] if last else [n0, m] + os
    r = p.rng.randint(0, 3)
    if any(p.dyn.values()) or r == 0:
        # the batch size as code computes it
        s0 = p.op("Shape", [("input", x)], {"out_type": I32})[0]
        b0 = p.op("StridedSlice", [("input", s0), ("begin", C(np.array([0], I32))), ("end", C(np.array([1], I32))), ("strides", C(np.array([1], I32)))],
                  {"begin_mask": 0, "end_mask": 0, "ellipsis_mask": 0, "new_axis_mask": 0, "shrink_axis_mask": 1})[0]
        p.params |= {s0, b0}
        sz = p.op("Pack", [("values", [b0] + [C(np.int32(v)) for v in full[1:]])], {"axis": 0})[0]
        p.params.add(sz)
    else:
        sz = C(np.array(full, I32))
    a = {"strides": ones(sp, st, last), "padding": pad, "data_format": df, "dilations": [1] * rank}
    if rank == 4:
        a.update({"explicit_paddings": ex, "use_cudnn_on_gpu": True})
        op = "Conv2DBackpropInput"
    else:
        op = "Conv3DBackpropInputV2"
    return p.lop(op, [("input_sizes", sz), ("filter", kern(p, ks + [m, c])), ("out_backprop", x)], a, last, ("out_backprop",), ("strides", "dilations"))[0]

def e_deconv3(p):
    return e_deconv(p, 5)

def e_pool(p, rank=4):
    x = p.img(rank)
    df, c, sp, last = p.layout(x)
    op = p.pick("MaxPool", "AvgPool") + ("3D" if rank == 5 else "")
    pad = p.pick("SAME", "VALID")
    if op == "MaxPool" and p.ch(.2):
        pad = "EXPLICIT"
    ks = sizes(p, sp, 3, pad == "SAME")
    st = [int(v) for v in p.rng.randint(1, 4, size=len(sp))]
    if rank == 5 and pad == "SAME":
        st = [min(a, b) for a, b in zip(st, ks)]        # TensorFlow's 3-D kernels pad by negative amounts otherwise
    a = {"ksize": ones(sp, ks, last), "strides": ones(sp, st, last), "padding": pad, "data_format": df}
    k = "input" if "3D" in op or op == "MaxPool" else "value"
    if pad == "EXPLICIT":
        q = [int(p.rng.randint(0, kk)) for kk in ks for _ in range(2)]
        a["explicit_paddings"] = [0, 0] + q + [0, 0] if last else [0, 0, 0, 0] + q
    elif op == "MaxPool":
        a["explicit_paddings"] = []
    return p.lop(op, [(k, x)], a, last, (k,), ("ksize", "strides"))[0]

def e_pool3(p):
    return e_pool(p, 5)

def e_poolv2(p):
    x = p.img()
    s = p.sh(x)
    pad = p.pick("SAME", "VALID")
    ks = sizes(p, s[1:-1], 3, pad == "SAME")
    st = [int(v) for v in p.rng.randint(1, 4, size=2)]
    return p.op("MaxPoolV2", [("input", x), ("ksize", C(np.array([1] + ks + [1], I32))), ("strides", C(np.array([1] + st + [1], I32)))], {"padding": pad, "data_format": "NHWC"})[0]

def e_argpool(p):
    x = p.img(pred=lambda v: all(len(np.unique(v[i, :, :, k])) == v[i, :, :, k].size for i in range(v.shape[0]) for k in range(v.shape[3])))
    s = p.sh(x)
    pad = p.pick("SAME", "VALID")
    ks = sizes(p, s[1:-1], 3, pad == "SAME")
    st = [int(v) for v in p.rng.randint(1, 3, size=2)]
    return p.op("MaxPoolWithArgmax", [("input", x)], {"ksize": [1] + ks + [1], "strides": [1] + st + [1], "padding": pad, "Targmax": I64, "include_batch_in_index": p.ch(.5)})

def e_norm(p):
    r = 4 if p.ch(.8) else 5
    x = p.img(r)
    df, c, sp, last = p.layout(x)
    eps = p.pick(1., 1., .001)
    tr = p.ch(.12)
    k = p.rng.randint(1, 4, size=c)
    var = (k * k - 1 if eps == 1. else k * k).astype(F32)
    f = p.param if p.ch(.3) else C
    args = [("x", x), ("scale", f(p.data([c], F32))), ("offset", f(p.data([c], F32)))]
    if tr:
        args += [("mean", C(np.zeros([0], F32))), ("variance", C(np.zeros([0], F32)))]
    else:
        args += [("mean", f(p.data([c], F32))), ("variance", f(var))]
    a = {"epsilon": float(eps), "data_format": df, "is_training": tr, "exponential_avg_factor": 1.0}
    if eps == 1.:
        a["_eps"] = 1
    op = "FusedBatchNormV3" if r == 5 else p.pick("FusedBatchNormV3", "FusedBatchNormV3", "FusedBatchNorm", "FusedBatchNormV2")
    if op != "FusedBatchNormV3" and tr:
        raise Reject("")
    ids = p.lop(op, args, a, last, ("x",))
    p.params |= set(ids[1:])
    return ids[0]

def e_bias(p):
    x = p.img(4)
    df, c, sp, last = p.layout(x)
    return bias(p, x, df, c, last)

def e_padconv(p):
    """explicit Pad in front of a convolution or pooling"""
    x = p.img(4)
    df, c, sp, last = p.layout(x)
    q = [[int(v) for v in p.rng.randint(0, 3, size=2)] for _ in sp]
    z = [[0, 0]]
    pads = z + q + z if last else z + z + q
    if p.ch(.1):
        pads[0] = [0, 1]
    op = p.pick("Pad", "Pad", "PadV2", "MirrorPad")
    args = [("input", x), ("paddings", C(np.array(pads, p.pick(I32, I64))))]
    at = {}
    if op == "PadV2":
        args.append(("constant_values", C(np.float32(p.pick(0, 0, 1, -2)))))
    if op == "MirrorPad":
        at = {"mode": p.pick("REFLECT", "SYMMETRIC")}
    y = p.op(op, args, at)[0]
    sp = [n + a + b for n, (a, b) in zip(sp, q)]
    m = p.pick(1, 2)
    pad = p.pick("VALID", "VALID", "SAME")
    ks = sizes(p, sp, 3, False)
    st = p.pick(1, 2)
    if p.ch(.7):
        a = {"strides": ones(sp, [st, st], last), "padding": pad, "data_format": df, "dilations": [1] * 4, "explicit_paddings": [], "use_cudnn_on_gpu": True}
        return p.lop("Conv2D", [("input", y), ("filter", kern(p, ks + [c, m]))], a, last, ("input",), ("strides", "dilations"))[0]
    a = {"ksize": ones(sp, ks, last), "strides": ones(sp, [st, st], last), "padding": pad, "data_format": df, "explicit_paddings": []}
    return p.lop("MaxPool", [("input", y)], a, last, ("input",), ("ksize", "strides"))[0]

def e_s2d(p):
    x = p.img(4)
    df, c, sp, last = p.layout(x)
    if p.ch(.5):
        bs = [b for b in (2, 3) if all(n % b == 0 for n in sp)]
        op = "SpaceToDepth"
    else:
        bs = [b for b in (2, 3) if c % (b * b) == 0]
        op = "DepthToSpace"
    if not bs:
        raise Reject("block")
    return p.lop(op, [("input", x)], {"block_size": int(p.pick(*bs)), "data_format": df}, last, ("input",))[0]

def s2b(p, x, sp, blocks):
    pads = []
    for n, b in zip(sp, blocks):
        lo = int(p.rng.randint(0, 2))
        pads.append([lo, (-(n + lo)) % b])
    op = p.op("SpaceToBatchND", [("input", x), ("block_shape", C(np.array(blocks, I32))), ("paddings", C(np.array(pads, I32)) if p.ch(.8) else p.param(np.array(pads, I32)))], {})[0]
    return op, pads

def e_s2b(p):
    r = p.pick(3, 4, 4, 4)
    x = p.img(r)
    s = p.sh(x)
    m = p.pick(1, 2, 2) if r == 4 else p.pick(1, 2)
    b = [int(v) for v in p.rng.randint(1, 4, size=m)]
    if p.ch(.6):
        b = [p.pick(2, 2, 3)] * m
    if p.ch(.5):
        return s2b(p, x, s[1:1 + m], b)[0]
    n = int(np.prod(b))
    if s[0] % n:
        x, _ = s2b(p, x, s[1:1 + m], b)
        s = p.sh(x)
    crops = [[int(v) for v in p.rng.randint(0, 2, size=2)] for _ in b]
    return p.op("BatchToSpaceND", [("input", x), ("block_shape", C(np.array(b, I32))), ("crops", C(np.array(crops, I32)) if p.ch(.8) else p.param(np.array(crops, I32)))], {})[0]

def e_dilated(p):
    """the space-to-batch form of a dilated convolution"""
    x = p.img(4)
    n, h, w, c = p.sh(x)
    d = p.pick(2, 2, 3)
    b = [d, d] if p.ch(.8) else [d, p.pick(1, 2)]
    ks = [p.pick(1, 2, 3), p.pick(1, 2, 3)]
    same = p.ch(.6)
    pads, crops = [], []
    for sz, k, bb in zip((h, w), ks, b):
        tot = (k - 1) * bb if same else 0
        lo = tot // 2
        hi = tot - lo
        extra = (-(sz + lo + hi)) % bb
        pads.append([lo, hi + extra])
        crops.append([0, extra])
        if sz + tot < (k - 1) * bb + 1:
            raise Reject("size")
    y = p.op("SpaceToBatchND", [("input", x), ("block_shape", C(np.array(b, I32))), ("paddings", C(np.array(pads, I32)))], {})[0]
    if p.ch(.6):
        m = p.pick(1, 2)
        st = [1, 1, 1, 1] if p.ch(.85) else [1, 2, 2, 1]
        y = p.op("Conv2D", [("input", y), ("filter", kern(p, ks + [c, m]))],
                 {"strides": st, "padding": "VALID", "data_format": "NHWC", "dilations": [1] * 4, "explicit_paddings": [], "use_cudnn_on_gpu": True})[0]
    else:
        m = c * p.pick(1, 1, 2)
        y = p.op("DepthwiseConv2dNative", [("input", y), ("filter", kern(p, ks + [c, m // c]))],
                 {"strides": [1] * 4, "padding": "VALID", "data_format": "NHWC", "dilations": [1] * 4, "explicit_paddings": []})[0]
    if p.ch(.25):
        y = p.op("BiasAdd", [("value", y), ("bias", C(p.data([m], F32)))], {"data_format": "NHWC"})[0]
    return p.op("BatchToSpaceND", [("input", y), ("block_shape", C(np.array(b, I32))), ("crops", C(np.array(crops, I32)))], {})[0]

def e_resize(p):
    x = p.img(4)
    s = p.sh(x)
    op = p.pick("ResizeNearestNeighbor", "ResizeBilinear")
    if p.ch(.5):
        k = p.pick(1, 2, 3)
        sz = [s[1] * k, s[2] * k] if p.ch(.6) else [s[1] * k, s[2] * p.pick(1, 2)]
    else:
        sz = [int(v) for v in p.rng.randint(1, 9, size=2)]
    if op == "ResizeNearestNeighbor" and any(a < b and b % a for a, b in zip(sz, s[1:3])):
        # the operator of opset 10 does not say how it rounds, and the runtime rounds up when it makes an image smaller
        p.opsets = [o for o in getattr(p, "opsets", OPSETS) if o >= 11]
    if any(p.dyn.values()) and p.ch(.5):
        p.opsets = [o for o in getattr(p, "opsets", OPSETS) if o >= 10]
    al, hp = p.pick((0, 0), (0, 0), (1, 0), (0, 1), (0, 1))
    return p.op(op, [("images", x), ("size", p.param(np.array(sz, I32)) if p.ch(.5) else C(np.array(sz, I32)))], {"align_corners": bool(al), "half_pixel_centers": bool(hp)})[0]

def e_patches(p):
    x = p.img(4)
    s = p.sh(x)
    pad = p.pick("SAME", "VALID")
    ks = sizes(p, s[1:3], 3, pad == "SAME")
    rt = [1, 1] if p.ch(.6) else [int(v) for v in p.rng.randint(1, 3, size=2)]
    if pad == "VALID":
        rt = [d if (k - 1) * d + 1 <= n else 1 for d, k, n in zip(rt, ks, s[1:3])]
    st = [int(v) for v in p.rng.randint(1, 4, size=2)]
    return p.op("ExtractImagePatches", [("images", x)], {"ksizes": [1] + ks + [1], "strides": [1] + st + [1], "rates": [1] + rt + [1], "padding": pad})[0]

def e_crop(p):
    x = p.img(4)
    s = p.sh(x)
    n = int(p.rng.randint(1, 4))
    boxes = p.rng.randint(0, 5, size=(n, 4)) / 4.
    boxes = np.concatenate([np.minimum(boxes[:, :2], boxes[:, 2:]), np.maximum(boxes[:, :2], boxes[:, 2:])], axis=1).astype(F32)
    ind = p.rng.randint(0, s[0], size=n).astype(I32)
    cs = p.rng.randint(1, 4, size=2).astype(I32)
    return p.op("CropAndResize", [("image", x), ("boxes", p.param(boxes)), ("box_ind", p.param(ind)), ("crop_size", C(cs))],
                {"method": p.pick("bilinear", "bilinear", "nearest"), "extrapolation_value": float(p.pick(0, 0, 1))})[0]

def e_lrn(p):
    x = p.img(4)
    return p.op("LRN", [("input", x)], {"depth_radius": p.pick(1, 2), "bias": 1.0, "alpha": float(p.pick(1., .5)), "beta": float(p.pick(1., .5))})[0]

def mat(p, dt=F32):
    return p.ten(lambda v: v.ndim >= 2 and v.dtype.type == dt and v.size > 0 and np.abs(v).max() < 2000)

def e_matmul(p):
    dt = p.pick(F32, F32, F32, F32, F64, I32)
    x = p.ten(lambda v: v.ndim == 2 and v.dtype.type == dt and v.size > 0 and np.abs(v).max() < 2000)
    m, k = p.sh(x)
    ta, tb = p.ch(.3), p.ch(.3)
    if ta:
        k = m
    n = int(p.rng.randint(1, 4))
    try:
        if p.ch(.5):
            raise Reject("")
        y = p.ten(lambda v: v.ndim == 2 and v.dtype.type == dt and v.shape[1 if tb else 0] == k)
    except Reject:
        y = C(p.data([n, k] if tb else [k, n], dt, "int", -3, 4))
    sw = p.ch(.15)
    a = {"transpose_a": ta, "transpose_b": tb}
    if sw and isinstance(y, C):
        z = p.op("MatMul", [("a", C(y.a.T if not tb else y.a)), ("b", x)], {"transpose_a": False, "transpose_b": not ta})[0]
    else:
        z = p.op("MatMul", [("a", x), ("b", y)], a)[0]
    r = p.rng.randint(0, 6)
    if r == 0 and dt == F32:
        return p.op("BiasAdd", [("value", z), ("bias", C(p.data([p.sh(z)[1]], dt)))], {"data_format": "NHWC"})[0]
    if r == 1:
        # alpha * A * B + beta * C
        al = C(np.asarray(p.pick(2, 1, -1), dt))
        z = p.op("Mul", [("x", al), ("y", z)])[0] if p.ch(.7) else z
        c = p.partner(z)
        if p.ch(.5):
            c = p.op("Mul", [("x", C(np.asarray(p.pick(2, 3), dt))), ("y", c)])[0]
        return p.op("AddV2", [("x", z), ("y", c)])[0]
    return z

def e_batchmm(p):
    dt = p.pick(F32, F32, F32, F64, I32)
    x = mat(p, dt)
    s = p.sh(x)
    ax, ay = p.ch(.3), p.ch(.3)
    k = s[-2] if ax else s[-1]
    n = int(p.rng.randint(1, 4))
    b = s[:-2]
    r = p.rng.randint(0, 4)
    if r == 0:
        b = []
    elif r == 1 and b:
        b = [1] * len(b)
    elif r == 2 and len(b) == 1:
        b = [2] + b
    if any(p.dyn.values()) and b != []:
        try:
            y = p.ten(lambda v: v.ndim >= 2 and v.dtype.type == dt and v.shape[-1 if ay else -2] == k)
        except Reject:
            y = C(p.data([n, k] if ay else [k, n], dt, "int", -3, 4))
    else:
        y = C(p.data(b + ([n, k] if ay else [k, n]), dt, "int", -3, 4))
    op = "BatchMatMulV2" if p.ch(.8) else "BatchMatMulV3"
    a = {"adj_x": ax, "adj_y": ay}
    if op == "BatchMatMulV3":
        a["Tout"] = tf.as_dtype(np.dtype(dt))
        raise Reject("")
    return p.op(op, [("x", x), ("y", y)], a)[0]

EQS = ["ij,jk->ik", "ij,kj->ik", "bij,bjk->bik", "bij,bkj->bik", "ij,jk->ki", "bij,jk->bik", "abc,cd->abd", "abc,cde->abde", "abcd,cde->abe", "ij->ji", "bhqd,bhkd->bhqk", "ij,ij->i", "ij,ij->", "i,j->ij", "ij,j->i",
       "bqhd,bkhd->bhqk", "bhqk,bkhd->bqhd", "abcd,aecd->aceb", "ab,cb->ac", "ijk->ik", "abc,adc->abd"]
def e_einsum(p):
    eq = EQS[p.rng.randint(len(EQS))]
    ins, out = eq.split("->")
    ins = ins.split(",")
    x = p.ten(lambda v: v.ndim == len(ins[0]) and v.dtype.type == F32 and v.size > 0 and np.abs(v).max() < 2000)
    dims = dict(zip(ins[0], p.sh(x)))
    ops = [x]
    if len(ins) == 2:
        for l in ins[1]:
            dims.setdefault(l, int(p.rng.randint(1, 4)))
        want = tuple(dims[l] for l in ins[1])
        try:
            if p.ch(.3) and not any(p.dyn.values()):
                raise Reject("")
            y = p.ten(lambda v: v.shape == want and v.dtype.type == F32)
        except Reject:
            if any(p.dyn.values()) and any(l in ins[0] for l in ins[1] if dims[l] != 1) and p.ch(.7):
                raise Reject("")
            y = C(p.data(list(want), F32, "int", -2, 3))
        ops.append(y)
    code = {l: k + 1 for k, l in enumerate(sorted(set(eq) - set(",->")))}
    return p.op("Einsum", [("inputs", ops)], {"equation": eq, "terms": [[code[l] for l in t] for t in ins], "outl": [code[l] for l in out]})[0]

def e_flatten(p):
    x = p.ten(lambda v: v.ndim in (3, 4, 5) and v.size > 0 and v.dtype.type == F32)
    s = p.sh(x)
    if p.ch(.4):
        t = p.op("Shape", [("input", x)], {"out_type": I32})[0]
        b = p.op("StridedSlice", [("input", t), ("begin", C(np.array([0], I32))), ("end", C(np.array([1], I32))), ("strides", C(np.array([1], I32)))],
                 {"begin_mask": 0, "end_mask": 0, "ellipsis_mask": 0, "new_axis_mask": 0, "shrink_axis_mask": 1})[0]
        p.params |= {t, b}
        last = -1 if p.ch(.6) else int(np.prod(s[1:]))
        sh = p.op("Pack", [("values", [b, C(np.int32(last))])], {"axis": 0})[0]
        p.params.add(sh)
    else:
        sh = C(np.array([-1, int(np.prod(s[1:]))], I32))
    return p.op("Reshape", [("tensor", x), ("shape", sh)])[0]

def e_tr(p):
    x = p.ten(lambda v: v.ndim in (4, 5) and v.dtype.type == F32)
    r = p.rank(x)
    last = [0] + list(range(2, r)) + [1]
    first = [0, r - 1] + list(range(1, r - 1))
    q = last if p.ch(.4) else first if p.ch(.7) else [int(v) for v in p.rng.permutation(r)]
    y = p.op("Transpose", [("x", x), ("perm", C(np.array(q, I32)))])[0]
    if p.ch(.5) and q in (last, first):
        p.fmt = "first" if q == first else "last"
    return y

def e_un(p):
    x = p.ten(lambda v: v.dtype.type == F32 and v.size > 0 and np.abs(v).max() < 2000)
    op = p.pick("Relu", "Relu", "Relu6", "Neg", "Abs", "Square", "Sigmoid", "Tanh", "LeakyRelu", "Elu", "Softplus", "Identity")
    k = {"Relu": "features", "Relu6": "features", "LeakyRelu": "features", "Elu": "features", "Softplus": "features", "Identity": "input"}.get(op, "y" if op == "Inv" else "x")
    return p.op(op, [(k, x)], {"alpha": float(p.pick(.2, .5))} if op == "LeakyRelu" else {})[0]

def e_leaky(p):
    """the Maximum and Greater forms of the leaky and thresholded units"""
    x = p.ten(lambda v: v.dtype.type == F32 and v.size > 0 and np.abs(v).max() < 2000)
    if p.ch(.5):
        al = C(np.float32(p.pick(.5, .25, .1, 2., -1.)))
        m = p.op("Mul", [("x", al), ("y", x)] if p.ch(.5) else [("x", x), ("y", al)])[0]
        return p.op("Maximum", [("x", m), ("y", x)] if p.ch(.6) else [("x", x), ("y", m)])[0]
    th = C(np.float32(p.pick(0, 1, 2, -1)))
    g = p.op("Greater", [("x", x), ("y", th)])[0]
    c = p.op("Cast", [("x", g)], {"DstT": F32})[0]
    p.params |= {g, c}
    return p.op("Mul", [("x", x), ("y", c)] if p.ch(.5) else [("x", c), ("y", x)])[0]

def e_bin(p):
    x = p.ten(lambda v: v.dtype.type == F32 and v.size > 0 and v.ndim >= 2 and np.abs(v).max() < 2000)
    y = p.partner(x)
    return p.op(p.pick("AddV2", "Mul", "Sub", "Maximum"), [("x", x), ("y", y)])[0]

def e_mean(p):
    x = p.ten(lambda v: v.dtype.type == F32 and v.size > 0 and v.ndim in (4, 5) and np.abs(v).max() < 2000)
    r = p.rank(x)
    ax = p.pick(list(range(1, r - 1)), list(range(2, r)), [1], [r - 1], [-1])
    return p.op(p.pick("Mean", "Mean", "Max", "Sum"), [("input", x), ("axis", C(np.array(ax, I32)))], {"keep_dims": p.ch(.5)})[0]

def e_dilated_first(p):
    """the same with the channels first, and for 1-D"""
    if p.ch(.5):
        x = p.img(4)
        n, c, h, w = p.sh(x)
        d = p.pick(2, 3)
        b = [1, d, d]
        ks = [p.pick(1, 2), p.pick(1, 2)]
        pads = [[0, 0]] + [[0, (-sz) % d] for sz in (h, w)]
        if min(h, w) < (max(ks) - 1) * d + 1:
            raise Reject("size")
        y = p.op("SpaceToBatchND", [("input", x), ("block_shape", C(np.array(b, I32))), ("paddings", C(np.array(pads, I32)))], {})[0]
        a = {"strides": [1] * 4, "padding": "VALID", "data_format": "NCHW", "dilations": [1] * 4, "explicit_paddings": [], "use_cudnn_on_gpu": True}
        y = p.lop("Conv2D", [("input", y), ("filter", kern(p, ks + [c, 2]))], a, False, ("input",), ("strides", "dilations"))[0]
        return p.op("BatchToSpaceND", [("input", y), ("block_shape", C(np.array(b, I32))), ("crops", C(np.array(pads, I32)))], {})[0]
    x = p.ten(lambda v: v.ndim == 3 and v.dtype.type == F32 and v.size > 0 and np.abs(v).max() < 2000)
    n, l, c = p.sh(x)
    d = p.pick(2, 3)
    k = p.pick(1, 2, 3)
    tot = (k - 1) * d
    lo = p.pick(0, tot // 2, tot)
    hi = p.pick(0, tot - lo)
    ex = (-(l + lo + hi)) % d
    if l + lo + hi < tot + 1:
        raise Reject("size")
    y = p.op("SpaceToBatchND", [("input", x), ("block_shape", C(np.array([d], I32))), ("paddings", C(np.array([[lo, hi + ex]], I32)))], {})[0]
    e = p.op("ExpandDims", [("input", y), ("axis", C(np.int32(p.pick(1, -3))))])[0]
    y = p.op("Conv2D", [("input", e), ("filter", kern(p, [1, k, c, p.pick(1, 2)]))],
             {"strides": [1] * 4, "padding": "VALID", "data_format": "NHWC", "dilations": [1] * 4, "explicit_paddings": [], "use_cudnn_on_gpu": True})[0]
    y = p.op("Squeeze", [("input", y)], {"axis": [p.pick(1, -3)]})[0]
    return p.op("BatchToSpaceND", [("input", y), ("block_shape", C(np.array([d], I32))), ("crops", C(np.array([[0, ex]], I32)))], {})[0]

EMITS = [(e_dilated_first, 2), (e_conv, 8), (e_conv3, 3), (e_conv1, 2), (e_depthwise, 4), (e_deconv, 5), (e_deconv3, 2), (e_pool, 6), (e_pool3, 2), (e_poolv2, 1), (e_argpool, 2), (e_norm, 5), (e_bias, 2), (e_padconv, 4), (e_s2d, 3),
         (e_s2b, 4), (e_dilated, 4), (e_resize, 6), (e_patches, 2), (e_crop, 2), (e_lrn, 1), (e_matmul, 5), (e_batchmm, 4), (e_einsum, 4), (e_flatten, 2), (e_tr, 4), (e_un, 4), (e_leaky, 3), (e_bin, 3), (e_mean, 2)]

PROBES = []

def gen(rng, i):
    p = Img(rng)
    p.pcomp = .1
    if i >= PROBE:
        PROBES[i - PROBE][1](p)
        return p
    p.fmt = "last" if rng.rand() < .75 else "first"
    p.syms = {"A": int(rng.randint(1, 3)), "B": int(rng.randint(3, 7)), "C": int(rng.randint(3, 7)), "D": int(rng.randint(1, 5))}
    # channels are mostly fixed: the operators need them
    dyn = rng.rand() < .5
    p.dyn = {"A": dyn and rng.rand() < .8, "B": dyn and rng.rand() < .4, "C": dyn and rng.rand() < .4, "D": False}
    r = p.pick(4, 4, 4, 4, 4, 5, 3, 2)
    ch = p.pick("D", 1, 2, 3, 4)
    kind = p.pick("int", "int", "int", "half")
    if r == 4 and rng.rand() < .15:
        s = [p.syms["A"], p.syms["B"], p.syms["C"], ch if isinstance(ch, int) else p.syms[ch]]
        p.dyn = {k: False for k in p.dyn}
        p.add_input(s, F32, fixed=(rng.permutation(int(np.prod(s))).reshape(s) - 20))
    elif r == 4:
        p.add_input(["A", "B", "C", ch] if p.fmt == "last" else ["A", ch, "B", "C"], F32, kind, -3, 4)
    elif r == 5:
        p.add_input(["A", 3, "B", 3, p.pick(1, 2)] if p.fmt == "last" else ["A", p.pick(1, 2), 3, "B", 3], F32, "int", -3, 4)
    elif r == 3:
        p.add_input(["A", "B", ch], p.pick(F32, F32, F32, F64, I32), "int", -3, 4)
    else:
        p.add_input(["B", "D"], p.pick(F32, F32, F64, I32), "int", -3, 4)
    if p.ch(.3):
        p.add_input(["B", "D"] if p.ch(.5) else ["A", "B", "D"], F32, "int", -3, 4)
    w = np.array([x[1] for x in EMITS], float)
    if rng.rand() < .5:
        w = w * (rng.rand(len(w)) < .3) + .05
    w /= w.sum()
    n, tries, want = 0, 0, int(rng.randint(1, 5))
    while n < want and tries < 50:
        tries += 1
        try:
            EMITS[int(rng.choice(len(EMITS), p=w))][0](p)
            n += 1
        except Reject:
            pass
    if not p.steps:
        raise Reject
    return p

def main():
    n, budget = (int(os.environ.get("NN", 700)), 150) if TIER == "quick" else (9000, 650)
    return run_profile("C03", gen, n, budget, probes=[x[0] for x in PROBES])
