"""show.py REPLAY.json: prints the source model, the optimized one, and which optimizer alone reproduces a difference."""
import sys, json, base64
sys.path[:0] = [os.environ.get("VERIF_REPO", "/repo"), "/verif/lib"]
from opt_check import *
from tf2onnx.optimizer import _get_optimizers
from opt_check import optimizers
def pr(g, ind="  "):
    for t in g.initializer:
        print(ind, "init", t.name, numpy_helper.to_array(t).dtype, numpy_helper.to_array(t).shape, numpy_helper.to_array(t).ravel()[:10].tolist())
    for i in g.input:
        print(ind, "input", i.name, [d.dim_value or d.dim_param for d in i.type.tensor_type.shape.dim], i.type.tensor_type.elem_type)
    for n in g.node:
        at = []
        for a in n.attribute:
            if a.type == 5:
                continue
            v = helper.get_attribute_value(a)
            at.append("%s=%s" % (a.name, (numpy_helper.to_array(v).shape, numpy_helper.to_array(v).ravel()[:10].tolist()) if a.type == 4 else v))
        print(ind, list(n.output), "=", n.op_type, list(n.input), at)
        for a in n.attribute:
            if a.type == 5:
                print(ind, " body", a.name); pr(a.g, ind + "      ")
    print(ind, "outputs", [(o.name, [d.dim_value or d.dim_param for d in o.type.tensor_type.shape.dim]) for o in g.output])
r = json.load(open(sys.argv[1]))
print(r["signature"], r["what"])
m = onnx.ModelProto.FromString(base64.b64decode(r["replay"]["case"]["model_b64"]))
print(m.opset_import[0].version)
pr(m.graph)
ins = r["replay"]["run"]["ins"]
feeds = {i.name: np.array(t["d"]).reshape(t["s"]).astype({"f32": np.float32, "i64": np.int64, "i32": np.int32, "b": np.bool_, "u8": np.uint8, "i8": np.int8, "f64": np.float64}[t["t"]]) for i, t in zip(m.graph.input, ins)}
src = run_model(m, feeds); shown = False; nsh = 0
def same(m2):
    try:
        onnx.checker.check_model(m2)
        o = run_model(m2, feeds)
    except Exception as e:
        return "ERR " + str(e)[:700]
    return all(a.shape == b.shape and a.dtype == b.dtype and np.allclose(a, b, atol=1e-4) for a, b in zip(src, o))
for k in [()] + [(k,) for k in _get_optimizers()]:
    try:
        m2 = GraphUtil.optimize_model_proto(m, catch_errors=False, optimizers=optimizers(*k))
        s = same(m2)
    except Exception as e:
        s = "raised %r" % e; m2 = None
    if s is not True and not shown or s is not True and len(k) and nsh < 1:
        nsh += len(k)
        print(k, s)
        if m2 is not None and (k == () or len(sys.argv) > 2):
            pr(m2.graph)
