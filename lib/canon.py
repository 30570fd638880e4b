"""Models up to generated names: a canonical form by hashing what every tensor is computed from."""
import hashlib
import numpy as np
import onnx
from onnx import numpy_helper

def H(*parts):
    h = hashlib.sha256()
    for p in parts:
        h.update(repr(p).encode())
        h.update(b"|")
    return h.hexdigest()[:20]

def tensor_key(t):
    if t.data_type == onnx.TensorProto.STRING:
        return H("str", list(t.dims), list(t.string_data))
    try:
        a = numpy_helper.to_array(t)
    except Exception:
        return H("ext", list(t.dims), t.data_type)
    return H(t.data_type, list(a.shape), a.tobytes())

def vi_key(v, names=True):
    tt = v.type.tensor_type
    dims = [d.dim_value if d.HasField("dim_value") else -1 for d in tt.shape.dim] if tt.HasField("shape") else None
    return (v.name if names else "", tt.elem_type, dims)

def graph_key(g, env, io_names, see_through=False):
    """canonical description of a graph; env: outer tensor -> key. Bodies' inputs are positional."""
    env = dict(env)
    for t in g.initializer:
        env[t.name] = tensor_key(t)
    for t in getattr(g, "sparse_initializer", []):
        env[t.values.name] = H("sparse", t.SerializeToString())
    ins = true_inputs(g)
    for k, i in enumerate(ins):
        env[i.name] = H("in", i.name if io_names else k)
    alln = []
    todo = list(g.node)
    while todo:
        rest = []
        for n in todo:
            needs = [x for x in n.input if x] + [x for a in n.attribute for b in bodies(a) for x in free_names(b)]
            if any(x not in env and any(x in m.output for m in g.node) for x in needs):
                rest.append(n)
                continue
            attrs = []
            for a in sorted(n.attribute, key=lambda a: a.name):
                if a.type == onnx.AttributeProto.TENSOR:
                    attrs.append((a.name, tensor_key(a.t)))
                elif bodies(a):
                    attrs.append((a.name, [graph_key(b, env, False, see_through) for b in bodies(a)]))
                else:
                    b = onnx.AttributeProto()
                    b.CopyFrom(a)
                    b.doc_string = ""
                    attrs.append((a.name, b.SerializeToString(deterministic=True)))
            if n.op_type == "Identity" and n.domain == "" and see_through:
                env[n.output[0]] = env.get(n.input[0], "free:" + n.input[0])
            elif n.op_type == "Constant" and n.domain == "" and len(n.attribute) == 1 and n.attribute[0].type == onnx.AttributeProto.TENSOR:
                key = tensor_key(n.attribute[0].t)
                env[n.output[0]] = key
            else:
                key = H(n.domain, n.op_type, [env.get(x, "free:" + x) if x else "" for x in n.input], attrs, len(n.output), [bool(o) for o in n.output])
                for k, o in enumerate(n.output):
                    if o:
                        env[o] = H(key, k)
                alln.append(key)
        if len(rest) == len(todo):
            alln.append("cycle")
            break
        todo = rest
    return H([vi_key(i, io_names) for i in ins], [(vi_key(o, io_names), env.get(o.name, "free")) for o in g.output], sorted(alln))

def true_inputs(g):
    """inputs without initializer"""
    ini = {t.name for t in g.initializer}
    return [i for i in g.input if i.name not in ini]

def bodies(a):
    if a.type == onnx.AttributeProto.GRAPH:
        return [a.g]
    if a.type == onnx.AttributeProto.GRAPHS:
        return list(a.graphs)
    return []

def free_names(g):
    own = {t.name for t in g.initializer} | {i.name for i in g.input} | {o for n in g.node for o in n.output}
    s = {o.name for o in g.output}
    for n in g.node:
        s |= set(n.input)
        for a in n.attribute:
            for b in bodies(a):
                s |= free_names(b)
    return s - own - {""}

def model_key(m):
    return H(sorted((o.domain, o.version) for o in m.opset_import), graph_key(m.graph, {}, True))

def model_diff(a, b, see_through=False):
    """a short reason two models differ (up to generated names), or ''"""
    if sorted((o.domain, o.version) for o in a.opset_import) != sorted((o.domain, o.version) for o in b.opset_import):
        return "opset imports"
    for k in ("input", "output"):
        x, y = [[vi_key(v) for v in (true_inputs(m.graph) if k == "input" else m.graph.output)] for m in (a, b)]
        if x != y:
            return "%ss %s / %s" % (k, str(x)[:150], str(y)[:150])
    if graph_key(a.graph, {}, True, see_through) != graph_key(b.graph, {}, True, see_through):
        ta, tb = sorted(n.op_type for n in a.graph.node), sorted(n.op_type for n in b.graph.node)
        return "nodes %s / %s" % (str(ta)[:150], str(tb)[:150]) if ta != tb else "node inputs or attributes"
    return ""
