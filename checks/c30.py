"""C30 a quantized dense network stays consistent over any history of updates (stateful)."""
import json

import numpy as np
from hypothesis import strategies as st

from pbt import Sub, need
from pbt import pairs
from pbt.gen import limits, vary
from pbt.qnets import build, check_doc, in_domain, MANY, net_case, WIDE
from pbt.refs import expect

from itcl_inference_engine.layers.tflite.build_layer import build_layer
from itcl_inference_engine.network.sequential import SequentialNetwork

RULE = (
    "A case is a quantized dense network (1 to 3 layers) and a history of up to 10 operations: new scale and zero point of "
    "the network input, a kernel, a dense output or an activation output; rounding policies of kernels, biases and tables; "
    "resets of the rounding. After every operation the document is compared with a model of the network (parameters, codes, "
    "bias scales, tables, links between layers), and inference with the operators of that document. Non-trivial: at "
    "least two operations change the document."
) + pairs.RULE
ASSUMPTIONS = ["keras layers are stand-ins with the same attributes and float32 arithmetic"]


# a new scale and zero point, only one of them, or hardly any change
new_params = st.one_of(
    st.tuples(st.sampled_from([0.3, 0.5, 0.97, 1.02, 1.5, 2.0]), st.integers(-9, 9)),
    st.tuples(st.just(1.0), st.integers(-9, 9)),
    st.tuples(st.sampled_from([0.3, 0.97, 1.02, 2.0, 1 + 1e-4, 1 - 1e-4, 1 + 1e-6, 1 + 1e-8]), st.sampled_from([0, 0, 1])),
)


@st.composite
def history(draw, large=False):
    c = draw(net_case(max_layers=2, dim=WIDE, count=MANY)) if large else draw(net_case(max_layers=3, big=6, rows=5))
    n = len(c["layers"])
    ops = []
    for _ in range(draw(st.integers(1, 4 if large else 10))):
        j = draw(st.integers(0, n - 1))
        tab = c["layers"][j]["act"] in ("tanh", "sigmoid")
        k = draw(st.sampled_from(["in", "k", "k", "out", "out", "pw", "pw", "pb", "reset w", "reset b"] + (["act", "act", "lut"] if tab else [])))
        if k in ("in", "k", "out", "act"):
            ops.append([k, j, *draw(new_params)])
        else:
            ops.append([k, j, draw(st.integers(0, 2**31 - 1)), 0])
    c["history"] = ops
    return c


def node(ops, c, k, j):
    """the node that the operation addresses"""
    at = {}
    p = 1
    for i, s in enumerate(c["layers"]):
        at[i] = p
        p += 2 if s["act"] in ("tanh", "sigmoid") else 1
    d = ops[at[j]]
    if k == "in":
        return ops[0].outputs[0]
    if k in ("k", "pw", "reset w"):
        return d.inputs[1]
    if k in ("pb", "reset b"):
        return d.inputs[2]
    if k == "out":
        return d.outputs[0]
    return ops[at[j] + 1].outputs[0] if k == "act" else ops[at[j] + 1].inputs[0].LUT


def key(k, j):
    return (j, {"pw": "w", "reset w": "w", "pb": "b", "reset b": "b", "lut": "lut"}[k])


def where(doc, c, k, j):
    """the node of the document that the operation addresses"""
    p = 1 + sum(2 if s["act"] in ("tanh", "sigmoid") else 1 for s in c["layers"][:j])
    g = doc["graph"]
    return {"in": lambda: g[0]["outputs"][0], "k": lambda: g[p]["inputs"][1], "out": lambda: g[p]["outputs"][0], "act": lambda: g[p + 1]["outputs"][0]}[k]()


def strip(doc):
    return {k: v for k, v in doc.items() if k != "generated_at"}


def check_history(c, ctx):
    net, doc = build(c)
    check_doc(c, doc)
    want, pol = {}, {}
    changes, prev = 0, strip(doc)
    x = vary(np.array(c["x"], dtype=np.float32))
    if in_domain(doc):
        net.as_sequential_network().infer(x)
    for step, (k, j, v, dz) in enumerate(c["history"]):
        n = node(net.as_operators(), c, k, j)
        if k in ("in", "k", "out", "act"):
            lo, hi = limits(str(n.quant.dtype))
            if not 1e-4 < v * n.scale * (hi - lo) < 1e5:
                continue
            s, z = n.scale * v, int(np.clip(n.zero_point + dz, lo, hi))
            n.update_quant_parameters(s, z)
            want[(k, j if k != "in" else 0)] = (s, z)
            need((n.scale, n.zero_point) == (s, z), "the parameters of the node")
        elif k.startswith("reset"):
            n.reset_rounding()
            pol.pop(key(k, j), None)
        else:
            shape = (len(n),) if k == "lut" else n.fp_tensor.shape
            p = np.random.RandomState(v).randint(0, 2, size=shape)
            keep = p.copy()
            n.rounding_policy = p
            pol[key(k, j)] = keep
            need(np.array_equal(p, keep), "the policy is not modified")
        doc = json.loads(json.dumps(net.as_json()))
        try:
            check_doc(c, doc, free="all", policies=pol)
        except AssertionError as e:
            raise AssertionError(f"after operation {step} ({k} of layer {j}): {e}") from e
        for (kk, jj), (s, z) in want.items():
            d = where(doc, c, kk, jj)
            need((d["scale"], d["zero_point"]) == (s, z), f"parameters of {kk} of layer {jj} after operation {step}", got=(d["scale"], d["zero_point"]), want=(s, z))
        if "in" not in [w[0] for w in want]:
            need(doc["graph"][0] == prev["graph"][0], "the input only changes with its own parameters")
        changes += strip(doc) != prev
        if in_domain(doc) and (step % 3 == 1 or k == "lut"):
            a, b = np.asarray(net.as_sequential_network().infer(x)), np.asarray(SequentialNetwork(doc).infer(x))
            need(np.array_equal(a, b), f"the network and its document infer the same after operation {step} ({k})", got=a, want=b)
        prev = strip(doc)
        ctx.label(k)
    ctx.nontrivial(changes >= 2)
    if not in_domain(doc) or c["layers"][-1]["act"] == "softmax":
        return
    live = net.as_sequential_network()
    got = np.asarray(live.infer(x))
    again = np.asarray(SequentialNetwork(doc).infer(x))
    need(np.array_equal(got, again), "the network and its document infer the same", got=got, want=again)
    cur = x
    for i, o in enumerate(doc["graph"]):
        kind, *w = expect(o, "TFLITE", cur)
        cur = np.asarray(build_layer(o).infer(cur))
        if kind == "codes":
            need(bool(np.all((cur >= w[0]) & (cur <= w[1]))), f"inference of operator {i}", got=cur, want=w)
    need(np.array_equal(got, cur), "inference uses the current parameters", got=got, want=cur)
    ctx.label("inference")


def subs():
    return [pairs.two(history(), check_history, quick=150, twist={"history": "reverse", "x": "reverse"}),
            Sub("history", history(), check_history, quick=1400, thorough=9000),
            Sub("large", history(large=True), check_history, quick=72, thorough=600)]
