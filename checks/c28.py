"""C28 onnx2json: the document holds the parameters of every operator and runs like the ONNX model."""
import contextlib
import importlib.util
import io
import json
import os
import shutil
import sys
from types import SimpleNamespace as NS

import numpy as np
import yaml
from hypothesis import strategies as st

import verif_env
from pbt import Sub, need
from pbt import pairs
from pbt.gen import bulk_floats, bulk_ints, scales
from pbt.model import node as jnode, op as jop, quantize_iv, sigmoid, tensor as jtensor, within
from pbt.refs import expand, expect

_DIR = os.path.join(verif_env.REPO, "model_converters", "onnx2json")
shutil.copy(os.path.join(_DIR, "settings.yaml"), "settings.yaml")  # read from the working directory (a scratch one)
sys.path.insert(0, _DIR)
_spec = importlib.util.spec_from_file_location("onnx2json_main", os.path.join(_DIR, "2json.py"))
_mod = importlib.util.module_from_spec(_spec)
_spec.loader.exec_module(_mod)
model2json = _mod.model2json

from itcl_inference_engine.layers.onnx.build_operator import build_operator  # noqa: E402
from itcl_inference_engine.network.sequential import SequentialNetwork  # noqa: E402

RULE = (
    "A case is an ONNX model (protobuf look-alike): a random sequence of the supported operators with uint8 weights, "
    "scales, zero points, initializers in random order and partly shared, and random inputs. The document is compared "
    "operator by operator with the model; the operators of the engine built from it are run against the ONNX formulas "
    "of the model. Non-trivial: at least one operator with weights or a table, or an unsupported operator."
) + pairs.RULE
ASSUMPTIONS = ["onnx protobuf objects are stand-ins with the fields that the converter reads"]

with open("settings.yaml") as _f:
    DEPTH = yaml.safe_load(_f)["settings"]["lut"]["lut_depth"]
KINDS = ["QuantizeLinear", "DequantizeLinear", "QLinearMatMul", "QLinearAdd", "QLinearSigmoid", "Tanh", "Softmax"]


@st.composite
def params(draw, n):
    return [[draw(st.one_of(st.sampled_from([0.01, 1 / 128, 0.05]), scales(-4, 0))), draw(st.integers(0, 255))] for _ in range(n)]


@st.composite
def net_case(draw, large=False, deep=False):
    """a chain as the ONNX quantizers emit it"""
    dims = draw(st.lists(st.sampled_from([1, 5, 16, 33, 64, 65, 100, 129]) if large else st.integers(1, 6), min_size=26 if deep else 5, max_size=26 if deep else 5))
    ops, ps, w = [{"k": "QuantizeLinear", "q": [0]}], draw(params(1)), dims[0]
    for l in range(draw(st.integers(8, 25) if deep else st.integers(1, 3))):
        m = dims[l + 1]
        for k in ("QLinearMatMul", "QLinearAdd"):
            if k == "QLinearAdd" and draw(st.integers(0, 5)) == 0:
                continue
            ps += draw(params(2))
            shape = (w, m) if k == "QLinearMatMul" else (m,)
            ops.append({"k": k, "q": [ops[-1]["q"][-1], len(ps) - 2, len(ps) - 1], "w": draw(bulk_ints(shape, 0, 255))})
        w = m
        act = draw(st.sampled_from(["QLinearSigmoid", "TanhLUT", "TanhLUT", None]))
        if act == "QLinearSigmoid":
            ps += draw(params(1))
            ops.append({"k": act, "q": [ops[-1]["q"][-1], len(ps) - 1]})
        elif act == "TanhLUT":
            ps += draw(params(1))
            ops += [{"k": "DequantizeLinear", "q": [ops[-1]["q"][-1]]}, {"k": "Tanh"}, {"k": "QuantizeLinear", "q": [len(ps) - 1]}]
    if draw(st.booleans()):
        ops.append({"k": "DequantizeLinear", "q": [ops[-1]["q"][-1]]})
        if draw(st.booleans()):
            ops.append({"k": draw(st.sampled_from(["Softmax", "Tanh"]))})
    x = draw(bulk_floats((draw(st.sampled_from([1, 33, 65, 130]) if large else st.integers(1, 4)), dims[0]), 3.0))
    return {"ops": ops, "ps": ps, "x": x, "seed": draw(st.integers(0, 2**31 - 1)), "also": draw(also(len(ops)))}


@st.composite
def also(draw, n):
    """more inputs (of which no operator reads) and outputs (results inside the graph, by index) than one"""
    return draw(st.one_of(st.just([0, []]), st.just([0, []]), st.tuples(st.integers(0, 2), st.lists(st.integers(1, max(1, n - 1)), max_size=2 if n > 1 else 0)).map(list)))


@st.composite
def free_case(draw):
    """any sequence of operators; the parameters are shared at random"""
    ps = draw(params(draw(st.integers(1, 5))))
    q = st.integers(0, len(ps) - 1)
    ops = []
    for k in draw(st.lists(st.sampled_from(KINDS + ["fused", "fused", "Dequantize,Tanh"]), min_size=1, max_size=7)):
        if k in ("fused", "Dequantize,Tanh"):
            ops += [{"k": "DequantizeLinear", "q": [draw(q)]}, {"k": "Tanh"}]
            ops += [{"k": "QuantizeLinear", "q": [draw(q)]}] if k == "fused" else []
        elif k in ("QLinearMatMul", "QLinearAdd"):
            shape = draw(st.lists(st.integers(1, 5), min_size=1 if k == "QLinearAdd" else 2, max_size=2))
            ops.append({"k": k, "q": [draw(q), draw(q), draw(q)], "w": draw(bulk_ints(tuple(shape), 0, 255))})
        elif k == "QLinearSigmoid":
            ops.append({"k": k, "q": [draw(q), draw(q)]})
        elif k in ("Tanh", "Softmax"):
            ops.append({"k": k})
        else:
            ops.append({"k": k, "q": [draw(q)]})
    return {"ops": ops, "ps": ps, "x": None, "seed": draw(st.integers(0, 2**31 - 1)), "also": draw(also(len(ops)))}


def info(name, size):
    return NS(name=name, type=NS(tensor_type=NS(shape=NS(dim=[NS(dim_value=0), NS(dim_value=size)]))))


STYLES = [
    lambda kind, k: f"{kind}{k}",
    lambda kind, k: {"s": f"d{k}_scale", "z": f"d{k}_zero_point", "w": f"d{k}_quantized", "t": f"d{k}"}.get(kind, f"d{k}_quant"),
    lambda kind, k: f"net/dense{'_' * bool(k)}{k or ''}/MatMul:{'0' if kind in 'ts' else '1'}" + {"s": "_scale", "z": "_scale_zp", "w": ""}.get(kind, "_out"),
    lambda kind, k: {"s": "a", "z": "A", "w": "b", "t": "B"}.get(kind, "c") * (k + 1),  # names that begin with each other or differ in the case
    lambda kind, k: str("szwtn".index(kind) + 5 * k),
]


def namer(c):
    return STYLES[c["seed"] % len(STYLES)]


def onnx_model(c):
    named = namer(c)
    rng = np.random.RandomState(c["seed"])
    init = []
    for k, (s, z) in enumerate(c["ps"]):
        init.append(NS(name=named("s", k), float_data=[s], int32_data=[], raw_data=b"", dims=[]))
        init.append(NS(name=named("z", k), float_data=[], int32_data=[z], raw_data=b"", dims=[]))
    nodes, infos = [], []
    sizes = [int(v) for v in rng.randint(1, 100, size=len(c["ops"]) + 1)]
    for k, o in enumerate(c["ops"]):
        q = [x for j in o.get("q", []) for x in (named("s", j), named("z", j))]
        if "w" in o:
            w = np.array(o["w"], dtype=np.uint8)
            init.append(NS(name=named("w", k), float_data=[], int32_data=[], raw_data=w.tobytes(), dims=list(w.shape)))
            inputs = [named("t", k), q[0], q[1], named("w", k)] + q[2:]
        else:
            inputs = [named("t", k)] + q
        nodes.append(NS(op_type=o["k"], name=named("n", k), input=inputs, output=[named("t", k + 1)]))
        if k:
            infos.append(info(named("t", k), sizes[k]))
    rng.shuffle(init)
    rng.shuffle(infos)
    more, inner = c.get("also", [0, []])
    ins = [info(named("t", 0), sizes[0])] + [info(named("t", len(nodes) + 7 + k), 3 + k) for k in range(more)]
    outs = [info(named("t", len(nodes)), sizes[-1])] + [info(named("t", k), sizes[k]) for k in inner]
    graph = NS(node=nodes, initializer=init, value_info=infos, input=ins, output=outs)
    return NS(graph=graph, ir_version=int(rng.randint(1, 10))), sizes


def groups(ops):
    """(index of the first operator, operators) after fusing Dequantize, Tanh, Quantize"""
    i = 0
    while i < len(ops):
        n = 3 if [o["k"] for o in ops[i:i + 3]] == ["DequantizeLinear", "Tanh", "QuantizeLinear"] else 1
        yield i, ops[i:i + n]
        i += n


def table_bounds(fn, pin, pout):
    codes = np.arange(256.0)
    return quantize_iv(fn((codes - pin[1]) * pin[0]), pout[0], pout[1], "uint8", 1e-13)


def check_table(nd, fn, pin, pout, msg):
    lut = nd["LUT"]
    need(lut["offset"] == 0, f"{msg}: offset of unsigned codes", got=lut["offset"])
    b = table_bounds(fn, pin, pout)
    within(lut["LUT"], b, need, f"{msg}: table")
    need(lut["reduced_LUT"] is not None and expand(lut["reduced_LUT"]) == lut["LUT"], f"{msg}: the reduced table answers like the table")
    need(lut["reduced_LUT"]["depth"] == DEPTH, f"{msg}: depth of the reduced table", got=lut["reduced_LUT"]["depth"], want=DEPTH)


def check_q(nd, p, msg):
    need(nd["scale"] == p[0] and nd["zero_point"] == p[1], f"{msg}: scale and zero point", got=(nd["scale"], nd["zero_point"]), want=p)


def check_info(nd, name, size, msg):
    t = nd["tensor"]
    need(nd["scale"] is None and nd["zero_point"] is None, f"{msg}: not quantized")
    need(t["name"] == name and t["shape"] == size, f"{msg}: name and size", got=(t["name"], t["shape"]), want=(name, size))


def check_op(o, grp, at, c, sizes, msg):
    k, ps = grp[0]["k"], c["ps"]
    q = [ps[j] for j in grp[0].get("q", [])]
    if len(grp) == 3:
        k = "TanhLUT"
    need(o["op_type"] == ("SigmoidLUT" if k == "QLinearSigmoid" else k) and o["name"] == o["op_type"], f"{msg}: operator", got=o["op_type"], want=k)
    i = o["inputs"]
    if k in ("Tanh", "Softmax"):
        need(len(i) == 1 and len(o["outputs"]) == 1, f"{msg}: nodes")
        check_info(i[0], namer(c)("t", at), sizes[at], f"{msg}: input")
        check_info(o["outputs"][0], namer(c)("t", at + 1), sizes[at + 1], f"{msg}: output")
        return
    need(o["outputs"] == [] and len(i) == (3 if "w" in grp[0] else 1), f"{msg}: nodes", got=(len(i), len(o["outputs"])))
    if k == "TanhLUT":
        check_table(i[0], np.tanh, q[0], ps[grp[2]["q"][0]], msg)
    elif k == "QLinearSigmoid":
        check_q(i[0], q[0], msg)
        check_table(i[0], sigmoid, q[0], q[1], msg)
    else:
        for j, p in enumerate(q):
            check_q(i[j], p, f"{msg}: node {j}")
        if "w" in grp[0]:
            w = np.array(grp[0]["w"])
            w = w.T if k == "QLinearMatMul" else w
            t = i[1]["tensor"]
            need(t["dtype"] == "uint8" and list(t["shape"]) == list(w.shape), f"{msg}: type and shape of the weights", got=(t["dtype"], t["shape"]), want=w.shape)
            need(np.array_equal(np.array(t["tensor"]), w), f"{msg}: values of the weights")
        need(all(i[j]["tensor"] is None for j in range(len(i)) if j != 1 or "w" not in grp[0]), f"{msg}: other nodes hold no tensor")


def wanted(grp, c, x):
    """result of the ONNX operator(s) on codes or reals"""
    k, q = grp[0]["k"], [c["ps"][j] for j in grp[0].get("q", [])]
    if len(grp) == 3:
        return ("codes",) + quantize_iv(np.tanh((x.astype(float) - q[0][1]) * q[0][0]), *c["ps"][grp[2]["q"][0]], "uint8", 1e-13)
    nodes = [jnode(s, z) for s, z in q]
    if "w" in grp[0]:
        w = np.array(grp[0]["w"])
        nodes[1] = jnode(*q[1], jtensor((w.T if k == "QLinearMatMul" else w).tolist(), "uint8"))
    return expect(jop(k, nodes, []), "ONNX", x)


def check(c, ctx):
    model, sizes = onnx_model(c)
    with contextlib.redirect_stdout(io.StringIO()):
        doc = model2json(model)
        again = model2json(model)
    text = json.dumps(doc)
    need(text == json.dumps(again), "the conversion is deterministic")
    doc = json.loads(text)
    need(doc["engine"] == "ONNX" and doc["ir_version"] == model.ir_version, "header of the document")
    more, inner = c.get("also", [0, []])
    need(len(doc["input"]) == 1 + more and len(doc["output"]) == 1 + len(inner), "inputs and outputs of the model", got=(len(doc["input"]), len(doc["output"])), want=(1 + more, 1 + len(inner)))
    check_info(doc["input"][0], namer(c)("t", 0), sizes[0], "input of the model")
    check_info(doc["output"][0], namer(c)("t", len(c["ops"])), sizes[-1], "output of the model")
    for k in range(more):
        check_info(doc["input"][1 + k], namer(c)("t", len(c["ops"]) + 7 + k), 3 + k, f"input {k + 1} of the model")
    for j, k in enumerate(inner):
        check_info(doc["output"][1 + j], namer(c)("t", k), sizes[k], f"output {j + 1} of the model")
    gs = list(groups(c["ops"]))
    need(len(doc["graph"]) == len(gs), "number of operators", got=[o["op_type"] for o in doc["graph"]], want=[g[0]["k"] for _, g in gs])
    for o, (at, grp) in zip(doc["graph"], gs):
        check_op(o, grp, at, c, sizes, f"operator {at} ({grp[0]['k']}{'..' if len(grp) > 1 else ''})")
    ctx.nontrivial(any("w" in o or o["k"] == "QLinearSigmoid" for o in c["ops"]) or any(len(g) == 3 for _, g in gs))
    if any(len(g) == 3 for _, g in gs):
        ctx.label("fused tanh")
    if any("w" in o and np.ndim(o["w"]) == 2 and len(o["w"]) != len(o["w"][0]) for o in c["ops"]):
        ctx.label("rectangular weights")
    if c["x"] is None:
        return
    x = np.array(c["x"])
    cur = x
    for o, (at, grp) in zip(doc["graph"], gs):
        kind, *want = wanted(grp, c, cur)
        cur = np.asarray(build_operator(o).infer(cur))
        msg = f"result of operator {at} ({grp[0]['k']})"
        if kind == "codes":
            within(cur, tuple(want), need, msg)
        else:
            need(cur.shape == want[0].shape and np.allclose(cur, want[0], rtol=1e-9, atol=1e-12), msg, got=cur, want=want[0])
    got = np.asarray(SequentialNetwork(doc).infer(x))
    need(np.array_equal(got, cur), "the engine runs the document", got=got, want=cur)
    ctx.label("run in the engine")


@st.composite
def bad_case(draw):
    c = draw(free_case())
    c["at"] = draw(st.integers(0, len(c["ops"])))
    c["bad"] = draw(st.sampled_from(["Conv", "Relu", "MatMul", "Gemm", "QLinearConv", "tanh", "Sigmoid"]))
    return c


def check_bad(c, ctx):
    ops = list(c["ops"])
    ops.insert(c["at"], {"k": c["bad"]})
    model, _ = onnx_model(dict(c, ops=ops))
    ctx.nontrivial(True)
    try:
        with contextlib.redirect_stdout(io.StringIO()):
            doc = model2json(model)
    except ValueError:
        return
    need(False, "an unsupported operator is rejected", got=[o["op_type"] for o in doc["graph"]])


def subs():
    return [
        pairs.two(net_case(), check, quick=250, twist={"ps": lambda c: params(len(c["ps"])), "x": "reverse", "seed": st.integers(0, 2**31 - 1)}),
        Sub("networks", net_case(), check, quick=1000, thorough=8000),
        Sub("sequences", free_case(), check, quick=1000, thorough=8000),
        Sub("large", net_case(large=True), check, quick=96, thorough=800),
        Sub("deep", net_case(deep=True), check, quick=80, thorough=600),
        Sub("unsupported", bad_case(), check_bad, quick=400, thorough=2000),
    ]
