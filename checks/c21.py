"""C21 tensor nodes stay consistent over any history of updates (model-based)."""
import json
import math

import numpy as np
from hypothesis import strategies as st

from pbt import Sub, need, close
from pbt import pairs
from pbt.gen import big_shape, bulk_floats, limits, scales, sizes, weird_dtypes, zero_points, vary
from pbt.nodes import inside, iv, lut_iv, sigmoid

from itcl_quantization import Quantization
from itcl_quantizer.tensor_extractor.keras.layers.activations import quantize_activation_node
from itcl_quantizer.tensor_extractor.tensor import NodeTensorBase

RULE = (
    "A case is a node (type, scale, zero point, float tensor up to 24x12) and a history of up to 12 operations: new "
    "parameters with or without requantization, rounding policies (right and wrong shape), resets, hooks, export flags. "
    "After every operation codes, real values, JSON form and hooks are compared with a model. Non-trivial: at least one "
    "operation changes the codes of the model."
) + pairs.RULE


@st.composite
def tensor_case(draw, large=False):
    t = draw(weird_dtypes())
    lo, hi = limits(t)
    shape = draw(st.sampled_from([[1], [3], [2, 2], [1, 4], [3, 2, 2], None]))
    if shape is None:
        shape = [draw(sizes(3, 24)), draw(sizes(3, 12))]
    if large:
        shape = draw(big_shape(6000, 4))
    n = min(hi - lo + 1, 4096)
    s = draw(scales(-5, 1))
    x = np.array(draw(bulk_floats(tuple(shape), 1.0))) * s * n * draw(st.sampled_from([0.3, 0.6, 2.0]))
    f32 = draw(st.booleans())
    if f32:
        x = x.astype(np.float32).astype(np.float64)

    def params():
        k = draw(st.sampled_from([0, 0, 1, 2]))
        ns = s if k == 1 else s * draw(st.sampled_from([0.5, 0.9, 0.97, 1.03, 1.1, 2.0])) if k == 0 else draw(scales(-5, 1))
        return ns, draw(zero_points(t))

    ops = []
    for _ in range(draw(st.integers(1, 5 if large else 12))):
        o = draw(st.sampled_from(["update", "update", "update", "update_lazy", "policy", "policy", "bad_policy", "reset_rounding",
                                  "reset_scale", "reset_zp", "hook", "hook_q", "exclude_params", "exclude_tensor", "exclude_batch", "name"]))
        if o.startswith("update"):
            ops.append([o, *params()])
        elif o == "policy":
            ops.append([o, draw(st.integers(0, 2**31 - 1)), draw(st.sampled_from(["int64", "int32", "float64"]))])
        elif o.startswith("exclude"):
            ops.append([o, draw(st.sampled_from([None, True, False]))])
        else:
            ops.append([o])
    return {"t": t, "shape": shape, "s": s, "zp": draw(zero_points(t)), "x": x.tolist(), "f32": f32, "ops": ops}


def check_tensor(c, ctx):
    t = c["t"]
    lo, hi = limits(t)
    x = vary(np.array(c["x"], dtype=np.float32 if c["f32"] else np.float64).reshape(c["shape"]))
    keep = x.copy()
    s, zp, policy = c["s"], c["zp"], None
    node = NodeTensorBase(s, zp, "n0", Quantization(t)).with_tensor(x)
    bystander = NodeTensorBase(s, zp, "b", Quantization(t)).with_tensor(x)
    bystander_codes = np.array(bystander.quantized)
    name = "n0"
    codes = iv(x, s, zp, t)
    calls, expected_calls = [], []
    hooks, qhooks = 0, 0
    flags = {"params": False, "tensor": False, "batch": False}
    changed = False
    for o, *arg in [["start"], *c["ops"]]:
        old = codes
        if o in ("update", "update_lazy"):
            s, zp = arg
            if o == "update":
                node.update_quant_parameters(s, zp) if len(calls) % 2 else node.update_quant_parameters(s, zp, requantize=True)
                codes = iv(x, s, zp, t, policy)
                expected_calls += ["q"] * qhooks
            else:
                node.update_quant_parameters(s, zp, requantize=False)
            expected_calls += ["p"] * hooks
        elif o == "policy":
            policy = np.random.RandomState(arg[0]).randint(0, 2, size=c["shape"]).astype(arg[1])
            node.rounding_policy = policy.copy()
            codes = iv(x, s, zp, t, policy)
        elif o == "bad_policy":
            shape, size = list(c["shape"]), int(np.prod(c["shape"]))
            shapes = [shape + [2], [size + 1], shape + [1], [1] + shape, shape[::-1], [size], shape[:-1], shape[1:]]
            for bad in [np.zeros(x_, dtype=int) for x_ in shapes if x_ != shape]:
                try:
                    node.rounding_policy = bad
                except ValueError:
                    continue
                need(False, "a policy of another shape is rejected", shape=bad.shape, tensor=c["shape"])
        elif o == "reset_rounding":
            node.reset_rounding()
            policy = None
            codes = iv(x, s, zp, t)
        elif o == "reset_scale":
            node.reset_scale()
            s = c["s"]
        elif o == "reset_zp":
            node.reset_zp()
            zp = c["zp"]
        elif o == "hook":
            hooks += 1
            if hooks % 3:
                note = lambda n: (calls.append("p"), need(n is node and (n.scale, n.zero_point) == (s, zp), "hook sees the updated node"))  # noqa: E731
            node.on_quant_param_update.append(note)  # every third time the function that is already there
        elif o == "hook_q":
            qhooks += 1
            node.on_requantize.append(lambda n: (calls.append("q"), need(n is node and (n.scale, n.zero_point) == (s, zp), "hook sees the updated node")))
        elif o.startswith("exclude"):
            k = o.split("_")[1]
            f = {"params": node.exclude_quant_params, "tensor": node.exclude_tensor, "batch": node.exclude_batch_dimension}[k]
            need((f() if arg[0] is None else f(arg[0])) is node, "returns the node itself")
            flags[k] = arg[0] is None or arg[0]
        elif o == "name":
            name = f"n{len(calls)}x"
            node.name = name
        changed |= not (np.array_equal(old[0], codes[0]) and np.array_equal(old[1], codes[1]))
        need(sorted(calls) == sorted(expected_calls), "hooks run once per update", got=calls, want=expected_calls)
        need((node.scale, node.zero_point, node.name) == (s, zp, name), "parameters", got=(node.scale, node.zero_point), want=(s, zp), after=o)
        q = np.asarray(node.quantized)
        inside(q, codes, f"codes after {o}", s=s, zp=zp, policy=policy is not None)
        close(node.dequantized, (q.astype(np.float64) - zp) * s, rtol=1e-12, atol=0, msg=f"real values after {o}")
        need(np.array_equal(node.fp_tensor, keep), "the float tensor is kept")
        rp = np.asarray(node.rounding_policy)
        need(rp.shape == x.shape and set(np.unique(rp).tolist()) <= {0, 1}, "the policy is binary")
        if policy is not None:
            need(np.array_equal(rp, policy), "the policy is the one that was set")
        j = node.as_json()
        need(j["scale"] == (None if flags["params"] else s) and j["zero_point"] == (None if flags["params"] else zp), "parameters of the JSON form", got=(j["scale"], j["zero_point"]))
        tj = j["tensor"]
        need(tj["name"] == name and tj["dtype"].lower() == t.lower(), "name and type of the JSON form", got=(tj["name"], tj["dtype"]))
        need(list(tj["shape"]) == c["shape"][1 if flags["batch"] else 0:], "shape of the JSON form", got=tj["shape"])
        need(tj["tensor"] == (None if flags["tensor"] else q.tolist()), "codes of the JSON form")
        need(j["LUT"] is None, "no table")
        need(json.loads(json.dumps(j)) == j, "the JSON form can be written and read")
        need(node["scale"] == j["scale"] and node["tensor"] == tj, "item access")
    need(np.array_equal(bystander.quantized, bystander_codes) and bystander.scale == c["s"], "another node of the same tensor is not touched")
    ctx.nontrivial(changed)
    ctx.label("policy", policy is not None)


FNS = {"TANH": np.tanh, "SIGMOID": lambda v: 1 / (1 + np.exp(-np.clip(v, -500, 500))), "HARD": lambda v: np.clip(0.2 * np.asarray(v) + 0.5, 0, 1)}
EXACT = {"TANH": math.tanh, "SIGMOID": sigmoid, "HARD": lambda v: min(1.0, max(0.0, 0.2 * v + 0.5))}


@st.composite
def lut_case(draw):
    t = draw(st.sampled_from(["int8", "int8", "uint8", "int4", "int6", "uint5", "int10"]))
    t_out = draw(st.sampled_from([t, t, "int8", "uint8", "int4", "int6", "uint5", "int10", "int16", "uint13", "int24"]))

    def params(a):
        ty = t if a == 1.0 else t_out
        lo, hi = limits(ty)
        return draw(st.sampled_from([0.5, 2.0, 4.0, 8.0, 12.0])) * a / (hi - lo + 1) * draw(st.sampled_from([1.0, 0.93, 1.07, 1.2])), draw(zero_points(ty))

    ops = []
    for _ in range(draw(st.integers(1, 8))):
        o = draw(st.sampled_from(["in", "in", "out", "out", "in_lazy", "policy", "out_lazy", "read", "params"]))
        if o.startswith("in"):
            ops.append([o, *params(1.0)])
        elif o.startswith("out"):
            ops.append([o, *params(0.25)])
        elif o == "policy":
            ops.append([o, draw(st.integers(0, 2**31 - 1))])
        elif o == "params":
            ops.append([o, draw(st.booleans())])
        else:
            ops.append([o])
    return {"t": t, "t_out": t_out, "fn": draw(st.sampled_from(["TANH", "SIGMOID"])), "in": params(1.0), "out": params(0.25), "ops": ops,
            "calib": draw(st.booleans()), "tensor": draw(st.booleans()), "seed": draw(st.integers(0, 2**31 - 1))}


def check_lut(c, ctx):
    t = c["t"]
    lo, hi = limits(t)
    n = hi - lo + 1
    t_out = c["t_out"]
    q = Quantization(t)
    (i_s, i_zp), (o_s, o_zp) = c["in"], c["out"]
    data = np.random.RandomState(c["seed"]).uniform(-3, 3, size=(6, 3))
    src = NodeTensorBase(i_s, i_zp, "in", q)
    if c["tensor"]:
        src = src.with_tensor(data)
    op, acted = quantize_activation_node(FNS[c["fn"]], c["fn"], data, Quantization(t_out), src, out_params=None if c["calib"] else (o_s, o_zp))
    close(acted, FNS[c["fn"]](data), msg="the activated data are returned")
    out = op.outputs[0]
    need(op.inputs[0] is src and op.as_json()["op_type"] == c["fn"] + "LUT", "operator of the activation")
    if c["calib"]:
        y = FNS[c["fn"]](data)
        span = max(y.max(), 0) - min(y.min(), 0)
        lo_o, hi_o = limits(t_out)
        need(abs(out.scale * (hi_o - lo_o) - span) <= 1e-6 * span, "calibrated output range", got=out.scale * (hi_o - lo_o), want=span)
        o_s, o_zp = out.scale, out.zero_point
    need((out.scale, out.zero_point) == (o_s, o_zp), "output parameters")
    policy = None
    tables = set()
    hidden = False
    table_in = (i_s, i_zp)
    for o, *arg in [["start"], *c["ops"]]:
        if o in ("in", "in_lazy"):
            i_s, i_zp = arg
            src.update_quant_parameters(i_s, i_zp, requantize=o == "in")
            if o == "in":
                table_in = (i_s, i_zp)
        elif o in ("out", "out_lazy"):
            o_s, o_zp = arg
            out.update_quant_parameters(o_s, o_zp, requantize=o == "out")
        elif o == "policy":
            policy = np.random.RandomState(arg[0]).randint(0, 2, size=n)
            src.LUT.rounding_policy = policy.copy()
        elif o == "params":
            hidden = arg[0]
            need(src.exclude_quant_params(hidden) is src, "returns the node itself")
        if o == "in_lazy":
            continue  # without requantization the table is updated by the next update
        if o in ("out", "out_lazy", "policy", "read", "params") and table_in != (i_s, i_zp):
            continue
        lut = src.LUT
        want = lut_iv(EXACT[c["fn"]], t, i_s, i_zp, o_s, o_zp, policy, f32=False, out_dtype=t_out)
        got = [lut[k] for k in range(n)]
        need(len(lut) == n, "one entry per code", got=len(lut))
        inside(np.array(got), want, f"table after {o}", i=(i_s, i_zp), o=(o_s, o_zp), policy=policy is not None)
        need(lut.offset == -lo and [lut(k) for k in range(lo, hi + 1)] == got, "access by code")
        j = src.as_json()
        need((j["scale"], j["zero_point"]) == ((None, None) if hidden else (i_s, i_zp)), "parameters of the JSON form of the source", got=(j["scale"], j["zero_point"]))
        j = j["LUT"]
        need(j["LUT"] == got and j["offset"] == -lo, "JSON form of the table")
        json.dumps(j)
        tables.add(tuple(got))
    ctx.nontrivial(len(tables) >= 2 and len(set(max(tables))) > 2)


def subs():
    return [
        pairs.two(tensor_case(), check_tensor, quick=300, twist={"s": scales(-5, 1), "x": "reverse", "ops": "reverse"}),
        pairs.two(lut_case(), check_lut, quick=200, twist={"ops": "reverse"}, name="two tables at once"),
        Sub("tensor history", tensor_case(), check_tensor, quick=2500, thorough=50000),
        Sub("large tensors", tensor_case(large=True), check_tensor, quick=120, thorough=2000),
        Sub("table history", lut_case(), check_lut, quick=1500, thorough=25000),
    ]
