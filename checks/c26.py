"""C26 end to end quantization of LSTM networks."""
import json
import random
import sys
import types

import numpy as np
from hypothesis import strategies as st

from pbt import Sub, need
from pbt.gen import bulk_floats, limits, vary
from pbt.nodes import inside, iv, lut_iv, sigmoid
from pbt.qnets import ADT, build, check_doc, check_range, dense_spec, error_bound, in_domain, keras_layers, ROUND, weights
import math

from itcl_inference_engine.network.sequential import SequentialNetwork

RULE = (
    "A case is a network of 1 or 2 LSTM layers (up to 4 units and 5 steps) and up to 2 dense layers, representative "
    "sequences and a configuration. The 32 inputs of every LSTM operator are compared with the layer and with the float "
    "states of the calibration data, and the inference with the float network within an analytic error bound. Non-trivial: "
    "the outputs of the float network are not constant."
)
ASSUMPTIONS = ["keras layers are stand-ins with the same attributes and float32 arithmetic"]
GATES = ["INPUT", "FORGET", "CELL", "OUTPUT"]
# position of every input of the LSTM operator (the document is what the inference engine reads)
ORDER = ["X", *(p + g for p in ("KERNEL_", "RECURRENT_", "BIAS_", "BIAS_ADD_", "RECURRENT_ADD_") for g in GATES), "CELL_STATE",
         *(f"{g}_GATE_{k}" for g in GATES for k in ("LUT", "OUT")), "CELL_STATE_LUT", "CELL_STATE_ACT_OUT"]
AT = {n: k for k, n in enumerate(ORDER)}


@st.composite
def lstm_spec(draw, n_in, seq, units=4, dim=None):
    u = draw(dim or st.integers(1, units))
    mag = draw(st.sampled_from([0.05, 0.5, 1.0, 2.0]))
    spec = {"t": "lstm", "u": u, "seq": seq, "w": draw(weights((n_in, 4 * u), mag)), "r": draw(weights((u, 4 * u), draw(st.sampled_from([0.5, 1.0])))),
            "b": draw(weights((4 * u,), draw(st.sampled_from([0.0, 0.5, 2.0]))))}
    if draw(st.sampled_from([False, False, True])):
        spec.update(no_bias=True, b=[0.0] * (4 * u))
    return spec


@st.composite
def lstm_net(draw, max_steps=5, large=False, long=False):
    F, T, B = draw(st.integers(1, 4)), draw(st.integers(1, max_steps)), draw(st.integers(1, 5))
    dim = None
    if long:
        F, dim = draw(st.integers(1, 2)), st.sampled_from([1, 2, 3])
        T, B = draw(st.sampled_from([[1, 500], [1, 1025], [3, 257], [33, 5], [64, 3], [65, 2], [101, 2], [129, 1], [257, 1]]))
    if large:
        dim = st.sampled_from([1, 2, 5, 16, 17, 32, 33, 65])
        F, (T, B) = draw(dim), draw(st.sampled_from([[1, 1], [1, 65], [2, 129], [8, 9], [17, 3], [33, 2], [5, 33], [65, 1]]))
    x = np.round(np.array(draw(bulk_floats((B, T, F), 1.0))) * 1024) / 1024
    kind = draw(st.sampled_from(["mixed", "mixed", "pos", "neg"]))
    x = np.abs(x) if kind == "pos" else -np.abs(x) if kind == "neg" else x
    where = draw(st.sampled_from(["all", "all", "fade", "grow", "burst", "first", "last"]))  # when and in which sequence the extremes are
    if where in ("fade", "grow"):
        f = 0.125 ** np.minimum(np.arange(T), 3)
        x = x * (f if where == "fade" else f[::-1])[None, :, None]
    elif where == "burst":
        x[:, np.arange(T) != draw(st.integers(0, T - 1))] *= 0.0625
    elif where in ("first", "last"):
        x[np.arange(B) != (0 if where == "first" else B - 1)] *= 0.125
    x = (x * draw(st.sampled_from([0.1, 1.0, 5.0]))).astype(np.float32).astype(np.float64)
    dense = draw(st.integers(0, 2))
    two = draw(st.sampled_from([False, False, True]))
    layers, n = [], F
    if two:
        layers.append(draw(lstm_spec(n, True, 3, dim)))
        n = layers[-1]["u"]
    layers.append(draw(lstm_spec(n, dense == 0 and draw(st.booleans()), dim=dim)))
    n = layers[-1]["u"]
    for k in range(dense):
        layers.append(draw(dense_spec(n, k == dense - 1, 4, dim=dim)))
        n = layers[-1]["u"]
    cfg = {}
    if draw(st.booleans()):
        cfg = {"quantize": {"dtype": draw(st.sampled_from(ADT))}, "dense": {"kernel_symmetric": draw(st.booleans()), "kernel_dtype": draw(st.sampled_from(["int8", "int6"]))}}
    return {"x": x.tolist(), "layers": layers, "cfg": cfg, "extra": draw(st.sampled_from(["", "", "input", "dropout", "both"]))}


SIG = np.vectorize(sigmoid, otypes=[float])


def states(s, x, e=None):
    """float states of a layer in double precision; arrays of shape (steps, batch, ...), and under "e" what single precision may change in them"""
    W, R, b, u = np.array(s["w"]), np.array(s["r"]), np.array(s["b"]), s["u"]
    B, T, _ = x.shape
    h, c = np.zeros((B, u)), np.zeros((B, u))
    eh, ec, e = np.zeros((B, u)), np.zeros((B, u)), np.zeros(x.shape) if e is None else e
    res = {k: [] for k in ("ba", "ra", "g0", "g1", "g2", "g3", "c", "ca", "h", "prev_h", "prev_c")}
    noise = {k: [] for k in ("ra", "g", "c", "ca", "h")}
    for t in range(T):
        res["prev_h"].append(h)
        res["prev_c"].append(c)
        ba = x[:, t] @ W + b
        ra = ba + h @ R
        era = e[:, t] @ np.abs(W) + eh @ np.abs(R) + (W.shape[0] + u + 4) * ROUND * (np.abs(x[:, t]) @ np.abs(W) + np.abs(h) @ np.abs(R) + np.abs(b))
        g = [(np.tanh if k == 2 else SIG)(ra[:, k * u:(k + 1) * u]) for k in range(4)]
        eg = [(1.0 if k == 2 else 0.25) * era[:, k * u:(k + 1) * u] + ROUND * np.abs(g[k]) for k in range(4)]
        eg = [np.minimum(v, 2.0) for v in eg]
        ec = np.abs(g[1]) * ec + (np.abs(c) + ec) * eg[1] + np.abs(g[0]) * eg[2] + (np.abs(g[2]) + eg[2]) * eg[0]
        ec = np.minimum(ec + ROUND * (np.abs(g[1] * c) + np.abs(g[0] * g[2])), 2.0 * (t + 1))
        c = g[1] * c + g[0] * g[2]
        h = g[3] * np.tanh(c)
        eca = np.minimum(ec, 2.0) + ROUND * np.abs(np.tanh(c))
        eh = np.abs(g[3]) * eca + (np.abs(np.tanh(c)) + eca) * eg[3] + ROUND * np.abs(h)
        eh = np.minimum(eh, 2.0)
        for k, v in (("ra", era), ("g", np.concatenate(eg, axis=1)), ("c", ec), ("ca", eca), ("h", eh)):
            noise[k].append(v)
        for k, v in (("ba", ba), ("ra", ra), ("c", c), ("ca", np.tanh(c)), ("h", h), *((f"g{k}", g[k]) for k in range(4))):
            res[k].append(v)
    res = {k: np.array(v) for k, v in res.items()}
    # the bound grows with every step: a run in single precision tells how much of it is real
    f32 = states32(s, x)
    res["e"] = {}
    for k, v in noise.items():
        a = np.concatenate([res[f"g{i}"] for i in range(4)], axis=2) if k == "g" else res[k]
        res["e"][k] = np.minimum(np.array(v), 100 * np.abs(f32[k] - a).max() + 1e-6 * max(1.0, np.abs(a).max()))
    return res


def states32(s, x):
    """the states in single precision"""
    f = np.float32
    W, R, b, u = np.array(s["w"], f), np.array(s["r"], f), np.array(s["b"], f), s["u"]
    x = np.asarray(x, dtype=f)
    h, c = np.zeros((len(x), u), f), np.zeros((len(x), u), f)
    res = {k: [] for k in ("ra", "g", "c", "ca", "h")}
    for t in range(x.shape[1]):
        ra = x[:, t] @ W + h @ R + b
        g = [(np.tanh if k == 2 else lambda v: 1 / (1 + np.exp(-np.clip(v, -80, 80))))(ra[:, k * u:(k + 1) * u]) for k in range(4)]
        c = (g[1] * c + g[0] * g[2]).astype(f)
        ca = np.tanh(c)
        h = (g[3] * ca).astype(f)
        for k, v in (("ra", ra), ("g", np.concatenate(g, axis=1)), ("c", c), ("ca", ca), ("h", h)):
            res[k].append(v)
    return {k: np.array(v, dtype=float) for k, v in res.items()}


TYPES = {"kernel": "int8", "recurrent_kernel": "int8", "bias": "int32", "bias_add": "int32", "recurrent_add": "int8", "activation": "int8", "cell_state": "int8", "hidden_state": "int8"}


def span(n):
    """codes of the type of a node"""
    lo, hi = limits(n["tensor"]["dtype"])
    return hi - lo + 1


def check_lstm(s, o, prev, f, j, pol=None):
    """the operator of layer j"""
    ty = dict(TYPES, **s.get("types", {}))
    ins, out = o["inputs"], o["outputs"][0]
    u = s["u"]
    need(len(ins) == 32 and len(o["outputs"]) == 1, "inputs and outputs of the LSTM", got=len(ins))
    need((ins[0]["scale"], ins[0]["zero_point"]) == (prev["scale"], prev["zero_point"]), f"LSTM {j} reads the output of the previous operator")
    at = {k: o["attributes"][k]["value"] for k in o["attributes"]}
    need(at.get("return_sequences") == [s["seq"]] and at.get("n_cells") == [u], f"attributes of LSTM {j}", got=at)
    W, R, b = np.array(s["w"]), np.array(s["r"]), np.array(s["b"])
    get = lambda name: ins[AT[name]]  # noqa: E731
    noise = {k: float(v.max()) for k, v in f["e"].items()}
    need(out["tensor"]["dtype"] == ty["hidden_state"], f"type of the output of LSTM {j}")
    check_range(out, f["h"], f"the output of LSTM {j}", extra=noise["h"])
    need(out["tensor"]["tensor"] is None, "calibration data are not exported")
    for k, g in enumerate(GATES):
        cols = slice(k * u, (k + 1) * u)
        for name, w in (("KERNEL_", W[:, cols]), ("RECURRENT_", R[:, cols])):
            t = ty["kernel" if name == "KERNEL_" else "recurrent_kernel"]
            n = get(name + g)
            need(n["tensor"]["dtype"] == t, f"type of {name}{g}")
            check_range(n, w, f"{name}{g} of layer {j}")
            codes(n, w, pol, f"codes of {name}{g} of layer {j}")
        n = get("BIAS_" + g)
        want = ins[0]["scale"] * get("KERNEL_" + g)["scale"]
        need(abs(n["scale"] - want) <= 1e-12 * want and n["zero_point"] == 0 and n["tensor"]["dtype"] == ty["bias"], f"parameters of BIAS_{g}", got=n["scale"], want=want)
        codes(n, b[cols], pol, f"codes of BIAS_{g} of layer {j}")
        n = get("BIAS_ADD_" + g)
        want = out["scale"] * get("RECURRENT_" + g)["scale"]
        need(abs(n["scale"] - want) <= 1e-12 * want and n["zero_point"] == 0 and n["tensor"]["dtype"] == ty["bias_add"], f"parameters of BIAS_ADD_{g}", got=n["scale"], want=want)
        n = get("RECURRENT_ADD_" + g)
        need(n["tensor"]["dtype"] == ty["recurrent_add"] and n["tensor"]["tensor"] is None, f"type of RECURRENT_ADD_{g}")
        check_range(n, f["ra"][..., cols], f"RECURRENT_ADD_{g} of layer {j}", extra=noise["ra"])
        lut(get(f"{g}_GATE_LUT"), get(f"{g}_GATE_OUT"), n, ty["activation"], math.tanh if k == 2 else sigmoid, f[f"g{k}"], f"{g} gate of layer {j}", noise["g"])
    n = get("CELL_STATE")
    need(n["zero_point"] == 0 and n["tensor"]["dtype"] == ty["cell_state"], "the cell state is symmetric", got=n["zero_point"])
    top = limits(ty["cell_state"])[1]
    a, lo, hi = np.abs(f["c"]).max(), f["c"].min(), f["c"].max()
    if hi - lo > max(1e-5 * a, 2 * noise["c"]):
        need(abs(n["scale"] * top - a) <= 1e-4 * a + noise["c"], f"scale of the cell state of layer {j}", got=n["scale"] * top, want=a)
    else:
        need(a * (1 - 1e-4) - noise["c"] <= n["scale"] * top <= max(a + noise["c"] + 0.51, top), f"scale of the constant cell state of layer {j}", got=n["scale"] * top, want=a)
    lut(get("CELL_STATE_LUT"), get("CELL_STATE_ACT_OUT"), n, ty["cell_state"], math.tanh, f["ca"], f"cell state activation of layer {j}", noise["ca"])
    return out


def codes(n, w, pol, msg):
    args = (w, n["scale"], n["zero_point"], n["tensor"]["dtype"])
    got = np.array(n["tensor"]["tensor"])
    if pol is None:
        inside(got, iv(*args), msg)
    else:
        a, b = iv(*args, 0), iv(*args, 1)
        inside(got, (np.minimum(a[0], b[0]), np.maximum(a[1], b[1])), msg)


def lut(node, out, src, out_type, fn, data, msg, noise):
    need((node["scale"], node["zero_point"]) == (src["scale"], src["zero_point"]), f"{msg}: the table reads the codes of its source")
    check_range(out, data, msg, extra=noise)
    t = src["tensor"]["dtype"]
    need(node["tensor"]["dtype"] == t and out["tensor"]["dtype"] == out_type, f"{msg}: types", got=(node["tensor"]["dtype"], out["tensor"]["dtype"]), want=(t, out_type))
    lo, hi = limits(t)
    table = np.array(node["LUT"]["LUT"])
    need(node["LUT"]["offset"] == -lo and len(table) == hi - lo + 1, f"{msg}: table", got=(node["LUT"]["offset"], len(table)))
    inside(table, lut_iv(fn, t, node["scale"], node["zero_point"], out["scale"], out["zero_point"], out_dtype=out_type), f"{msg}: entries")


def bound_lstm(s, o, f, x, ex):
    """error bound of the hidden states (steps, batch, units)"""
    ins, u = o["inputs"], s["u"]
    get = lambda name: ins[AT[name]]  # noqa: E731
    W, R, b = np.array(s["w"]), np.array(s["r"]), np.array(s["b"])

    def diff(n, w):
        return np.abs((np.array(n["tensor"]["tensor"]) - n["zero_point"]) * n["scale"] - w)

    B, T, _ = x.shape
    eh, ec = np.zeros((B, u)), np.zeros((B, u))
    res = []
    hs, cs = o["outputs"][0]["scale"], get("CELL_STATE")["scale"]
    for t in range(T):
        eg = []
        for k, g in enumerate(GATES):
            cols = slice(k * u, (k + 1) * u)
            w, r = W[:, cols], R[:, cols]
            dw, dr, db = diff(get("KERNEL_" + g), w), diff(get("RECURRENT_" + g), r), diff(get("BIAS_" + g), b[cols])
            h = np.abs(f["prev_h"][t])
            e = ex[:, t] @ np.abs(w) + (np.abs(x[:, t]) + ex[:, t]) @ dw + db + get("BIAS_ADD_" + g)["scale"]
            e = e + eh @ np.abs(r) + (h + eh) @ dr + 1e-5 * (np.abs(x[:, t]) @ np.abs(w) + h @ np.abs(r) + np.abs(b[cols]))
            e = e + 2.02 * get("RECURRENT_ADD_" + g)["scale"] + 1e-7
            eg.append((1.0 if k == 2 else 0.25) * e + 1.02 * get(f"{g}_GATE_OUT")["scale"] + 1e-6)
            # no code is further away than the ends of its type
            eg[-1] = np.minimum(eg[-1], np.abs(f[f"g{k}"][t]) + span(get(f"{g}_GATE_OUT")) * get(f"{g}_GATE_OUT")["scale"])
        i, fo, gg, ou = (np.abs(f[f"g{k}"][t]) for k in range(4))
        pc = np.abs(f["prev_c"][t])
        ec = eg[1] * pc + ec * fo + eg[1] * ec + eg[0] * gg + eg[2] * i + eg[0] * eg[2] + 2.02 * cs + 1e-6
        ec = np.minimum(ec, np.abs(f["c"][t]) + (span(get("CELL_STATE")) // 2 + 1) * cs)
        ea = ec + 1.02 * get("CELL_STATE_ACT_OUT")["scale"] + 1e-6
        ca = np.abs(f["ca"][t])
        eh = eg[3] * ca + ea * ou + eg[3] * ea + 2.02 * hs + 1e-6
        eh = np.minimum(eh, np.abs(f["h"][t]) + span(o["outputs"][0]) * hs)
        res.append(eh)
    return np.array(res)


def split(c):
    k = sum(s["t"] == "lstm" for s in c["layers"])
    return c["layers"][:k], c["layers"][k:]


def check_structure(c, doc, pol=None, free=False):
    """checks the document; returns the float output and the error bound of the calibration rows"""
    ls, ds = split(c)
    ops = doc["graph"]
    need([o["op_type"] for o in ops[:1 + len(ls)]] == ["QUANTIZE"] + ["LSTM"] * len(ls), "operators", got=[o["op_type"] for o in ops])
    x = np.array(c["x"])
    prev = ops[0]["outputs"][0]
    need(prev["tensor"]["dtype"] == c["cfg"].get("quantize", {}).get("dtype", "int8"), "type of the input")
    check_range(prev, x, "the input")
    e = np.full(x.shape, prev["scale"] * 1.01)
    noise = np.zeros(x.shape)
    for j, s in enumerate(ls):
        f = states(s, x, noise)
        o = ops[1 + j]
        prev = check_lstm(s, o, prev, f, j, pol)
        eh = bound_lstm(s, o, f, x, e)
        if s["seq"]:
            x, e, noise = np.swapaxes(f["h"], 0, 1), np.swapaxes(eh, 0, 1), np.swapaxes(f["e"]["h"], 0, 1)
        else:
            x, e, noise = f["h"][-1], eh[-1], f["e"]["h"][-1]
    if not ds:
        need(ops[-1]["op_type"] == "DEQUANTIZE" and len(ops) == len(ls) + 2, "operators", got=[o["op_type"] for o in ops])
        need((ops[-1]["inputs"][0]["scale"], ops[-1]["inputs"][0]["zero_point"]) == (prev["scale"], prev["zero_point"]), "the dequantization reads the last output")
        return x, e
    # the dense tail, as a network of its own
    fake = dict(ops[0], outputs=[prev])
    sub = dict(doc, graph=[fake, *ops[1 + len(ls):]], operators=len(ops) - len(ls))
    cc = {"x": x.tolist(), "layers": ds, "cfg": {"dense": c["cfg"].get("dense", {})}}
    pols = None if pol is None else {(j, k): None for j, s in enumerate(ds) for k in ("w", "b", "lut") if k != "lut" or s["act"] in ("tanh", "sigmoid")}
    check_doc(cc, sub, policies=pols, calibration=f["h"], free=free, noise=noise)
    e, y = error_bound(cc, sub, e)
    return y, e


# ---------------------------------------------------------------- layers with types of their own
@st.composite
def lstm_types(draw):
    kernel, table = st.sampled_from(["int8", "int4", "int6", "int12", "uint8"]), st.sampled_from(["int8", "int6", "uint8", "int10", "uint9"])
    wide = st.sampled_from(["int8", "int6", "uint8", "int10", "int12", "int16", "uint16"])
    return {"kernel": draw(kernel), "recurrent_kernel": draw(kernel), "bias": draw(st.sampled_from(["int32", "int32", "int24", "int40"])),
            "bias_add": draw(st.sampled_from(["int32", "int24", "int40"])), "recurrent_add": draw(table), "activation": draw(wide),
            "cell_state": draw(st.sampled_from(["int8", "int6", "int10", "int9"])), "hidden_state": draw(wide)}


@st.composite
def typed_net(draw):
    c = draw(lstm_net())
    c["layers"] = [s for s in c["layers"] if s["t"] == "lstm"]
    for s in c["layers"]:
        s["types"] = draw(lstm_types())
        if draw(st.booleans()):  # one type that differs from the defaults
            k = draw(st.sampled_from(sorted(TYPES)))
            s["types"] = {k: s["types"][k]}
    c["cfg"] = {"quantize": {"dtype": draw(st.sampled_from(ADT))}}
    return c


def chain(c):
    """the network of the layers of a case, put together without the builder"""
    from itcl_quantization import Quantization
    from itcl_quantizer.tensor_extractor.abstract_layer import QuantizationResult
    from itcl_quantizer.tensor_extractor.keras.layers.dequantize import Dequantize
    from itcl_quantizer.tensor_extractor.keras.layers.keras_input import KerasInput
    from itcl_quantizer.tensor_extractor.keras.layers.keras_lstm import KerasLSTM
    from itcl_quantizer.util.network import Network

    x = vary(np.array(c["x"], dtype=np.float32))
    keep = x.copy()
    first = KerasInput(Quantization(c["cfg"]["quantize"]["dtype"]))
    res = [first.quantize(QuantizationResult(x, None, None, first))]
    for layer, s in zip(keras_layers(dict(c, extra="")), c["layers"]):
        res.append(KerasLSTM(layer, **{f"{k}_dtype": t for k, t in s["types"].items()}).quantize(res[-1]))
    last = Dequantize()
    res.append(last.quantize(res[-1]))
    need(np.array_equal(x, keep), "the representative data are not modified")
    net = Network(res)
    return net, json.loads(json.dumps(net.as_json()))


def check_typed(c, ctx):
    check_net(c, ctx, chain)


def check_net(c, ctx, build=build):
    net, doc = build(c)
    need(doc["operators"] == len(doc["graph"]), "header of the document")
    y, e = check_structure(c, doc)
    mem = json.loads(json.dumps(net.as_json()))
    mem.pop("generated_at", None)
    doc.pop("generated_at", None)
    need(mem == doc, "the file holds the document of the returned network")
    if not in_domain(doc):
        ctx.label("rescaling factor out of range")
        return
    x = vary(np.array(c["x"], dtype=np.float32))
    got = np.asarray(SequentialNetwork(doc).infer(x))
    need(np.array_equal(got, np.asarray(net.as_sequential_network().infer(x))), "the document and the network give the same results")
    need(got.shape == y.shape, "shape of the result", got=got.shape, want=y.shape)
    bad = np.abs(got - y) - e
    k = np.unravel_index(np.argmax(bad), bad.shape)
    need(bad.max() <= 0, "the quantized network stays within its error bound", index=list(map(int, k)), got=got[k], want=y[k], bound=e[k])
    ctx.nontrivial(np.ptp(y) > 0)
    ctx.label("informative", float(np.median(e)) < 0.25 * (np.ptp(y) + 1e-9))
    ctx.label("dense tail", bool(split(c)[1]))


# ---------------------------------------------------------------- updates and optimizations
@st.composite
def update_case(draw):
    c = draw(lstm_net(max_steps=3))
    ls, _ = split(c)
    c["updates"] = [[draw(st.sampled_from(["in", "k0", "k1", "k2", "k3"])), draw(st.integers(0, len(ls) - 1)), draw(st.sampled_from([0.5, 0.9, 1.1, 2.0, 1.0, 1.0, 1 + 1e-4, 1 - 1e-6])), draw(st.integers(-3, 3))]
                    for _ in range(draw(st.integers(1, 4)))]
    return c


def check_update(c, ctx):
    net, _ = build(c)
    ls, _ = split(c)
    ops = net.as_operators()
    for what, j, f, dz in c["updates"]:
        n = ops[1 + j].inputs[0] if what == "in" else ops[1 + j].inputs[1 + int(what[1])]
        lo, hi = limits(str(n.quant.dtype))
        n.update_quant_parameters(n.scale * f, int(np.clip(n.zero_point + dz, lo, hi)))
    doc = net.as_json()
    for j, s in enumerate(ls):
        ins = doc["graph"][1 + j]["inputs"]
        u = s["u"]
        for k in range(4):
            cols = slice(k * u, (k + 1) * u)
            kn, bn = ins[1 + k], ins[9 + k]
            want = ins[0]["scale"] * kn["scale"]
            need(abs(bn["scale"] - want) <= 1e-12 * want and bn["zero_point"] == 0, f"the bias follows its input and kernel (layer {j}, gate {k})", got=bn["scale"], want=want)
            codes(kn, np.array(s["w"])[:, cols], None, f"kernel codes after an update, layer {j} gate {k}")
            codes(bn, np.array(s["b"])[cols], None, f"bias codes after an update, layer {j} gate {k}")
    ctx.nontrivial()


@st.composite
def optimize_case(draw):
    c = draw(lstm_net(max_steps=3))
    c["seed"] = draw(st.integers(0, 2**31 - 1))
    c["how"] = draw(st.sampled_from(["round", "round", "equalize", "qubo"]))
    return c


def check_optimize(c, ctx):
    if c["how"] == "qubo" and not split(c)[1]:
        c = dict(c, how="round")
    plain, before_doc = build(c)
    if not in_domain(before_doc, -18, 20):
        return
    y, _ = check_structure(c, before_doc)
    x = vary(np.array(c["x"], dtype=np.float32))
    log = []

    def loss(net):
        log.append(float(np.mean((np.asarray(net.infer(x)) - y) ** 2)))
        return log[-1]

    before = loss(plain.as_sequential_network())
    log.clear()
    random.seed(c["seed"])
    opt = {"round": {"ada_round_net": {"optimizer": "base", "max_retries": 3}}, "equalize": {"param_equalizer": {"max_retries": 4}},
           "qubo": {"ada_round_net": {"optimizer": "qubo"}}}[c["how"]]
    net, doc = build(dict(c, cfg=dict(c["cfg"], **opt)), loss_fn=loss)
    check_structure(c, doc, pol=None if c["how"] == "equalize" else "any", free=c["how"] == "equalize")
    k = 1 + len(split(c)[0])
    if c["how"] != "round":  # only dense layers are optimized this way
        need(doc["graph"][:k] == before_doc["graph"][:k], "the LSTM layers do not change")
    if c["how"] != "qubo":
        after = loss(net.as_sequential_network())
        need(after <= before, "the loss never gets worse", before=before, after=after)
        need(after == min(log), "the best that was tried is kept", got=after, want=min(log))
        ctx.nontrivial(after < before)
    else:
        ctx.nontrivial(doc["graph"][k:] != before_doc["graph"][k:])
    ctx.label(c["how"])


def check_debugger(c, ctx):
    """a debugger is attached: the quantizer also reports the noise of every tensor"""
    _, want = build(c)
    if not in_domain(want):
        return
    pandas = types.ModuleType("pandas")
    pandas.DataFrame = lambda data=None, **k: data
    had, trace = sys.modules.get("pandas"), sys.gettrace()
    if had is None:
        sys.modules["pandas"] = pandas
    sys.settrace(lambda *a: None)
    try:
        net, got = build(c)
    finally:
        sys.settrace(trace)
        if had is None:
            del sys.modules["pandas"]
    x = vary(np.array(c["x"], dtype=np.float32))
    a, b = (np.asarray(n.infer(x)) for n in (SequentialNetwork(want), net.as_sequential_network()))
    for doc in (want, got):
        doc.pop("generated_at", None)
    need(got == want and np.array_equal(a, b), "a debugger does not change the network")
    ctx.nontrivial(np.ptp(a) > 0)


def subs():
    return [
        Sub("end to end", lstm_net(), check_net, quick=500, thorough=9000),
        Sub("large", lstm_net(large=True), check_net, quick=36, thorough=600),
        Sub("long", lstm_net(long=True), check_net, quick=36, thorough=600),
        Sub("types", typed_net(), check_typed, quick=120, thorough=2400),
        Sub("updates", update_case(), check_update, quick=120, thorough=1500),
        Sub("debugger", lstm_net(), check_debugger, quick=60, thorough=600),
        Sub("optimization", optimize_case(), check_optimize, quick=120, thorough=1500),
    ]
