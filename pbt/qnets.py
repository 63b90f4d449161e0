"""Generated keras-like networks, their quantized documents and what those documents must say."""
import json
import math
import os
import tempfile
import threading

import numpy as np
from hypothesis import strategies as st

from pbt import need, close
from pbt.gen import bulk_floats, limits, sizes, vary
from pbt.nodes import FLOAT_FN, inside, iv, lut_iv

import tensorflow
from tensorflow import keras

# layer names; keras numbers the layers of a class, and users pick names with common heads and tails
NAMES = [["d0", "d1", "d2", "d3"], ["dense", "dense_1", "dense_10", "dense_2"], ["dense_10", "dense_1", "dense", "dense_11"],
         ["d1", "d10", "d100", "d"], ["d100", "d10", "d1", "d"], ["net/head", "net", "head", "net/head/net"], ["a", "A", "a ", "aa"]]


def lname(c, j):
    """name of layer j"""
    return NAMES[c.get("names", 0)][j]


ACTS = ["linear", "tanh", "sigmoid", "relu", "relu6"]
KDT = ["int8", "int8", "int8", "int4", "int6", "int12"]
ADT = ["int8", "int8", "int8", "uint8", "int6", "uint6", "int10"]


@st.composite
def weights(draw, shape, mag):
    w = np.round(np.array(draw(bulk_floats(shape, 1.0))) * 1024) / 1024 * mag  # no vanishing weights: see factors()
    return w.astype(np.float32).astype(np.float64).tolist()


@st.composite
def dense_spec(draw, n_in, last, big=12, acts=ACTS, dtypes=True, dim=None):
    n_out = draw(dim or sizes(3, big))
    act = draw(st.sampled_from(acts + (["softmax"] if last else [])))
    mag = draw(st.sampled_from([0.05, 0.5, 1.0, 3.0]))
    return {"t": "dense", "u": n_out, "act": act, "w": draw(weights((n_in, n_out), mag)),
            "b": draw(st.one_of(st.none(), weights((n_out,), mag), weights((n_out,), mag * 2)))}


@st.composite
def calib(draw, n_in, rows=12, count=None):
    n = draw(count or sizes(4, rows))
    kind = draw(st.sampled_from(["mixed", "mixed", "pos", "neg", "const", "late", "early"]))
    x = np.round(np.array(draw(bulk_floats((n, n_in), 1.0))) * 1024) / 1024
    if kind == "pos":
        x = np.abs(x)
    elif kind == "neg":
        x = -np.abs(x)
    elif kind == "const":
        x = np.full_like(x, 0.7)
    elif kind == "late":  # the extremes of the data are in the last row
        x[:-1] *= 0.125
    elif kind == "early":
        x[1:] *= 0.125
    x = x * draw(st.sampled_from([0.02, 1.0, 1.0, 40.0]))
    return x.astype(np.float32).astype(np.float64).tolist()


@st.composite
def dense_cfg(draw):
    a = draw(st.sampled_from(ADT))
    return {"kernel_dtype": draw(st.sampled_from(KDT)), "bias_dtype": draw(st.sampled_from(["int32", "int32", "int16", "int8", "int6", "int4"])),
            "activation_dtype": a, "bias_add_dtype": draw(st.one_of(st.just(a), st.just(a), st.sampled_from(ADT))), "kernel_symmetric": draw(st.booleans())}


@st.composite
def net_case(draw, max_layers=3, dtypes=True, acts=ACTS, big=10, rows=12, dim=None, count=None):
    n_in = draw(dim or sizes(3, big))
    x = draw(calib(n_in, rows, count))
    layers, n = [], n_in
    k = draw(st.integers(1, max_layers))
    for j in range(k):
        layers.append(draw(dense_spec(n, j == k - 1, big, acts, dim=dim)))
        n = layers[-1]["u"]
    cfg = {}
    names = draw(st.sampled_from([0, 0, *range(1, len(NAMES))]))
    if dtypes and draw(st.booleans()):
        cfg["dense"] = draw(dense_cfg())
        if draw(st.booleans()):
            cfg["quantize"] = {"dtype": draw(st.sampled_from(ADT))}
        if draw(st.booleans()):
            cfg["specific_layers"] = {NAMES[names][draw(st.integers(0, k - 1))]: draw(dense_cfg())}
    return {"x": x, "layers": layers, "cfg": cfg, "names": names, "extra": draw(st.sampled_from(["", "", "input", "dropout", "both"]))}


WIDE = st.sampled_from([1, 2, 5, 16, 31, 32, 33, 48, 63, 64, 65, 100, 127, 128, 129, 200, 256, 257])
MANY = st.sampled_from([1, 3, 31, 32, 33, 64, 65, 100, 127, 128, 129, 255, 256, 257, 300])
HUGE = st.sampled_from([500, 511, 512, 513, 1000, 1001, 1024, 1025, 2000, 2049, 4097, 5000])
NARROW = st.sampled_from([1, 2, 3])


DEFAULT = {"kernel_dtype": "int8", "bias_dtype": "int32", "activation_dtype": "int8", "bias_add_dtype": "int8", "kernel_symmetric": False}


def keras_layers(c):
    out = []
    if c.get("extra") in ("input", "both"):
        out.append(keras.layers.InputLayer(name="inp"))
    for j, s in enumerate(c["layers"]):
        w = [np.array(s["w"])] + ([] if s["b"] is None else [np.array(s["b"])])
        if s["t"] == "dense":
            out.append(keras.layers.Dense(s["u"], s["act"], name=lname(c, j), weights=w))
        else:
            ws = [np.array(s[k]) for k in ("w", "r", "b")[:2 if s.get("no_bias") else 3]]
            out.append(keras.layers.LSTM(s["u"], s["seq"], name=lname(c, j), weights=ws))
        if c.get("extra") in ("dropout", "both") and j == 0:
            out.append(keras.layers.Dropout(name="drop"))
    return out


_model_of = threading.local()  # two cases may be built by turns (pbt/pairs.py)


def build(c, loss_fn=None, cfg=None, path_out=None, layers=None):
    """runs keras_builder.build over the stubbed loader; returns (network, document of the file)"""
    from itcl_quantizer.config.models.keras import QuantizerCfg
    from itcl_quantizer.tensor_extractor.keras import keras_builder

    layers = keras_layers(c) if layers is None else layers
    asked = []

    def load(path, *a, **k):
        asked.append(path)
        return keras.Model(layers)

    _model_of.load = load
    tensorflow.keras.models.load_model = lambda *a, **k: _model_of.load(*a, **k)
    d = tempfile.mkdtemp(dir=".")
    out = os.path.join(d, "net.json")
    try:
        cfg = QuantizerCfg(**c["cfg"]) if cfg is None else cfg
        x = vary(np.array(c["x"], dtype=np.float32))
        keep = x.copy()
        net = keras_builder.build("model.h5", out, x, loss_fn, cfg)
        need(asked == ["model.h5"], "loads the model once", got=asked)
        need(np.array_equal(x, keep), "the representative data are not modified")
        with open(out, encoding="utf-8") as f:
            doc = json.load(f)
    finally:
        _model_of.load = None
        for f in os.listdir(d):
            os.remove(os.path.join(d, f))
        os.rmdir(d)
    return net, doc


def layer_cfg(c, j):
    cfg = c["cfg"]
    base = dict(DEFAULT, **cfg.get("dense", {}))
    sp = cfg.get("specific_layers", {})
    return dict(DEFAULT, **sp[lname(c, j)]) if lname(c, j) in sp else base


def float_layers(c):
    """per dense layer: (input, pre-activation, output) in double precision"""
    x = np.array(c["x"])
    res = []
    for s in c["layers"]:
        y = x @ np.array(s["w"]) + (0 if s["b"] is None else np.array(s["b"]))
        fn = FLOAT_FN[s["act"].upper()][0]
        a = np.vectorize(fn, otypes=[float])(y)
        res.append((x, y, a))
        x = a
    return res


ROUND = 2.0**-22  # of single precision, with a margin


def float_noise(c, e=None):
    """per dense layer: bounds of what single precision may change in the pre-activation and the output (largest of the batch)"""
    e = np.zeros(np.array(c["x"]).shape) if e is None else e
    res = []
    for s, (x, y, a) in zip(c["layers"], float_layers(c)):
        W = np.abs(np.array(s["w"]))
        b = 0 if s["b"] is None else np.abs(np.array(s["b"]))
        ey = e @ W + (len(W) + 2) * ROUND * (np.abs(x) @ W + b)
        e = FLOAT_FN[s["act"].upper()][1] * ey + ROUND * np.abs(a)
        res.append((float(ey.max()), float(e.max())))
    return res


def check_range(node, data, name, tol=1e-4, extra=0.0):
    """scale and zero point of an asymmetric calibrated node; extra: a bound of the rounding noise of its data"""
    lo, hi = limits(node["tensor"]["dtype"])
    s, zp = node["scale"], node["zero_point"]
    need(isinstance(s, float) and s > 0 and math.isfinite(s), f"scale of {name}", got=s)
    need(isinstance(zp, int) and lo <= zp <= hi, f"zero point of {name}", got=zp)
    lo_x, hi_x = float(data.min()), float(data.max())
    noise = max(1e-5 * max(abs(lo_x), abs(hi_x)), extra) + 1e-12
    a, b = min(lo_x, 0.0), max(hi_x, 0.0)
    span = s * (hi - lo)
    if hi_x - lo_x > max(noise, 2 * extra):
        need(abs(span - (b - a)) <= tol * (b - a) + 2 * noise, f"range of {name}", got=span, want=b - a)
    else:  # a constant (in single precision) has no spread of its own
        need(span <= (b - a) + 1 + 2 * noise, f"range of {name}", got=span, want=(b - a, b - a + 1))
    need((lo - zp) * s <= a + s + noise and (hi - zp) * s >= b - s - noise, f"{name} covers its data", got=((lo - zp) * s, (hi - zp) * s), want=(a, b))


def check_doc(c, doc, free=False, policies=None, calibration=None, noise=None):
    """Structure and parameters of the document of a dense network.

    free: parameters may differ from the calibrated ones (after equalization) but have to be consistent ("all": the ones of the input too).
    policies: {(layer, "w"|"b"|"lut"): rounding policy} that replace rounding to nearest; None in it: any policy.
    """
    pol = policies or {}
    fl = float_layers(c)
    noises = float_noise(c, noise)
    ops = doc["graph"]
    need(doc["engine"].lower() == "tflite" and doc["operators"] == len(ops), "header of the document")
    want = ["QUANTIZE"]
    for s in c["layers"]:
        want.append("FULLY_CONNECTED")
        if s["act"] in ("tanh", "sigmoid"):
            want.append(s["act"].upper() + "LUT")
    want.append("DEQUANTIZE")
    need([o["op_type"] for o in ops] == want, "operators of the document", got=[o["op_type"] for o in ops], want=want)
    prev = ops[0]["outputs"][0]
    need(prev["tensor"]["dtype"] == c["cfg"].get("quantize", {}).get("dtype", "int8"), "type of the input")
    need(prev["tensor"]["tensor"] is None, "calibration data are not exported")
    if free != "all":
        check_range(prev, np.array(c["x"]) if calibration is None else calibration, "the input")
    k = 1
    for j, s in enumerate(c["layers"]):
        cf = layer_cfg(c, j)
        o = ops[k]
        k += 1
        need(len(o["inputs"]) == 3 and len(o["outputs"]) == 1, "inputs and outputs of the dense operator")
        xin, kern, bias = o["inputs"]
        out = o["outputs"][0]
        need((xin["scale"], xin["zero_point"], xin["tensor"]) == (prev["scale"], prev["zero_point"], prev["tensor"]), f"layer {j} reads the output of the previous operator")
        W = np.array(s["w"]).T
        ks, kzp = kern["scale"], kern["zero_point"]
        lo, hi = limits(cf["kernel_dtype"])
        need(kern["tensor"]["dtype"] == cf["kernel_dtype"] and kern["tensor"]["shape"] == list(W.shape), f"kernel of layer {j}", got=(kern["tensor"]["dtype"], kern["tensor"]["shape"]))
        absmax = np.abs(W).max()
        if not free:
            need(kzp == 0, f"zero point of the kernel of layer {j}", got=kzp)
            d = hi if cf["kernel_symmetric"] else -lo
            if np.ptp(W) > 1e-6 * absmax:
                need(abs(ks * d - absmax) <= 1e-5 * absmax, f"scale of the kernel of layer {j}", got=ks * d, want=absmax)
            else:
                need(absmax * (1 - 1e-5) <= ks * d <= max(absmax + 0.5, d), f"scale of the constant kernel of layer {j}", got=ks * d, want=absmax)
        need(ks > 0 and lo <= kzp <= hi, f"parameters of the kernel of layer {j}", got=(ks, kzp))
        codes = np.array(kern["tensor"]["tensor"])
        sat = binary_or(W, ks, kzp, cf["kernel_dtype"], pol, (j, "w"), codes, f"kernel codes of layer {j}")
        b = np.zeros(s["u"]) if s["b"] is None else np.array(s["b"])
        need(abs(bias["scale"] - ks * xin["scale"]) <= 1e-12 * ks * xin["scale"] and bias["zero_point"] == 0, f"bias parameters of layer {j}",
             got=(bias["scale"], bias["zero_point"]), want=ks * xin["scale"])
        need(bias["tensor"]["dtype"] == cf["bias_dtype"] and bias["tensor"]["shape"] == [s["u"]], f"bias of layer {j}")
        binary_or(b, bias["scale"], 0, cf["bias_dtype"], pol, (j, "b"), np.array(bias["tensor"]["tensor"]), f"bias codes of layer {j}")
        x, y, a = fl[j]
        need(out["tensor"]["dtype"] == cf["bias_add_dtype"] and out["tensor"]["tensor"] is None and out["tensor"]["shape"] == [s["u"]], f"output of layer {j}",
             got=out["tensor"])
        lo, hi = limits(cf["bias_add_dtype"])
        ny, na = noises[j]
        if not free:
            check_range(out, a if s["act"] in ("relu", "relu6") else y, f"the output of layer {j}", extra=max(ny, na))
        else:
            need(out["scale"] > 0 and lo <= out["zero_point"] <= hi, f"parameters of the output of layer {j}", got=(out["scale"], out["zero_point"]))
        prev = out
        if s["act"] in ("tanh", "sigmoid"):
            o = ops[k]
            k += 1
            i, out2 = o["inputs"][0], o["outputs"][0]
            need(len(o["inputs"]) == 1 and len(o["outputs"]) == 1, "inputs and outputs of the activation")
            need((i["scale"], i["zero_point"]) == (out["scale"], out["zero_point"]), f"the activation {j} reads the dense output")
            t = cf["activation_dtype"]
            need(out2["tensor"]["dtype"] == t and out2["tensor"]["shape"] == [s["u"]], f"type of activation {j}", got=out2["tensor"])
            if not free:
                check_range(out2, a, f"activation {j}", extra=na)
            table = np.array(i["LUT"]["LUT"])
            lo, hi = limits(cf["bias_add_dtype"])
            need(i["LUT"]["offset"] == -lo and len(table) == hi - lo + 1, f"table of layer {j}", got=(i["LUT"]["offset"], len(table)))
            fn = FLOAT_FN[s["act"].upper()][0]
            args = (fn, cf["bias_add_dtype"], i["scale"], i["zero_point"], out2["scale"], out2["zero_point"])
            if (j, "lut") in pol:
                either(lut_iv(*args, policy=0, out_dtype=t), lut_iv(*args, policy=1, out_dtype=t), table, pol[(j, "lut")], lambda p: lut_iv(*args, policy=p, out_dtype=t), f"table of layer {j}")
            else:
                inside(table, lut_iv(*args, out_dtype=t), f"table of layer {j}")
            prev = out2
        else:
            need(out["LUT"] is None, f"no table in layer {j}")
    d = ops[-1]
    need(len(d["inputs"]) == 1 and d["outputs"] == [] and (d["inputs"][0]["scale"], d["inputs"][0]["zero_point"], d["inputs"][0]["tensor"]["dtype"])
         == (prev["scale"], prev["zero_point"], prev["tensor"]["dtype"]), "the dequantization reads the last output")


def either(down, up, got, policy, with_policy, msg):
    if policy is not None:
        inside(got, with_policy(np.array(policy)), msg + " (policy)")
    else:
        inside(got, (np.minimum(down[0], up[0]), np.maximum(down[1], up[1])), msg + " (any policy)")


def binary_or(x, s, zp, dtype, pol, key, codes, msg):
    if key in pol:
        either(iv(x, s, zp, dtype, 0), iv(x, s, zp, dtype, 1), codes, pol[key], lambda p: iv(x, s, zp, dtype, p), msg)
    else:
        inside(codes, iv(x, s, zp, dtype), msg, s=s, zp=zp)


def error_bound(c, doc, e=None):
    """analytic bound of |network(x) - float network(x)| on the calibration rows"""
    fl = float_layers(c)
    ops = doc["graph"]
    if e is None:
        e = np.full(np.array(c["x"]).shape, ops[0]["outputs"][0]["scale"] * 1.01)
    k = 1
    for j, s in enumerate(c["layers"]):
        x, y, a = fl[j]
        o = ops[k]
        k += 1
        kern, bias = o["inputs"][1:]
        out = o["outputs"][0]
        W = np.array(s["w"])
        dW = np.abs((np.array(kern["tensor"]["tensor"]) - kern["zero_point"]) * kern["scale"] - W.T).T
        b = np.zeros(s["u"]) if s["b"] is None else np.array(s["b"])
        dB = np.abs(np.array(bias["tensor"]["tensor"]) * bias["scale"] - b)
        acc = np.abs(x) @ np.abs(W) + np.abs(b)
        err = e @ np.abs(W) + (np.abs(x) + e) @ dW + dB + 1e-5 * acc + 1e-8 * (acc + 1)
        e = err + 1.01 * out["scale"]
        if s["act"] in ("tanh", "sigmoid"):
            o = ops[k]
            k += 1
            e = FLOAT_FN[s["act"].upper()][1] * e + 1.01 * o["outputs"][0]["scale"] + 1e-6
    return e, fl[-1][2] if c["layers"][-1]["act"] != "softmax" else fl[-1][1]


def in_domain(doc, lo=-19.5, hi=29):
    """the engine takes rescaling factors below 1e-6 for zero and rejects the ones of 2^30; degenerate networks (a nearly constant output) leave it"""
    for o in doc["graph"]:
        if o["op_type"] == "FULLY_CONNECTED":
            f = o["inputs"][0]["scale"] * o["inputs"][1]["scale"] / o["outputs"][0]["scale"]
            if not 2.0**lo <= f < 2.0**hi:
                return False
    return True
