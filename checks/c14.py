"""C14 TFLite-style element-wise operators: quantize, dequantize, tanh, logistic, softmax."""
import math

import numpy as np
from hypothesis import strategies as st

from pbt import Sub, close, need
from pbt import pairs
from pbt.gen import LAYOUTS, big_shape, layout, INT_DTYPES, bulk_floats, bulk_ints, limits, scales, weird_dtypes, zero_points
from pbt.model import node, op, quantize_iv, sigmoid, tensor, within
from pbt.reuse import reuse

from itcl_inference_engine.layers.tflite.build_layer import build_layer
from itcl_inference_engine.layers.tflite.dequantize import Dequantize
from itcl_inference_engine.layers.tflite.logistic import Sigmoid
from itcl_inference_engine.layers.tflite.quantize import Quantize
from itcl_inference_engine.layers.tflite.tanh import Tanh

RULE = (
    "A case is an operator (operator name in random letter case) with random type, scale and zero point and an input of 1 "
    "to 4 dimensions: floats inside, outside and on half steps of the range for quantize; codes over the whole type "
    "otherwise. Non-trivial: at least two distinct outputs. Large: up to 70000 elements in any memory layout."
) + pairs.RULE
ASSUMPTIONS = ["the logistic operator evaluates the sigmoid of the activation library, stood in for by an exact float64 sigmoid"]

SHAPES = st.one_of(st.lists(st.integers(1, 4), min_size=1, max_size=4), st.just([3, 40]), st.just([256]))


@st.composite
def cases(draw):
    kind = draw(st.sampled_from(["QUANTIZE", "QUANTIZE", "DEQUANTIZE", "DEQUANTIZE", "TANH", "LOGISTIC", "SOFTMAX"]))
    shape = tuple(draw(SHAPES))
    dt = draw(weird_dtypes()) if "QUANTIZE" in kind else "int8"
    lo, hi = limits(dt)
    s = draw(scales(-5, 1))
    c = {"kind": kind, "dtype": dt, "s": s, "zp": draw(zero_points(dt)), "caps": draw(st.integers(0, 2)), "ctor": draw(st.booleans()),
         "other": [draw(scales(-3, 0)), draw(zero_points("int8"))], "cont": draw(st.sampled_from(["int64", "int32", "native", "int16"])), "single": kind == "QUANTIZE" and draw(st.booleans())}
    if kind == "QUANTIZE":
        x = np.array(draw(bulk_floats(shape, 1.0)))
        if draw(st.booleans()):  # spread over the range and 20% outside
            x = ((x * 1.2 + 1) / 2 * (hi - lo) + lo - c["zp"]) * s
        else:
            x = x * 10
        if draw(st.booleans()):
            x = np.round(x / s * 2) / 2 * s
        c["x"] = x.tolist()
    elif kind in ("TANH", "LOGISTIC"):
        c["s"] = draw(st.one_of(scales(-4, 0), st.sampled_from([0.02, 0.05, 0.1, 0.5, 1.0])))
        c["x"] = draw(bulk_ints(shape, lo, hi))
    else:
        c["x"] = draw(bulk_ints(shape, lo, hi))
    return c


@st.composite
def big_cases(draw):
    c = draw(cases())
    del c["x"]
    c.update(shape=draw(big_shape(70000, 3)), seed=draw(st.integers(0, 2**31 - 1)), layout=draw(st.sampled_from(LAYOUTS)), ties=draw(st.booleans()))
    return c


def expand(c):
    rng = np.random.RandomState(c["seed"])
    lo, hi = limits(c["dtype"])
    if c["kind"] != "QUANTIZE":
        return dict(c, x=rng.randint(lo, hi + 1, size=c["shape"], dtype=np.int64))
    x = (rng.uniform(-0.1, 1.1, size=c["shape"]) * (hi - lo) + lo - c["zp"]) * c["s"]
    return dict(c, x=np.round(x / c["s"] * 2) / 2 * c["s"] if c["ties"] else x)


def check(c, ctx):
    if "x" not in c:
        c = expand(c)
    kind, s, zp, dt = c["kind"], c["s"], c["zp"], c["dtype"]
    name = [kind, kind.lower(), kind.capitalize()][c["caps"]]
    this, other = node(s, zp, {"tensor": None, "shape": [], "dtype": dt, "name": None}), node(c["other"][0], c["other"][1], {"tensor": None, "shape": [], "dtype": "int8", "name": None})
    ins, outs = ([other], [this]) if kind == "QUANTIZE" else ([this], [other])
    layer = build_layer(op(name, ins, outs))
    if c["ctor"]:
        ctor = {"QUANTIZE": lambda: Quantize(s, zp, dt), "DEQUANTIZE": lambda: Dequantize(s, zp, dt), "TANH": lambda: Tanh(s, zp),
                "LOGISTIC": lambda: Sigmoid(s, zp)}.get(kind)
        layer = ctor() if ctor else layer
    if kind == "QUANTIZE":
        x = np.array(c["x"], dtype=np.float32 if c.get("single") else np.float64)
    else:
        x = np.array(c["x"], dtype=np.int64)
        if c["cont"] == "int32" and abs(x).max() < 2**31 - 1:
            x = x.astype(np.int32)
        if c["cont"] == "int16" and abs(x).max() < 2**15 - 1:
            x = x.astype(np.int16)
        if c["cont"] == "native" and dt.lower() in INT_DTYPES:
            x = x.astype(dt.lower())
    keep = x.copy()
    x = layout(x, c.get("layout", "C"))
    got = np.asarray(layer.infer(x))
    need(got.shape == x.shape, "shape is kept", got=got.shape, want=x.shape)
    need(np.array_equal(keep, x), "input mutated")
    need(np.array_equal(got, np.asarray(layer.infer(x))), "second call differs")
    want = iv = None
    if kind == "QUANTIZE":
        real = np.asarray(x, dtype=np.float64)
        iv = quantize_iv(real, s, zp, dt)
        if math.frexp(s)[0] == 0.5 and np.abs(real / s).max() < 2**40:
            lo, hi = limits(dt)
            v = np.clip(np.floor(real / s + zp + 0.5), lo, hi).astype(np.int64)
            iv = (v, v)
        within(got, iv, need, "code of the output type")
    elif kind == "DEQUANTIZE":
        want = (x.astype(np.float64) - zp) * s
        close(got, want, rtol=1e-12, atol=0, msg="dequantized value")
    elif kind == "TANH":
        iv = quantize_iv(np.tanh((x.astype(float) - zp) * s), 1 / 128, 0, "int8", xeps=1e-14)
        within(got, iv, need, "tanh code (1/128, 0)")
    elif kind == "LOGISTIC":
        iv = quantize_iv(sigmoid((x.astype(float) - zp) * s), 1 / 256, -128, "int8", xeps=1e-14)
        within(got, iv, need, "sigmoid code (1/256, -128)")
    else:
        iv = x, x
        need(np.array_equal(got, x), "softmax leaves the codes as they are")
    if kind in ("QUANTIZE", "TANH", "LOGISTIC"):
        need(np.issubdtype(got.dtype, np.integer), "integer codes", got=got.dtype)
    reuse(layer.infer, x, iv if iv is not None else want)
    ctx.nontrivial(len(set(got.ravel().tolist())) >= 2)
    ctx.label(kind)


def subs():
    return [pairs.two(cases(), check, quick=900, twist={"x": "reverse", "s": scales(-4, 1), "zp": lambda c: zero_points(c["dtype"]), "other": st.tuples(scales(-3, 0), zero_points("int8")).map(list)}),
            Sub("large", big_cases(), check, quick=600, thorough=8000), Sub("pointwise", cases(), check, quick=6000, thorough=90000)]
