"""C13 ONNX element-wise operators: quantize, dequantize, sigmoid, tanh, softmax."""
import math
from fractions import Fraction

import numpy as np
from hypothesis import strategies as st

from pbt import Sub, close, need
from pbt import pairs
from pbt.gen import LAYOUTS, big_shape, layout, bulk_floats, bulk_ints, limits, scales, zero_points
from pbt.model import feps, node, op, quantize_iv, sigmoid, within
from pbt.reuse import reuse

from itcl_inference_engine.layers.onnx.build_operator import build_operator
from itcl_inference_engine.layers.onnx.dequantize_linear import DequantizeLinear
from itcl_inference_engine.layers.onnx.q_linear_sigmoid import QLinearSigmoid
from itcl_inference_engine.layers.onnx.quantize_linear import QuantizeLinear
from itcl_inference_engine.layers.onnx.softmax import Softmax
from itcl_inference_engine.layers.onnx.tanh import Tanh

RULE = (
    "A case is an operator with random scales and uint8 zero points and an input of 1 to 4 dimensions (codes for the "
    "quantized operators; floats up to +-1e4, equal rows, huge and dominated logits for softmax). Non-trivial: at least "
    "two distinct output values. Large: up to 70000 elements in any memory layout."
) + pairs.RULE

SHAPES = st.one_of(st.lists(st.integers(1, 4), min_size=1, max_size=4), st.just([3, 40]), st.just([256]))


@st.composite
def pointwise(draw):
    kind = draw(st.sampled_from(["QuantizeLinear", "DequantizeLinear", "QLinearSigmoid", "Tanh"]))
    shape = tuple(draw(SHAPES))
    c = {"kind": kind, "s": draw(scales(-4, 1)), "zp": draw(zero_points("uint8")), "o_s": draw(st.one_of(st.just(1 / 256), scales(-3, 0))),
         "o_zp": draw(zero_points("uint8")), "ctor": draw(st.booleans()), "dt": draw(st.sampled_from(["uint8", "int64", "float64", "int16", "int32"])),
         "single": kind == "QuantizeLinear" and draw(st.booleans())}
    if kind == "QLinearSigmoid" and draw(st.booleans()):  # the tails, resolved by a fine output scale
        r = draw(st.floats(1, 30))
        c["o_s"] = float(np.exp(-r)) / draw(st.integers(1, 255))
        c["o_zp"], c["s"] = 0, r / draw(st.integers(20, 250))
        c["zp"] = draw(st.integers(100, 255))
    if kind in ("QuantizeLinear", "Tanh"):
        mag = c["s"] * 300 if kind == "QuantizeLinear" else draw(st.sampled_from([0.1, 1, 3, 50, 1e4]))
        c["x"] = draw(bulk_floats(shape, mag))
        if draw(st.booleans()) and kind == "QuantizeLinear":  # half steps
            c["x"] = (np.round(np.array(c["x"]) / c["s"] * 2) / 2 * c["s"]).tolist()
    else:
        c["x"] = draw(bulk_ints(shape, 0, 255))
    return c


@st.composite
def big_pointwise(draw):
    c = draw(pointwise())
    del c["x"]
    c.update(shape=draw(big_shape(70000, 4)), seed=draw(st.integers(0, 2**31 - 1)), layout=draw(st.sampled_from(LAYOUTS)), ties=draw(st.booleans()))
    return c


def expand(c):
    rng = np.random.RandomState(c["seed"])
    if c["kind"] not in ("QuantizeLinear", "Tanh"):
        return dict(c, x=rng.randint(0, 256, size=c["shape"]))
    x = (rng.uniform(-0.1, 1.1, size=c["shape"]) * 255 - c["zp"]) * c["s"]
    return dict(c, x=np.round(x / c["s"] * 2) / 2 * c["s"] if c["ties"] else x)


def check_pointwise(c, ctx):
    if "x" not in c:
        c = expand(c)
    kind = c["kind"]
    fl = kind in ("QuantizeLinear", "Tanh")
    x = np.array(c["x"], dtype="float64" if fl else c["dt"])
    if kind == "QLinearSigmoid":
        o = op(kind, [node(c["s"], c["zp"]), node(c["o_s"], c["o_zp"])], [])
        direct = QLinearSigmoid(c["s"], c["zp"], c["o_s"], c["o_zp"])
    elif kind == "Tanh":
        o, direct = op(kind, [], []), Tanh()
    else:
        o = op(kind, [node(c["s"], c["zp"])], [node(c["s"], c["zp"])])
        direct = (QuantizeLinear if kind == "QuantizeLinear" else DequantizeLinear)(c["s"], c["zp"])
    layer = direct if c["ctor"] else build_operator(o)
    if c.get("single"):  # a real in single precision is that real
        x = x.astype(np.float32)
    keep = x.copy()
    x = layout(x, c.get("layout", "C"))
    got = np.asarray(layer.infer(x))
    need(got.shape == x.shape, "shape is kept", got=got.shape, want=x.shape)
    need(np.array_equal(keep, x), "input mutated")
    need(np.array_equal(got, np.asarray(layer.infer(x))), "second call differs")
    iv = want = None
    if kind == "QuantizeLinear":
        t = np.asarray(x, dtype=np.float64) / c["s"]
        exact = math.frexp(c["s"])[0] == 0.5
        iv = quantize_iv(np.asarray(x, dtype=np.float64), c["s"], c["zp"], "uint8") if not exact else exact_iv(t, c["zp"])
        within(got, iv, need, "uint8 code")
    elif kind == "DequantizeLinear":
        want = (x.astype(np.float64) - c["zp"]) * c["s"]
        close(got, want, rtol=1e-12, atol=0, msg="dequantized value")
    elif kind == "QLinearSigmoid":
        y = sigmoid((x.astype(np.float64) - c["zp"]) * c["s"])
        iv = quantize_iv(y, c["o_s"], c["o_zp"], "uint8", xeps=1e-14)
        within(got, iv, need, "sigmoid code")
    else:
        want = np.tanh(x)
        close(got, want, rtol=1e-12, atol=1e-15, msg="tanh")
    if kind in ("QuantizeLinear", "QLinearSigmoid"):
        need(np.issubdtype(got.dtype, np.integer) and got.min() >= 0 and got.max() <= 255, "uint8 range")
    reuse(layer.infer, x, (iv if iv is not None else want))
    ctx.nontrivial(len(set(got.ravel().tolist())) >= 2)


def exact_iv(t, zp):
    v = np.clip(np.floor(t + zp + 0.5), 0, 255).astype(np.int64)
    return v, v


@st.composite
def logits(draw):
    shape = draw(SHAPES)
    mag = draw(st.sampled_from([1.0, 10.0, 100.0, 800.0, 1e4]))
    x = np.array(draw(bulk_floats(tuple(shape), mag)))
    off = draw(st.sampled_from([0.0, 0.0, 1000.0, -1000.0, 50.0]))
    k = draw(st.integers(0, 3))
    if k == 0:
        x = x * 0  # uniform rows
    return {"x": (x + off).tolist(), "ctor": draw(st.booleans())}


@st.composite
def big_logits(draw):
    return {"shape": draw(big_shape(20000, 4)), "seed": draw(st.integers(0, 2**31 - 1)), "mag": draw(st.sampled_from([0.1, 1.0, 10.0, 300.0, 5000.0, 1e6])),
            "spike": draw(st.booleans()), "layout": draw(st.sampled_from(LAYOUTS)), "ctor": draw(st.booleans())}


def check_big_softmax(c, ctx):
    rng = np.random.RandomState(c["seed"])
    x = rng.normal(0, c["mag"], size=c["shape"])
    if c["spike"]:  # one row far from the others
        x[(rng.randint(x.shape[0]),) if x.ndim > 1 else ()] += rng.choice([-1, 1]) * 1000 * c["mag"]
    layer = Softmax() if c["ctor"] else build_operator(op("Softmax", [], []))
    arg = layout(x, c["layout"])
    got = np.asarray(layer.infer(arg))
    need(got.shape == x.shape, "shape is kept", got=got.shape)
    need(np.array_equal(arg, x), "input mutated")
    e = np.exp((x - x.max(axis=-1, keepdims=True)).astype(np.longdouble))
    close(got, (e / e.sum(axis=-1, keepdims=True)).astype(np.float64), rtol=1e-9, atol=1e-12, msg="softmax of the row")
    need(np.abs(got.sum(axis=-1) - 1).max() <= 1e-9 and got.min() >= 0, "a row is a distribution")
    if x.ndim > 1:
        reuse(layer.infer, arg, got.copy())
    ctx.nontrivial(x.shape[-1] > 1)
    ctx.label("large", x.size >= 1000)


def check_softmax(c, ctx):
    x = np.array(c["x"], dtype=np.float64)
    layer = Softmax() if c["ctor"] else build_operator(op("Softmax", [], []))
    keep = x.copy()
    got = np.asarray(layer.infer(x))
    need(got.shape == x.shape, "shape is kept", got=got.shape)
    need(np.array_equal(keep, x), "input mutated")
    rows = x.reshape(-1, x.shape[-1])
    out = got.reshape(-1, x.shape[-1])
    for r, o in zip(rows.tolist(), out.tolist()):
        m = max(r)
        e = [math.exp(v - m) for v in r]
        z = math.fsum(e)
        close(np.array(o), np.array([v / z for v in e]), rtol=1e-9, atol=1e-12, msg="softmax of the row", row=r)
        need(abs(math.fsum(o) - 1) <= 1e-9 and all(0 <= v <= 1 for v in o), "a row is a distribution", row=r, got=o)
    ctx.nontrivial(len(set(got.ravel().tolist())) >= 2)
    if x.ndim > 1:
        reuse(layer.infer, x, got.copy())
    ctx.label("many_rows", len(rows) > 1)


def subs():
    return [pairs.two(pointwise(), check_pointwise, quick=600, twist={"x": "reverse", "s": scales(-4, 1), "zp": zero_points("uint8"), "o_s": scales(-3, 0), "o_zp": zero_points("uint8")}),
            pairs.two(logits(), check_softmax, quick=200, twist={"x": "reverse"}, name="two softmax at once"),
            Sub("large", big_pointwise(), check_pointwise, quick=500, thorough=7000),
        Sub("large softmax", big_logits(), check_big_softmax, quick=400, thorough=5000),
        Sub("pointwise", pointwise(), check_pointwise, quick=4000, thorough=60000),
        Sub("softmax", logits(), check_softmax, quick=2000, thorough=30000, corners=[
            {"x": [1000.0, 0.0], "ctor": True}, {"x": [[1.0, 2.0], [3.0, 4.0]], "ctor": True}, {"x": [-1000.0, -1000.0], "ctor": False}]),
    ]
