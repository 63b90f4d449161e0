"""C15 quantized ReLU."""
import math
from fractions import Fraction

import numpy as np
from hypothesis import strategies as st

from pbt import Sub, need
from pbt import pairs
from pbt.gen import LAYOUTS, big_shape, bulk_ints, layout, scales, zero_points
from pbt.model import feps, node, op, round_iv, within
from pbt.reuse import reuse

from itcl_inference_engine.layers.common.relu import RELU
from itcl_inference_engine.layers.tflite.build_layer import build_layer

RULE = (
    "A case is int8 codes of 1 to 3 dimensions, input and output scale and zero point (equal or very different scales). "
    "Every output is compared with max(0, real input) requantized with rounding and saturation. Non-trivial: an input is "
    "above the zero point and an input is below it. Large: up to 70000 codes in any memory layout."
) + pairs.RULE


@st.composite
def cases(draw):
    shape = tuple(draw(st.one_of(st.lists(st.integers(1, 5), min_size=1, max_size=3), st.just([256]))))
    i_s = draw(scales(-4, 1))
    k = draw(st.integers(0, 3))
    o_s = i_s if k == 0 else i_s * 2.0 ** draw(st.integers(-4, 4)) if k == 1 else i_s * draw(st.floats(0.05, 20)) if k == 2 else draw(scales(-4, 1))
    return {"x": draw(bulk_ints(shape, -128, 127)), "i_s": i_s, "i_zp": draw(zero_points("int8")), "o_s": o_s,
            "o_zp": draw(zero_points("int8")), "cont": draw(st.sampled_from(["int8", "int8", "int64", "int32", "int16"])),
            "name": draw(st.sampled_from(["RELU", "relu", "Relu", "ctor"]))}


@st.composite
def big_cases(draw):
    c = draw(cases())
    del c["x"]
    c.update(shape=draw(big_shape(70000, 4)), seed=draw(st.integers(0, 2**31 - 1)), layout=draw(st.sampled_from(LAYOUTS)))
    return c


def check(c, ctx):
    if "x" in c:
        x = np.array(c["x"]).astype(c["cont"])
    else:
        x = layout(np.random.RandomState(c["seed"]).randint(-128, 128, size=c["shape"]).astype(c["cont"]), c["layout"])
    if c["name"] == "ctor":
        layer = RELU(c["i_s"], c["i_zp"], c["o_s"], c["o_zp"])
    else:
        layer = build_layer(op(c["name"], [node(c["i_s"], c["i_zp"])], [node(c["o_s"], c["o_zp"])]))
    keep = x.copy()
    got = np.asarray(layer.infer(x))
    real = np.maximum(x.astype(np.int64) - c["i_zp"], 0) * c["i_s"]
    t = real / c["o_s"]
    eps = feps(t, c["o_zp"], 1)
    if math.frexp(c["i_s"] / c["o_s"])[0] == 0.5 and Fraction(c["i_s"]) / Fraction(c["o_s"]) == Fraction(c["i_s"] / c["o_s"]):
        t, eps = np.maximum(x.astype(np.int64) - c["i_zp"], 0) * (c["i_s"] / c["o_s"]), 0.0
    iv = round_iv(t + c["o_zp"], eps, "int8")
    within(got, iv, need, "code of max(0, real input)", k=c["i_s"] / c["o_s"])
    need(got.shape == x.shape and np.issubdtype(got.dtype, np.integer), "shape and integer codes", got=got.dtype)
    need(np.array_equal(keep, x), "input mutated")
    need(np.array_equal(got, np.asarray(layer.infer(x))), "second call differs")
    reuse(layer.infer, x, iv)
    d = x.astype(np.int64) - c["i_zp"]
    ctx.nontrivial(bool((d > 0).any() and (d < 0).any()))


def subs():
    return [pairs.two(cases(), check, quick=600, twist={"x": "reverse", "i_zp": zero_points("int8"), "o_zp": zero_points("int8"), "i_s": scales(-4, 1), "o_s": scales(-4, 1)}),
            Sub("large", big_cases(), check, quick=500, thorough=6000), Sub("relu", cases(), check, quick=5000, thorough=80000, corners=[
        {"x": [-128, 0, 60, 127], "i_s": 0.1, "i_zp": -128, "o_s": 0.05, "o_zp": -128, "cont": "int8", "name": "RELU"},
        {"x": [5, 6, 127], "i_s": 0.5, "i_zp": 5, "o_s": 1.0, "o_zp": 0, "cont": "int8", "name": "RELU"}])]
