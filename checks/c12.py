"""C12 ONNX quantized addition and matrix multiplication."""
import numpy as np
from hypothesis import strategies as st

from pbt import Sub, need
from pbt import pairs
from pbt.gen import LAYOUTS, big_shape, layout, bulk_ints, limits, scales, sizes, zero_points
from pbt.model import feps, node, op, round_even_iv, tensor, within
from pbt.reuse import reuse

from itcl_inference_engine.layers.onnx.build_operator import build_operator
from itcl_inference_engine.layers.onnx.q_linear_add import QLinearAdd
from itcl_inference_engine.layers.onnx.q_linear_mmul import QLinearMatMul

RULE = (
    "A case is an operator (addition of a stored tensor with broadcasting, or multiplication by a stored transposed "
    "matrix) with sizes up to 70x40 (large cases: up to 4097, long rows: up to 70000), uint8/int8/int32 stored codes, arbitrary scales and zero points, uint8 inputs of 1 "
    "to 3 dimensions. Every output is compared with the exact formula rounded half to even and saturated to uint8. "
    "Non-trivial: an output is neither 0, 255 nor the output zero point."
) + pairs.RULE


def scale_for(draw, amax):
    k = draw(st.integers(0, 3))
    if k == 0:
        return draw(scales(-4, 1))
    s = max(amax, 1e-9) / 255 * draw(st.sampled_from([0.3, 1.0, 2.0, 7.0]))
    return 2.0 ** round(np.log2(s)) if k == 1 else s


@st.composite
def adds(draw, big=False):
    n = draw(sizes(4, 70))
    if big:
        n = draw(st.sampled_from([100, 127, 128, 129, 255, 256, 257, 1000, 1024, 1025, 4097]))
    lead = draw(st.sampled_from([[], [1], [2], [3, 2], [5]] if not big else [[], [1], [7], [64], [65], [3, 5], [129]]))
    b_dt = draw(st.sampled_from(["uint8", "int8", "int32", "int16"]))
    blo, bhi = limits(b_dt)
    if b_dt == "int32":
        m = draw(st.sampled_from([10, 1000, 2**20, 2**30]))
        blo, bhi = -m, m
    p2 = draw(st.booleans())
    i_s, b_s = draw(scales(-4, 0)), draw(scales(-4, 0))
    if p2:
        i_s, b_s = 2.0 ** round(np.log2(i_s)), 2.0 ** round(np.log2(b_s))
    i_zp, b_zp = draw(zero_points("uint8")), draw(st.one_of(st.just(0), st.integers(max(blo, -200), min(bhi, 255))))
    x = draw(bulk_ints(tuple(lead + [n]), 0, 255))
    shape = lead + [n]
    # a stored tensor of the trailing dimensions, possibly with dimensions of 1
    b_shape = [d if draw(st.integers(0, 3)) else 1 for d in shape[draw(st.integers(0, len(lead))):]] if draw(st.booleans()) else [n]
    b = draw(bulk_ints(tuple(b_shape), blo, bhi))
    real = i_s * (np.array(x, float) - i_zp) + b_s * (np.array(b, float) - b_zp)
    return {"x": x, "b": b, "b_dt": b_dt, "i_s": i_s, "b_s": b_s, "i_zp": i_zp, "b_zp": b_zp,
            "o_s": scale_for(draw, float(np.abs(real).max())), "o_zp": draw(zero_points("uint8")), "ctor": draw(st.booleans()),
            "cont": draw(st.sampled_from(["uint8", "uint8", "int64", "int32", "int16"])), "layout": draw(st.sampled_from(LAYOUTS))}


def finish(layer, x, iv, o_zp, ctx, msg, rows=True):
    keep = x.copy()
    got = np.asarray(layer.infer(x))
    within(got, iv, need, msg)
    need(got.dtype == np.uint8, "uint8 codes", got=got.dtype)
    need(np.array_equal(keep, x), "input mutated")
    need(np.array_equal(got, layer.infer(x)), "second call differs")
    if rows and x.ndim > 1:  # the stored tensor is the same for every row
        reuse(layer.infer, x, iv)
    g = got.ravel()
    ctx.nontrivial(bool(np.any((g > 0) & (g < 255) & (g != o_zp))))
    ctx.label("decided", bool(np.all(iv[0] == iv[1])))


def check_add(c, ctx):
    x, b = layout(np.array(c["x"]).astype(c["cont"]), c["layout"]), np.array(c["b"])
    o = op("QLinearAdd", [node(c["i_s"], c["i_zp"]), node(c["b_s"], c["b_zp"], tensor(c["b"], c["b_dt"])), node(c["o_s"], c["o_zp"])], [])
    layer = build_operator(o)
    if c["ctor"]:
        layer = QLinearAdd(c["i_s"], c["i_zp"], b.astype(c["b_dt"]), c["b_s"], c["b_zp"], c["o_s"], c["o_zp"])
    t1 = c["i_s"] * (x.astype(np.int64) - c["i_zp"])
    t2 = c["b_s"] * (b.astype(np.int64) - c["b_zp"])
    t = (t1 + t2) / c["o_s"]
    eps = feps(t1 / c["o_s"], t2 / c["o_s"]) + 0 * t
    if all(np.frexp(s)[0] == 0.5 for s in (c["i_s"], c["b_s"], c["o_s"])):
        eps = 0 * t  # exact: the tie rule is observable
    lo, hi = round_even_iv(t, eps, "int64")
    z = c["o_zp"]
    finish(layer, x, (np.clip(lo + z, 0, 255), np.clip(hi + z, 0, 255)), z, ctx, "sum code", b.ndim < x.ndim or b.shape[0] == 1)


@st.composite
def mmuls(draw, big=False):
    k, n = draw(sizes(4, 70)), draw(sizes(4, 40))
    lead = draw(st.sampled_from([[], [1], [2], [4], [2, 3]]))
    if big:
        wide = st.sampled_from([100, 128, 129, 256, 257, 1000, 1025, 2049])
        k, n, r = (draw(v) for v in draw(st.sampled_from([(wide, st.integers(1, 4), st.integers(1, 3)), (st.integers(1, 4), wide, st.integers(1, 3)),
                                                          (st.integers(1, 4), st.integers(1, 3), wide), (st.sampled_from([31, 64, 65, 70]),) * 3])))
        lead = draw(st.sampled_from([[r], [r], [2, r]]))
    w_dt = draw(st.sampled_from(["uint8", "uint8", "int8"]))
    wlo, whi = limits(w_dt)
    i_s, w_s = draw(scales(-4, 0)), draw(scales(-4, 0))
    if draw(st.booleans()):
        i_s, w_s = 2.0 ** round(np.log2(i_s)), 2.0 ** round(np.log2(w_s))
    i_zp, w_zp = draw(zero_points("uint8")), draw(zero_points(w_dt))
    x = draw(bulk_ints(tuple(lead + [k]), 0, 255))
    w = draw(bulk_ints((n, k), wlo, whi))
    real = i_s * w_s * ((np.array(x, float) - i_zp) @ (np.array(w, float) - w_zp).T)
    return {"x": x, "w": w, "w_dt": w_dt, "i_s": i_s, "w_s": w_s, "i_zp": i_zp, "w_zp": w_zp,
            "o_s": scale_for(draw, float(np.abs(real).max())), "o_zp": draw(zero_points("uint8")), "ctor": draw(st.booleans()),
            "cont": draw(st.sampled_from(["uint8", "uint8", "int64", "int32", "int16"])), "layout": draw(st.sampled_from(LAYOUTS))}


def check_mmul(c, ctx):
    x, w = layout(np.array(c["x"]).astype(c["cont"]), c["layout"]), np.array(c["w"])
    o = op("QLinearMatMul", [node(c["i_s"], c["i_zp"]), node(c["w_s"], c["w_zp"], tensor(c["w"], c["w_dt"])), node(c["o_s"], c["o_zp"])], [])
    layer = build_operator(o)
    if c["ctor"]:
        layer = QLinearMatMul(c["i_s"], c["i_zp"], w.astype(c["w_dt"]), c["w_s"], c["w_zp"], c["o_s"], c["o_zp"])
    acc = np.matmul(x.astype(np.int64) - c["i_zp"], (w.astype(np.int64) - c["w_zp"]).T)
    t = acc * (c["i_s"] * c["w_s"] / c["o_s"])
    eps = feps(t)
    if all(np.frexp(s)[0] == 0.5 for s in (c["i_s"], c["w_s"], c["o_s"])):
        eps = 0 * t
    lo, hi = round_even_iv(t, eps, "int64")
    z = c["o_zp"]
    finish(layer, x, (np.clip(lo + z, 0, 255), np.clip(hi + z, 0, 255)), z, ctx, "product code")


@st.composite
def long_rows(draw):
    i_zp, w_zp, x, w = (draw(st.sampled_from([0, 128, 255])) for _ in range(4))
    return {"k": draw(st.sampled_from([32000, 33030, 40000, 70000])), "i_zp": i_zp, "w_zp": w_zp, "xv": x, "wv": w, "odd": draw(st.integers(0, 255)), "o_zp": draw(zero_points("uint8")), "span": draw(st.sampled_from([20.0, 100.0, 200.0])),
            "cont": draw(st.sampled_from(["uint8", "int64"]))}


def check_long(c, ctx):
    """sums of products beyond 32 bits"""
    x, w = np.full((2, c["k"]), c["xv"]), np.full((1, c["k"]), c["wv"])
    x[1, : c["k"] // 3] = c["odd"]
    amax = np.abs((x - c["i_zp"]) @ (w - c["w_zp"]).T).max()
    check_mmul({"x": x.tolist(), "w": w.tolist(), "w_dt": "uint8", "i_s": 0.01, "w_s": 0.02, "i_zp": c["i_zp"], "w_zp": c["w_zp"], "o_s": 0.0002 * max(1.0, float(amax)) / c["span"],
                "o_zp": c["o_zp"], "ctor": False, "cont": c["cont"], "layout": "C"}, ctx)


def subs():
    return [pairs.two(adds(), check_add, quick=400, twist={"x": "reverse", "b": "reverse", "i_zp": zero_points("uint8"), "o_zp": zero_points("uint8"), "i_s": scales(-4, 0), "b_s": scales(-4, 0)}, name="two additions at once"),
            pairs.two(mmuls(), check_mmul, quick=400, twist={"x": "reverse", "w": "reverse", "i_zp": zero_points("uint8"), "w_zp": lambda c: zero_points(c["w_dt"]), "o_zp": zero_points("uint8"), "i_s": scales(-4, 0), "w_s": scales(-4, 0)}, name="two products at once"),
            Sub("large add", adds(big=True), check_add, quick=300, thorough=5000),
        Sub("large matmul", mmuls(big=True), check_mmul, quick=300, thorough=5000),
        Sub("long rows", long_rows(), check_long, quick=60, thorough=1500),
        Sub("add", adds(), check_add, quick=3000, thorough=60000),
        Sub("matmul", mmuls(), check_mmul, quick=3000, thorough=60000),
    ]
