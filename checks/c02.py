"""C02 quantize / dequantize round trips and error bound."""
from fractions import Fraction

import numpy as np
from hypothesis import strategies as st

from pbt import Sub, history, need
from pbt.gen import INT_DTYPES, LAYOUTS, big_shape, layout, limits, q_value, scales, weird_dtypes, zero_points

from itcl_quantization import Quantization
from itcl_inference_engine.util.quantization import from_int8, to_int8

RULE = (
    "A case is (dtype, scale, zero point in range, codes over the whole range, reals inside and outside the "
    "representable interval, container/dtype of the codes). Non-trivial: at least one code differs from the zero point. "
    "Large cases: every code of types up to 16 bits, or arrays of up to 100000 codes, in any memory layout and container."
) + history.RULE


@st.composite
def cases(draw):
    dtype = draw(weird_dtypes())
    codes = draw(st.lists(q_value(dtype), min_size=1, max_size=8))
    fr = draw(st.lists(st.floats(-0.1, 1.1, allow_nan=False), min_size=1, max_size=6))
    return {
        "dtype": dtype,
        "s": draw(scales()),
        "zp": draw(zero_points(dtype)),
        "codes": codes,
        "fr": fr,
        "form": draw(st.sampled_from(["list", "native", "int64", "float64", "col"])),
    }


def container(codes, form, dtype):
    if form == "list":
        return list(codes)
    if form == "native" and dtype.lower() in INT_DTYPES:
        return np.array(codes, dtype=dtype.lower())
    if form == "float64":
        return np.array(codes, dtype=np.float64)
    a = np.array(codes, dtype=np.int64)
    return a.reshape(-1, 1) if form == "col" else a


def roundtrip(case, ctx):
    dtype, s, zp, codes = case["dtype"], case["s"], case["zp"], case["codes"]
    lo, hi = limits(dtype)
    Q = Quantization(dtype)
    data = container(codes, case["form"], dtype)
    before = np.array(data, copy=True)
    x = np.asarray(Q.dequantize(data, zp, s))
    need(x.shape == before.shape, "dequantize keeps the shape", got=x.shape)
    need(np.array_equal(before, np.array(data)), "dequantize mutated its input")
    for q, v in zip(codes, x.ravel().tolist()):
        want = (q - zp) * Fraction(s)
        need(abs(Fraction(v) - want) <= abs(want) * Fraction(1, 2**50), "dequantize is (q - zp) * scale", q=q, got=v, want=float(want))
        ctx.nontrivial(q != zp)
    back = np.asarray(Q.quantize(x, zp, s))
    need(back.ravel().tolist() == codes, "quantize(dequantize(q)) == q", got=back.ravel(), want=codes)
    if dtype.lower() == "int8":
        need(np.array_equal(np.asarray(from_int8(data, zp, s)), x), "engine from_int8 agrees")
        need(np.array_equal(np.asarray(to_int8(x, zp, s)).ravel(), np.array(codes)), "engine to_int8 agrees")
    # error bound: half a step inside the interval, distance to the edge outside
    xmin, xmax = (lo - zp) * s, (hi - zp) * s
    reals = np.array([xmin + f * (xmax - xmin) for f in case["fr"]])
    q = Q.quantize(reals, zp, s)
    d = np.asarray(Q.dequantize(q, zp, s))
    for r, v in zip(reals.tolist(), d.tolist()):
        edge = xmin if r < xmin else xmax if r > xmax else None
        tol = s * 1e-6 + abs(r) * 1e-12
        if edge is None:
            need(abs(v - r) <= s / 2 + tol, "error at most half a step", x=r, got=v, s=s)
        else:
            need(abs(v - edge) <= tol, "outside values saturate to the nearest edge", x=r, got=v, edge=edge)
    need(np.array_equal(np.asarray(Q.quantize(d, zp, s)), np.asarray(q)), "requantizing is idempotent")


@st.composite
def big_cases(draw):
    dtype = draw(weird_dtypes())
    lo, hi = limits(dtype)
    every = hi - lo < 65536 and draw(st.booleans())
    return {"dtype": dtype, "s": draw(scales()), "zp": draw(zero_points(dtype)), "shape": [hi - lo + 1] if every else draw(big_shape(100000)),
            "every": every, "seed": draw(st.integers(0, 2**31 - 1)), "layout": draw(st.sampled_from(LAYOUTS)),
            "cont": draw(st.sampled_from(["small", "small", "int64", "float64"]))}


def smallest(lo, hi):
    return next(t for t in ("int8", "uint8", "int16", "uint16", "int32", "uint32", "int64") if np.iinfo(t).min <= lo and hi <= np.iinfo(t).max)


def roundtrip_big(c, ctx):
    dtype, s, zp = c["dtype"], c["s"], c["zp"]
    lo, hi = limits(dtype)
    rng = np.random.RandomState(c["seed"])
    codes = np.arange(lo, hi + 1) if c["every"] else rng.randint(lo, hi + 1, size=c["shape"], dtype=np.int64)
    q = codes.astype(smallest(lo, hi) if c["cont"] == "small" else c["cont"])
    q = layout(q, c["layout"])
    Q = Quantization(dtype)
    x = np.asarray(Q.dequantize(q, zp, s))
    want = (codes - float(zp)) * s
    need(x.shape == codes.shape, "dequantize keeps the shape", got=x.shape)
    need(bool(np.all(np.abs(x - want) <= np.abs(want) * 2.0**-50)), "dequantize is (q - zp) * scale", worst=np.abs(x - want).max())
    need(np.array_equal(q, codes), "dequantize mutated its input")
    back = np.asarray(Q.quantize(layout(x, c["layout"]), zp, s))
    need(np.array_equal(back, codes), "quantize(dequantize(q)) == q")
    if dtype.lower() == "int8":
        need(np.array_equal(np.asarray(from_int8(q, zp, s)), x), "engine from_int8 agrees")
        need(np.array_equal(np.asarray(to_int8(x, zp, s)), codes), "engine to_int8 agrees")
    xmin, xmax = (lo - zp) * s, (hi - zp) * s
    r = xmin + rng.uniform(-0.1, 1.1, size=codes.shape) * (xmax - xmin)
    d = np.asarray(Q.dequantize(Q.quantize(r, zp, s), zp, s))
    tol = s * 1e-6 + np.abs(r) * 1e-12
    need(bool(np.all(np.abs(d - np.clip(r, xmin, xmax)) <= np.where((r < xmin) | (r > xmax), 0, s / 2) + tol)), "error at most half a step, saturated outside")
    ctx.nontrivial(len(np.unique(codes)) > 1)
    ctx.label("large", codes.size >= 1000)


def subs():
    return [
        Sub("history", history.histories(["dequantize", "back", "quantize", "engine"]), history.check, quick=1500, thorough=25000),
        Sub("large", big_cases(), roundtrip_big, quick=900, thorough=10000),
        Sub("roundtrip", cases(), roundtrip, quick=8000, thorough=150000, corners=[
            {"dtype": "uint32", "s": 1.0, "zp": 0, "codes": [4294967295, 2147483648, 0], "fr": [0.9, 1.0], "form": "native"},
            {"dtype": "int32", "s": 0.5, "zp": -7, "codes": [2147483647, -2147483648], "fr": [0.5], "form": "native"},
            {"dtype": "uint8", "s": 0.5, "zp": 200, "codes": [0, 1, 255], "fr": [0.5], "form": "native"},
        ])
    ]
