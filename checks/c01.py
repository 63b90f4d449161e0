"""C01 affine quantization: saturating, round to nearest with ties up."""
import math
from fractions import Fraction

import numpy as np
from hypothesis import strategies as st

from pbt import Sub, history, need
from pbt.gen import INT_DTYPES, LAYOUTS, big_shape, layout, limits, scales, weird_dtypes, zero_points
from pbt.nodes import inside, iv

from itcl_quantization import Quantization
from itcl_inference_engine.util.quantization import to_int8

RULE = (
    "A case is (dtype, scale, zero point, data of any rank incl. scalars/lists/empty); values are placed on codes, "
    "on/near rounding ties, outside the range on both sides, at huge magnitudes and infinities. Non-trivial: at least "
    "one value is not an exact code (rounding or saturation decides). Large cases: arrays of up to 100000 values in any "
    "memory layout, also read-only."
) + history.RULE


@st.composite
def cases(draw):
    dtype = draw(weird_dtypes())
    lo, hi = limits(dtype)
    s = draw(scales())
    zp = draw(st.one_of(zero_points(dtype), zero_points(dtype), st.integers(-300, 300)))
    n = draw(st.sampled_from([0, 1, 1, 2, 3, 5, 8]))
    vals = []
    span = hi - lo
    for _ in range(n):
        k = draw(st.integers(0, 7))
        if k <= 3:
            q = draw(st.one_of(st.integers(lo, hi), st.integers(lo - 3, lo + 3), st.integers(hi - 3, hi + 3)))
            f = draw(st.sampled_from([0.0, 0.5, -0.5, 0.25, -0.25, 0.49, -0.49, 0.499999, 0.75]))
            vals.append((q - zp + f) * s)
        elif k == 4:
            vals.append(draw(st.floats(-1e6, 1e6, allow_nan=False)))
        elif k == 5:
            vals.append(draw(st.sampled_from([0.0, 1e30, -1e30, 1e-300, -1e-20, "inf", "-inf"])))
        elif k == 6:
            vals.append((draw(st.floats(-2, 2, allow_nan=False)) * span) * s)
        else:
            vals.append(float(draw(st.integers(-300, 300))))
    shape = draw(st.sampled_from(["scalar", "flat", "col", "deep", "list"]))
    dt = draw(st.sampled_from(["float64", "float64", "float32", "int64"]))
    by = draw(st.sampled_from(["str", "str", "np"])) if dtype in INT_DTYPES else "str"
    return {"dtype": dtype, "s": s, "zp": zp, "vals": vals, "shape": shape, "dt": dt, "by": by}


def make(case):
    vals = [float(v) for v in case["vals"]]
    if case["dt"] == "int64":
        vals = [0.0 if math.isinf(v) or abs(v) > 1e15 else float(round(v)) for v in vals]
    a = np.array(vals, dtype=np.float64)
    a = a.astype(case["dt"]) if case["dt"] != "float64" else a
    sh = case["shape"]
    if sh == "scalar" and len(vals) >= 1:
        return float(a.ravel()[0]), a.ravel()[:1].astype(np.float64), ()
    if sh == "col":
        a = a.reshape(-1, 1)
    elif sh == "deep":
        a = a.reshape(1, -1, 1)
    elif sh == "list":
        return a.tolist(), a.astype(np.float64).ravel(), a.shape
    return a, a.astype(np.float64).ravel(), a.shape


def admissible(x, s, zp, lo, hi):
    """Set of admissible codes of x: one, unless x is within float error of a tie."""
    if math.isinf(x):
        return {hi if x > 0 else lo}
    t = Fraction(x) / Fraction(s) + zp
    mag = abs(Fraction(x) / Fraction(s)) + abs(zp) + 1
    # With a power-of-two scale and a short value the float computation is exact,
    # so the tie rule itself (ties go up) is observable.
    exact = math.frexp(s)[0] == 0.5 and mag < 2**52 and Fraction(x / s + zp + 0.5) == t + Fraction(1, 2)
    eps = Fraction(0) if exact else mag * Fraction(1, 2**50)
    out = set()
    for e in (-eps, eps):
        q = math.floor(t + e + Fraction(1, 2))
        out.add(min(hi, max(lo, q)))
    return out


def quantize(case, ctx):
    lo, hi = limits(case["dtype"])
    s, zp = case["s"], case["zp"]
    data, flat, shape = make(case)
    before = np.array(data, copy=True)
    dtype = getattr(np, case["dtype"]) if case["by"] == "np" else case["dtype"]
    Q = Quantization(dtype)
    need(Q.min_value() == lo and Q.max_value() == hi, "dtype range", got=(Q.min_value(), Q.max_value()))
    q = np.asarray(Q.quantize(data, zp, s))
    need(q.shape == tuple(shape), "shape", got=q.shape, want=shape)
    need(np.issubdtype(q.dtype, np.integer), "integer codes", got=q.dtype)
    need(np.array_equal(before, np.array(data)), "input mutated")
    for x, c in zip(flat.tolist(), q.ravel().tolist()):
        ok = admissible(x, s, zp, lo, hi)
        need(c in ok, "quantize is saturated round-half-up of x/scale+zp", x=x, s=s, zp=zp, got=c, want=sorted(ok))
        if not math.isinf(x):
            ctx.nontrivial(Fraction(x) / Fraction(s) + zp != c)
    order = np.argsort(flat, kind="stable")
    need(bool(np.all(np.diff(q.ravel()[order].astype(np.int64)) >= 0)), "quantize is monotone")
    if case["dtype"].lower() == "int8":
        need(np.array_equal(np.asarray(to_int8(data, zp, s)), q), "engine helper agrees with int8 quantization")
    # no state: a second call and a second instance agree
    need(np.array_equal(np.asarray(Q.quantize(data, zp, s)), q), "second call differs")
    ctx.label("saturates", any(c in (lo, hi) for c in q.ravel().tolist()))


@st.composite
def big_cases(draw):
    dtype = draw(weird_dtypes())
    return {"dtype": dtype, "s": draw(scales()), "zp": draw(zero_points(dtype)), "shape": draw(big_shape(100000)),
            "seed": draw(st.integers(0, 2**31 - 1)), "kind": draw(st.sampled_from(["range", "near", "ties", "wild"])),
            "dt": draw(st.sampled_from(["float64", "float64", "float32", "int64", "int32", "uint8", "int8", "float16"])),
            "layout": draw(st.sampled_from(LAYOUTS))}


def big_data(c):
    lo, hi = limits(c["dtype"])
    rng = np.random.RandomState(c["seed"])
    shape = tuple(c["shape"])
    u = rng.uniform(-0.1, 1.1, size=shape)
    q = lo + u * (hi - lo)
    if c["kind"] == "near":
        q = c["zp"] + rng.normal(0, 5, size=shape)
    elif c["kind"] == "ties":
        q = np.floor(q) + 0.5
    x = (q - c["zp"]) * c["s"]
    if c["kind"] == "wild":
        x = x * 10.0 ** rng.uniform(-8, 8, size=shape)
    if c["dt"].startswith("float"):
        return np.nan_to_num(x.astype(c["dt"]), posinf=6e4, neginf=-6e4)
    i = np.iinfo(c["dt"])
    return np.clip(np.round(x), max(i.min, -2**53), min(i.max, 2**53)).astype(c["dt"])


def quantize_big(c, ctx):
    x = big_data(c)
    data = layout(x, c["layout"])
    Q = Quantization(c["dtype"])
    got = np.asarray(Q.quantize(data, c["zp"], c["s"]))
    inside(got, iv(x.astype(np.float64), c["s"], c["zp"], c["dtype"]), "nearest code", s=c["s"], zp=c["zp"])
    need(np.array_equal(data, x), "input mutated")
    need(np.array_equal(got, np.asarray(Q.quantize(data, c["zp"], c["s"]))), "second call differs")
    order = np.argsort(x, axis=None, kind="stable")
    need(bool(np.all(np.diff(got.ravel()[order].astype(np.int64)) >= 0)), "quantize is monotone")
    if c["dtype"].lower() == "int8":
        need(np.array_equal(np.asarray(to_int8(data, c["zp"], c["s"])), got), "engine helper agrees with int8 quantization")
    ctx.nontrivial(len(np.unique(got)) > 2)
    ctx.label("large", x.size >= 1000)


def subs():
    return [
        Sub("history", history.histories(["quantize", "quantize", "engine"]), history.check, quick=1500, thorough=25000),
        Sub("large", big_cases(), quantize_big, quick=900, thorough=10000),
        Sub(
            "quantize",
            cases(),
            quantize,
            quick=8000,
            thorough=120000,
            corners=[
                {"dtype": "uint32", "s": 1.0, "zp": 0, "vals": [4294967295.0, 2147483648.0, 5e9, -1.0], "shape": "flat", "dt": "float64", "by": "np"},
                {"dtype": "int32", "s": 1.0, "zp": 5, "vals": [2147483647.0, -2147483648.0, 3e9, -3e9], "shape": "flat", "dt": "float64", "by": "np"},
                {"dtype": "int8", "s": 1.0, "zp": 0, "vals": [0.5, -0.5, 1.5, 2.5, -1.5, -2.5, 126.5, 127.5, -128.5], "shape": "flat", "dt": "float64", "by": "str"},
            ],
        )
    ]
