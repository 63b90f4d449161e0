"""C03 quantization with an explicit rounding policy."""
import math
from fractions import Fraction

import numpy as np
from hypothesis import strategies as st

from pbt import Sub, history, need
from pbt.gen import LAYOUTS, big_shape, layout, limits, scales, weird_dtypes, zero_points

from pbt.nodes import inside, iv

from itcl_quantization import Quantization
from itcl_quantizer.equalizers.adaround.irounding_policy import get_base_rounding

RULE = (
    "A case is (dtype, scale, zero point, matrix of reals, 0/1 policy of the same shape or of an incompatible shape). "
    "Non-trivial: the policy changes at least one code compared to rounding to nearest, or the policy is incompatible."
) + history.RULE
ASSUMPTIONS = ["values within float rounding error (2^-48 relative) of an integer code admit both neighbours"]


@st.composite
def cases(draw):
    dtype = draw(weird_dtypes())
    lo, hi = limits(dtype)
    s, zp = draw(scales()), draw(zero_points(dtype))
    r, c = draw(st.integers(1, 4)), draw(st.integers(1, 4))
    fr = st.sampled_from([0.0, 0.25, 0.5, 0.75, 0.1, 0.9, 0.49, 0.51])
    vals = []
    for _ in range(r * c):
        q = draw(st.one_of(st.integers(lo, hi), st.integers(lo - 2, lo + 2), st.integers(hi - 2, hi + 2)))
        vals.append((q - zp + draw(fr)) * s)
    pol = draw(st.lists(st.integers(0, 1), min_size=r * c, max_size=r * c))
    bad = draw(st.sampled_from([0, 0, 0, 1]))
    return {"dtype": dtype, "s": s, "zp": zp, "r": r, "c": c, "vals": vals, "pol": pol, "bad": bad,
            "pd": draw(st.sampled_from(["int64", "int32", "float64", "uint8"])),
            "flat": draw(st.booleans())}


def check(case, ctx):
    lo, hi = limits(case["dtype"])
    s, zp = case["s"], case["zp"]
    shape = (case["r"] * case["c"],) if case["flat"] else (case["r"], case["c"])
    x = np.array(case["vals"]).reshape(shape)
    pol = np.array(case["pol"], dtype=case["pd"]).reshape(shape)
    Q = Quantization(case["dtype"])
    nearest = np.asarray(Q.quantize(x, zp, s))
    need(np.array_equal(np.asarray(Q.quantize(x, zp, s, rounding_policy=None)), nearest), "no policy means nearest")
    if case["bad"]:
        n = int(np.prod(shape)) + 1
        wrong = np.ones((n + 1, n, 2), dtype=np.int64) if n > 1 else np.ones((3, 5))
        if x.ndim == 1:
            wrong = np.ones(len(x) + 1 + (len(x) == 1))
            if len(x) == 1:
                return
        if 1 in shape and x.ndim == 2:
            return
        wrongs = [wrong]
        if x.ndim == 2 and shape[0] != shape[1]:
            wrongs.append(pol.T.copy())  # as many bits as elements
        for wrong in wrongs:
            got = np.asarray(Q.quantize(x, zp, s, rounding_policy=wrong))
            need(got.shape == nearest.shape and np.array_equal(got, nearest), "incompatible policy falls back to nearest", policy=wrong.shape)
        ctx.nontrivial()
        return
    before = (x.copy(), pol.copy())
    got = np.asarray(Q.quantize(x, zp, s, rounding_policy=pol))
    need(got.shape == shape, "shape", got=got.shape)
    need(np.issubdtype(got.dtype, np.integer), "integer codes")
    need(np.array_equal(before[0], x) and np.array_equal(before[1], pol), "arguments mutated")
    for v, p, g in zip(x.ravel().tolist(), pol.ravel().tolist(), got.ravel().tolist()):
        t = Fraction(v) / Fraction(s) + zp
        eps = (abs(t) + abs(zp) + 2) * Fraction(1, 2**48)
        ok = {min(hi, max(lo, math.floor(t + e) + int(p))) for e in (-eps, eps)}
        need(g in ok, "policy 0 rounds down and 1 rounds up, saturated", x=v, p=p, got=g, want=sorted(ok))
    ctx.nontrivial(not np.array_equal(got, nearest))
    # the default policy of a tensor reproduces rounding to nearest
    base = np.asarray(get_base_rounding(x, s))
    need(base.shape == x.shape and set(np.unique(base).tolist()) <= {0, 1}, "default policy is binary")
    via = np.asarray(Q.quantize(x, zp, s, rounding_policy=base))
    for v, a, b in zip(x.ravel().tolist(), via.ravel().tolist(), nearest.ravel().tolist()):
        u = Fraction(v) / Fraction(s)
        near_tie = abs((u * 2) - round(u * 2)) <= (abs(u) + abs(zp) + 2) * Fraction(1, 2**46)
        need(a == b or (near_tie and abs(a - b) <= 1), "default policy equals nearest", x=v, got=a, want=b)


@st.composite
def big_cases(draw):
    dtype = draw(weird_dtypes())
    return {"dtype": dtype, "s": draw(scales()), "zp": draw(zero_points(dtype)), "shape": draw(big_shape(70000)),
            "seed": draw(st.integers(0, 2**31 - 1)), "layout": draw(st.sampled_from(LAYOUTS)), "playout": draw(st.sampled_from(LAYOUTS)),
            "pd": draw(st.sampled_from(["int64", "int8", "float64", "uint8", "bool"])), "dt": draw(st.sampled_from(["float64", "float32"])),
            "near": draw(st.booleans())}


def check_big(c, ctx):
    lo, hi = limits(c["dtype"])
    s, zp = c["s"], c["zp"]
    rng = np.random.RandomState(c["seed"])
    shape = tuple(c["shape"])
    q = zp + rng.normal(0, 8, size=shape) if c["near"] else lo + rng.uniform(-0.05, 1.05, size=shape) * (hi - lo)
    x = ((q - zp) * s).astype(c["dt"])
    pol = rng.randint(0, 2, size=shape).astype(c["pd"])
    keep = x.copy(), pol.copy()
    a, b = layout(x, c["layout"]), layout(pol, c["playout"])
    Q = Quantization(c["dtype"])
    got = np.asarray(Q.quantize(a, zp, s, rounding_policy=b))
    x64 = x.astype(np.float64)
    inside(got, iv(x64, s, zp, c["dtype"], pol.astype(np.int64)), "floor plus policy", s=s, zp=zp)
    inside(np.asarray(Q.quantize(a, zp, s)), iv(x64, s, zp, c["dtype"]), "no policy: nearest", s=s, zp=zp)
    base = np.asarray(get_base_rounding(a, s))
    need(base.shape == shape and set(np.unique(base).tolist()) <= {0, 1}, "default policy is binary")
    inside(np.asarray(Q.quantize(a, zp, s, rounding_policy=base)), iv(x64, s, zp, c["dtype"]), "default policy equals nearest", s=s, zp=zp)
    need(np.array_equal(keep[0], a) and np.array_equal(keep[1], b), "arguments mutated")
    ctx.nontrivial(not np.array_equal(got, np.asarray(Q.quantize(a, zp, s))))
    ctx.label("large", x.size >= 1000)


def subs():
    return [
        Sub("history", history.histories(["policy", "policy", "quantize", "bad policy"]), history.check, quick=1500, thorough=25000),
        Sub("large", big_cases(), check_big, quick=900, thorough=10000), Sub("policy", cases(), check, quick=6000, thorough=100000)]
