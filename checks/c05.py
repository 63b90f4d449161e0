"""C05 look-up tables tabulate the activation over the whole code range."""
import math

import numpy as np
from hypothesis import strategies as st

from pbt import Sub, need, close
from pbt import pairs
from pbt.gen import limits, scales, zero_points

from itcl_quantization import Quantization

RULE = (
    "A case is (dtype of 2..10 bits, sometimes 16; activation; input and output scale and zero point; optional 0/1 "
    "policy; earlier tables made with the same quantizer). All entries of the table are compared with the quantized activation of the dequantized code. Non-trivial: "
    "the table has at least three distinct values."
) + pairs.RULE

FNS = {
    "tanh": math.tanh,
    "sigmoid": lambda x: 1 / (1 + math.exp(-x)) if x >= 0 else math.exp(x) / (1 + math.exp(x)),
    "np_tanh": np.tanh,
    "relu": lambda x: max(0, x),
    "identity": lambda x: x,
    "neg": lambda x: -x,
    "square": lambda x: x * x,
    "step": lambda x: 1 if x > 0 else 0,
    "hard": lambda x: 0 if x < -2.5 else 1 if x > 2.5 else 0.2 * x + 0.5,
    "sin": math.sin,
    "const": lambda x: 3,
    "f32": lambda x: np.float32(x) * np.float32(0.5),
    # odd near zero, not further away; not monotone; steps; a single spike; piecewise irregular
    "asym": lambda x: min(max(x, -0.75), 2.5),
    "asym_low": lambda x: max(min(x, 0.75), -2.5),
    "leaky": lambda x: x if x > 0 else 0.1 * x,
    "elu": lambda x: x if x > 0 else math.expm1(x),
    "gelu": lambda x: 0.5 * x * (1 + math.erf(x / math.sqrt(2))),
    "spike": lambda x: 1.5 if x == 0 else -1,
    "floor": lambda x: math.floor(x),
    "irregular": lambda x: math.sin(37.0 * math.floor(x * 8) * math.floor(x * 8 + 1)),
    # defined for one value at a time: relative to the largest value of its argument
    # poles: infinite values saturate
    "log": lambda x: math.log(x) if x > 0 else -math.inf,
    "inverse": lambda x: 1 / x if x else math.inf,
    "scalar": lambda x: x / (np.max(np.abs(x)) + 1.0),
}


@st.composite
def cases(draw, wide=False):
    dtype = draw(st.sampled_from(["int16", "uint16", "int13", "uint12"]) if wide else st.one_of(st.sampled_from(["int8", "uint8", "int8", "uint8"]),
                           st.builds(lambda u, b: f"{u}{b}", st.sampled_from(["int", "uint"]), st.integers(2, 10))))
    lo, hi = limits(dtype)
    n = hi - lo + 1
    span = draw(st.floats(0.5, 12, allow_nan=False, width=32))
    in_s = draw(st.one_of(st.just(span / n), scales(-4, 1), st.just(span / n), scales(-9, -4), scales(1, 8)))
    return {
        "dtype": dtype, "fn": draw(st.sampled_from(sorted(FNS))),
        "in_s": in_s, "in_zp": draw(zero_points(dtype)),
        "out_s": draw(st.one_of(st.just(2.0 / n), scales(-4, 1), st.just(in_s), st.just("fit"))), "out_zp": draw(zero_points(dtype)),
        "pol": draw(st.one_of(st.none(), st.none(), st.integers(0, 2**31))),
        # earlier tables of the same quantizer: other activations and parameters
        "before": [] if wide else draw(st.lists(st.tuples(st.sampled_from(sorted(FNS)), st.booleans(), st.booleans()).map(list), max_size=3)),
    }


def check(case, ctx):
    lo, hi = limits(case["dtype"])
    n = hi - lo + 1
    f = FNS[case["fn"]]
    if case["out_s"] == "fit":  # the activated values fill the output type, whatever their size
        ys = np.abs([float(f((lo + i - case["in_zp"]) * case["in_s"])) for i in range(n)])
        ys = ys[np.isfinite(ys) & (ys > 1e-12)]
        case = dict(case, out_s=float(ys.max() / n) if ys.size else 1.0)
        ctx.label("fit")
    Q = Quantization(case["dtype"])
    pol = None if case["pol"] is None else np.random.RandomState(case["pol"]).randint(0, 2, size=n)
    before = None if pol is None else pol.copy()
    for fn, same_in, same_out in case.get("before", []):
        ins = (case["in_s"], case["in_zp"]) if same_in else (case["in_s"] * 2, case["in_zp"])
        outs = (case["out_s"], case["out_zp"]) if same_out else (case["out_s"] * 3, lo)
        Q.create_LUT(FNS[fn], *ins, *outs)
        ctx.label("earlier tables")
    lut = Q.create_LUT(f, case["in_s"], case["in_zp"], case["out_s"], case["out_zp"], rounding_policy=pol)
    need(len(lut) == n, "one entry per code", got=len(lut), want=n)
    need(all(type(v) is int for v in lut), "entries are plain integers")
    need(pol is None or np.array_equal(pol, before), "policy mutated")
    ys = [float(f((lo + i - case["in_zp"]) * case["in_s"])) for i in range(n)]
    close(Q.float_activation(f, case["in_s"], case["in_zp"]), np.array(ys), rtol=1e-9, atol=1e-15, msg="float activation of every code")
    # the float error of the division and of the zero point allows a small uncertainty near a rounding boundary
    t = np.array(ys) / case["out_s"] + case["out_zp"]
    eps = (np.where(np.isfinite(t), np.abs(t), 0) + abs(case["out_zp"]) + 1) * 2.0**-40
    off, half = (0, 0.5) if pol is None else (pol, 0)
    low = np.clip(np.floor(t - eps + half) + off, lo, hi)
    high = np.clip(np.floor(t + eps + half) + off, lo, hi)
    got = np.array(lut)
    bad = np.argwhere((got != low) & (got != high)).ravel()
    if bad.size:
        i = int(bad[0])
        need(False, "entry is the quantized activation of its code", code=lo + i, got=lut[i], want=[low[i], high[i]], y=ys[i])
    ctx.nontrivial(len(set(lut)) >= 3)
    ctx.label("policy", pol is not None)


def subs():
    return [pairs.two(cases(), check, quick=600, twist={"fn": st.sampled_from(sorted(FNS)), "in_s": scales(-4, 1), "out_s": scales(-4, 1), "pol": st.integers(0, 2**31), "in_zp": lambda c: zero_points(c["dtype"]), "out_zp": lambda c: zero_points(c["dtype"])}),
            Sub("create", cases(), check, quick=5000, thorough=80000, corners=[
        {"dtype": "int8", "fn": "relu", "in_s": 0.05, "in_zp": 0, "out_s": 0.025, "out_zp": -128, "pol": None},
        {"dtype": "int8", "fn": "hard", "in_s": 0.05, "in_zp": 0, "out_s": 1 / 256, "out_zp": -128, "pol": None},
    ]), Sub("wide", cases(wide=True), check, quick=36, thorough=1200)]
