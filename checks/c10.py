"""C10 the quantized fully connected layer computes the rounded affine map."""
import numpy as np
from hypothesis import strategies as st

from pbt import Sub, need
from pbt import pairs
from pbt.gen import LAYOUTS, layout, bulk_ints, limits, scales, sizes, zero_points
from pbt.model import exact_factor, fc_acc, fc_op, fc_ref, within
from pbt.reuse import reuse

from itcl_inference_engine.layers.tflite.build_layer import build_layer
from itcl_inference_engine.layers.tflite.fullyconnected import FullyConnected

RULE = (
    "A case is (input size and output size up to 70/40, input/weight/output types, zero points and scales, int32 bias, a "
    "single vector or a batch, container of the codes). The layer is built from the JSON operator and compared with "
    "exact integer accumulation and exact scaling, rounding half up, zero point, saturation. Non-trivial: at least one "
    "output is not saturated and differs from the output zero point. Large: up to 4097 inputs, neurons or rows."
) + pairs.RULE
ASSUMPTIONS = [
    "rescaling factor in [1e-6, 2^30) and accumulators below 2^32 (the engine's documented fixed-point range)",
    "the factor is held with a 31-bit significand: outputs within |acc*M|*2^-30.5 of a tie admit both neighbours, unless the factor fits in 31 bits",
]


@st.composite
def cases(draw):
    n_in, n_out = draw(sizes(4, 70)), draw(sizes(4, 40))
    in_dt = draw(st.sampled_from(["int8", "int8", "uint8", "int16", "int12"]))
    w_dt = draw(st.sampled_from(["int8", "int8", "uint8", "int4", "int16"]))
    out_dt = draw(st.sampled_from(["int8", "int8", "uint8", "int16", "int5", "uint16"]))
    lo, hi = limits(in_dt)
    wlo, whi = limits(w_dt)
    batch = draw(st.sampled_from([None, 1, 2, 3, 7]))
    x = draw(bulk_ints((n_in,) if batch is None else (batch, n_in), lo, hi))
    w = draw(bulk_ints((n_out, n_in), wlo, whi))
    mag = draw(st.sampled_from([5, 300, 2**15, 2**20, 2**29]))
    b = draw(bulk_ints((n_out,), -mag, mag))
    in_zp = draw(zero_points(in_dt))
    w_zp = draw(st.one_of(st.just(0), zero_points(w_dt)))
    # the output scale is derived from the size of the accumulator, so that outputs are interesting
    in_s, w_s = draw(scales(-5, 0)), draw(scales(-5, 0))
    acc = (np.array(x, dtype=np.float64) - in_zp) @ (np.array(w, dtype=np.float64) - w_zp).T + np.array(b)
    amax = max(1.0, float(np.abs(acc).max()))
    olo, ohi = limits(out_dt)
    M = (ohi - olo) * draw(st.sampled_from([0.1, 0.5, 1.0, 3.0])) / amax
    k = draw(st.integers(0, 4))
    if k == 4:  # a factor that fits in 31 bits: ties are exact, too
        m = draw(st.sampled_from([3, 3, 5, 7, 9, 15, 2**20 + 1]))
        M = m * 2.0 ** round(np.log2(M / m))
        in_s, w_s = 2.0 ** round(np.log2(in_s)), m * 2.0 ** round(np.log2(w_s / m))
    elif k == 0:
        M = 2.0 ** round(np.log2(M))  # ties are exact
        in_s, w_s = 2.0 ** round(np.log2(in_s)), 2.0 ** round(np.log2(w_s))
    elif k == 1:
        M = float(draw(st.sampled_from([1, 2, 0.5, 3, 1e-6 * 1.01, 2.0**20, 0.9999999999, 1.0000000001])))
    M = min(max(M, 1.001e-6), 2.0**29)
    return {"in_dt": in_dt, "w_dt": w_dt, "out_dt": out_dt, "x": x, "w": w, "b": b, "in_zp": in_zp, "w_zp": w_zp,
            "in_s": in_s, "w_s": w_s, "out_s": in_s * w_s / M, "out_zp": draw(zero_points(out_dt)),
            "cont": draw(st.sampled_from(["native", "int64", "int32"])),
            "op_type": draw(st.sampled_from(["FULLY_CONNECTED", "fully_connected", "FULLY_CONN"]))}


@st.composite
def big_cases(draw):
    big, mid = st.sampled_from([100, 127, 128, 129, 255, 256, 257, 512, 600, 1000, 1024, 1025, 2049, 4097]), st.sampled_from([16, 31, 64, 65, 100, 130])
    small = st.integers(1, 5)
    n_in, n_out, batch = (draw(k) for k in draw(st.sampled_from([(big, small, small), (small, big, small), (small, small, big), (mid, mid, mid), (big, mid, small)])))
    in_dt, w_dt, out_dt = (draw(st.sampled_from(["int8", "int8", "uint8"])) for _ in range(3))
    return {"n": [n_in, n_out, batch], "vec": draw(st.booleans()), "in_dt": in_dt, "w_dt": w_dt, "out_dt": out_dt, "seed": draw(st.integers(0, 2**31 - 1)),
            "in_zp": draw(zero_points(in_dt)), "w_zp": draw(st.one_of(st.just(0), zero_points(w_dt))), "out_zp": draw(zero_points(out_dt)),
            "in_s": draw(scales(-5, 0)), "w_s": draw(scales(-5, 0)), "fill": draw(st.sampled_from(["any", "any", "extreme"])), "p2": draw(st.booleans()),
            "span": draw(st.sampled_from([0.1, 0.5, 1.0, 3.0])), "cont": draw(st.sampled_from(["native", "int64", "int32"])), "op_type": "FULLY_CONNECTED",
            "layout": draw(st.sampled_from(LAYOUTS))}


def expand(c):
    rng = np.random.RandomState(c["seed"])
    n_in, n_out, batch = c["n"]
    (lo, hi), (wlo, whi), (olo, ohi) = (limits(c[k]) for k in ("in_dt", "w_dt", "out_dt"))
    x = rng.randint(lo, hi + 1, size=(n_in,) if c["vec"] else (batch, n_in))
    w = rng.randint(wlo, whi + 1, size=(n_out, n_in))
    if c["fill"] == "extreme":
        x[...], w[...] = rng.choice([lo, hi]), rng.choice([wlo, whi])
    b = rng.randint(-(2**20), 2**20, size=n_out)
    acc = (x - float(c["in_zp"])) @ (w - float(c["w_zp"])).T + b
    M = (ohi - olo) * c["span"] / max(1.0, np.abs(acc).max())
    in_s, w_s = c["in_s"], c["w_s"]
    if c["p2"]:
        M, in_s, w_s = (2.0 ** round(np.log2(v)) for v in (M, in_s, w_s))
    M = max(M, 1.001e-6)
    return dict(c, x=x, w=w.tolist(), b=b.tolist(), in_s=in_s, w_s=w_s, out_s=in_s * w_s / M)


def check(case, ctx):
    if "x" not in case:
        case = expand(case)
    o = fc_op(case["in_s"], case["in_zp"], case["w"], case["w_s"], case["w_zp"], case["b"], case["out_s"], case["out_zp"],
              case["out_dt"], case["w_dt"], op_type=case["op_type"])
    nat = {"int12": "int16"}.get(case["in_dt"], case["in_dt"])
    x = np.array(case["x"], dtype=nat if case["cont"] == "native" else case["cont"])
    if int(np.abs(np.ravel(fc_acc(o, x))).max()) >= 2**32:
        return
    layer = build_layer(o)
    if case["cont"] == "native":  # built from arrays of codes in their own containers
        nat_w = {"int4": "int8", "int12": "int16"}.get(case["w_dt"], case["w_dt"])
        w, b = np.array(case["w"], dtype=nat_w), np.array(case["b"], dtype="int32")
        layer = FullyConnected.build(case["in_s"], case["in_zp"], case["w_s"], case["w_zp"], w, case["in_s"] * case["w_s"], 0, b,
                                     case["out_s"], case["out_zp"], output_dtype=case["out_dt"])
    keep = x.copy()
    x = layout(x, case.get("layout", "C"))
    got = np.asarray(layer.infer(x))
    iv = fc_ref(o, x)
    within(got, iv, need, "output code", M=case["in_s"] * case["w_s"] / case["out_s"])
    need(np.issubdtype(got.dtype, np.integer), "integer codes", got=got.dtype)
    need(np.array_equal(keep, x), "input mutated")
    need(np.array_equal(got, layer.infer(x)), "second call differs")
    if x.ndim == 2:  # a row alone is a vector
        r = np.asarray(layer.infer(x[-1]))
        need(np.array_equal(r, got[-1]), "vector and batch of one agree")
        reuse(layer.infer, x, iv)
    lo, hi = limits(case["out_dt"])
    g = got.ravel()
    ctx.nontrivial(bool(np.any((g > lo) & (g < hi) & (g != case["out_zp"]))))
    ctx.label("decided", bool(np.all(iv[0] == iv[1])))
    t = fc_acc(o, x) * (case["in_s"] * case["w_s"] / case["out_s"])
    ctx.label("exact tie", exact_factor(case["in_s"], case["w_s"], case["out_s"]) and bool(np.any((t % 1 == 0.5) & (t + case["out_zp"] > lo) & (t + case["out_zp"] < hi))))


def subs():
    return [pairs.two(cases(), check, quick=600, twist={"x": "reverse", "w": "reverse", "b": "reverse", "in_zp": lambda c: zero_points(c["in_dt"]), "w_zp": lambda c: zero_points(c["w_dt"]), "out_zp": lambda c: zero_points(c["out_dt"])}),
            Sub("large", big_cases(), check, quick=600, thorough=7000), Sub("affine", cases(), check, quick=5000, thorough=80000)]
