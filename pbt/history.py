"""Histories of calls to quantizer objects: several instances, shared buffers, repeated parameters."""
import numpy as np
from hypothesis import strategies as st

from pbt.gen import limits, scales, weird_dtypes, zero_points
from pbt.nodes import inside, iv
from pbt.runner import need

from itcl_quantization import Quantization
from itcl_inference_engine.util.quantization import from_int8, to_int8

RULE = (
    " Histories: 3 to 14 calls on up to 3 quantizer objects with pools of 2 types, 3 scales, 3 zero points and 3 arrays that the "
    "caller refills in place, results overwritten by the caller; every answer is compared with the formula of that call."
)


@st.composite
def histories(draw, kinds):
    dts = [draw(weird_dtypes()), draw(st.sampled_from(["int8", "uint8", "int8", "int16"]))]
    shape = st.sampled_from([[1], [4], [2, 2], [4, 1], [3, 5], [5, 3], [130], [2, 65], [65, 2]])
    s = draw(scales())
    return {
        "dts": dts, "who": draw(st.lists(st.integers(0, 1), min_size=1, max_size=3)),
        "scales": [s, draw(st.sampled_from([s, s * (1 + 2.0**-20), s * 2])), draw(scales())],
        "zps": [draw(zero_points(dts[1])), 0, draw(zero_points(dts[0]))],
        "shapes": [draw(shape), draw(shape), draw(shape)],
        "steps": draw(st.lists(st.fixed_dictionaries({
            "k": st.sampled_from(kinds), "i": st.integers(0, 2), "s": st.integers(0, 2), "z": st.integers(0, 2), "b": st.integers(0, 2),
            "fill": st.sampled_from([0, 0, 1, 2, 3]), "seed": st.integers(0, 2**20), "scribble": st.booleans(), "inst": st.sampled_from([0, 0, 0, 1])}),
            min_size=3, max_size=14)),
    }


def check(c, ctx):
    objs = [Quantization(c["dts"][w]) for w in c["who"]]
    who = list(c["who"])
    reals = [np.zeros(sh) for sh in c["shapes"]]
    pols = [np.zeros(sh, dtype=np.int64) for sh in c["shapes"]]
    codes = [np.zeros(sh, dtype=np.int64) for sh in c["shapes"]]
    returned = []
    for step, a in enumerate(c["steps"]):
        i = a["i"] % len(objs)
        dt, s, z, b = c["dts"][who[i]], c["scales"][a["s"]], c["zps"][a["z"]], a["b"]
        lo, hi = limits(dt)
        if not lo <= z <= hi:
            z = lo if z < lo else hi
        if a["inst"]:  # the caller makes a new object
            objs[i] = Quantization(dt)
        Q = objs[i]
        rng = np.random.RandomState(a["seed"])
        x, p, q = reals[b], pols[b], codes[b]
        if a["fill"] == 1 or step == 0:  # refill in place
            q[...] = rng.randint(lo, hi + 1, size=q.shape, dtype=np.int64)
            x[...] = (lo + rng.uniform(-0.1, 1.1, size=x.shape) * (hi - lo) - z) * s
            p[...] = rng.randint(0, 2, size=p.shape)
        elif a["fill"] == 2:  # one element changes
            k = rng.randint(x.size)
            q.ravel()[k], x.ravel()[k] = lo + rng.randint(0, 2) * (hi - lo), (rng.randint(-5, 6) - 0.3) * s
            p.ravel()[k] ^= 1
        elif a["fill"] == 3:  # same numbers, other order
            for v in (x, p, q):
                v[...] = v[::-1].copy()
        # codes of another step may lie outside this type: the caller only passes codes of the type
        np.clip(q, lo, hi, out=q)
        kept = x.copy(), p.copy(), q.copy()
        if a["k"] == "quantize":
            out = Q.quantize(x, z, s)
            inside(out, iv(x, s, z, dt), "nearest code", step=step)
        elif a["k"] == "policy":
            out = Q.quantize(x, z, s, rounding_policy=p)
            inside(out, iv(x, s, z, dt, p), "floor plus policy", step=step)
        elif a["k"] == "bad policy" and 1 not in x.shape:
            out = Q.quantize(x, z, s, rounding_policy=np.ones(tuple(n + 2 for n in x.shape), dtype=np.int64))
            inside(out, iv(x, s, z, dt), "incompatible policy: nearest", step=step)
        elif a["k"] == "dequantize":
            out = Q.dequantize(q, z, s)
            want = (q - float(z)) * s
            got = np.asarray(out)
            need(got.shape == q.shape and bool(np.all(np.abs(got - want) <= np.abs(want) * 2.0**-50)), "dequantize is (q - zp) * scale", step=step)
        elif a["k"] == "back":
            out = Q.quantize(Q.dequantize(q, z, s), z, s)
            need(np.array_equal(out, q), "quantize(dequantize(q)) == q", step=step)
        elif a["k"] == "engine" and dt.lower() == "int8":
            out = to_int8(x, z, s)
            inside(out, iv(x, s, z, dt), "engine helper", step=step)
            want = (q - float(z)) * s
            need(bool(np.all(np.abs(from_int8(q, z, s) - want) <= np.abs(want) * 2.0**-50)), "engine from_int8", step=step)
        else:
            out = Q.quantize(x, z, s)
            inside(out, iv(x, s, z, dt), "nearest code", step=step)
        need(all(np.array_equal(u, v) for u, v in zip(kept, (x, p, q))), "arguments mutated", step=step)
        need(Q.min_value() == lo and Q.max_value() == hi, "the type of the object changed", step=step)
        out = np.asarray(out)
        if a["scribble"] and out.flags.writeable and not any(np.shares_memory(out, v) for v in (x, p, q)):
            out[...] = out.ravel()[-1]
        returned.append((out, out.copy()))
    need(all(np.array_equal(u, v) for u, v in returned), "a later call changes a result already returned")
    ctx.nontrivial(len(c["steps"]) > 3)
    ctx.label("several objects", len(objs) > 1)
