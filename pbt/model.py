"""JSON operator builders and independent reference semantics of the engine's operators.

A reference maps codes to an inclusive interval [lo, hi] of admissible codes (arrays of
Python-exact int64).  lo == hi except where the documented real result lies within float
error of a rounding boundary.
"""
import math
from fractions import Fraction

import numpy as np

from pbt.gen import limits


def tensor(values, dtype, name=None):
    a = np.array(values)
    return {"tensor": values if isinstance(values, list) else a.tolist(), "shape": list(a.shape), "dtype": dtype, "name": name}


def node(scale=None, zp=None, t=None, lut=None):
    return {"scale": scale, "zero_point": zp, "tensor": t, "LUT": lut}


def lut_node(table, offset, reduced=None, drop=False):
    return node(None, None, None, {"LUT": [] if drop else list(table), "offset": offset, "reduced_LUT": reduced})


def op(op_type, inputs, outputs, name=None, attributes=None):
    return {"op_type": op_type, "name": name or op_type, "inputs": inputs, "outputs": outputs,
            "description": None, "attributes": attributes}


def network(ops, engine="TFLITE", inp=None, out=None):
    return {"ir_version": "1", "engine": engine, "generated_at": None, "operators": len(ops), "graph": ops,
            "input": [inp or node(1.0, 0)], "output": [out or node(1.0, 0)]}


def round_iv(t, eps, dtype, half=0.5):
    """Interval of saturated round-half-up codes of a real t known up to eps."""
    lo, hi = limits(dtype)
    t = np.asarray(t, dtype=np.float64)
    a = np.clip(np.floor(np.clip(t - eps, -1e15, 1e15) + half), lo, hi).astype(np.int64)
    b = np.clip(np.floor(np.clip(t + eps, -1e15, 1e15) + half), lo, hi).astype(np.int64)
    return a, b


def round_even_iv(t, eps, dtype):
    """As round_iv with ties to even (both neighbours admissible within eps of a tie)."""
    lo, hi = limits(dtype)
    t = np.asarray(t, dtype=np.float64)
    a = np.clip(np.rint(np.clip(t - eps, -1e15, 1e15)), lo, hi).astype(np.int64)
    b = np.clip(np.rint(np.clip(t + eps, -1e15, 1e15)), lo, hi).astype(np.int64)
    return a, b


def feps(*terms):
    """float64 error allowance for an expression whose terms have these magnitudes"""
    return sum(np.abs(np.asarray(t, dtype=np.float64)) for t in terms) * 2.0**-46 + 1e-13


def within(got, iv, need, msg, **ctx):
    got = np.asarray(got)
    a, b = iv
    need(got.shape == a.shape, f"{msg}: shape", got=got.shape, want=a.shape, **ctx)
    bad = np.argwhere((got < a) | (got > b))
    if len(bad):
        i = tuple(int(k) for k in bad[0])
        need(False, msg, index=i, got=got[i], want=[int(a[i]), int(b[i])], **ctx)


# ---------------------------------------------------------------- fully connected
def fc_op(in_s, in_zp, w, w_s, w_zp, b, out_s, out_zp, out_dtype, w_dtype="int8", b_dtype="int32", op_type="FULLY_CONNECTED"):
    out_shape = [1, len(b)]
    return op(op_type, [
        node(in_s, in_zp, tensor([], "int8")),
        node(w_s, w_zp, tensor(w, w_dtype)),
        node(in_s * w_s, 0, tensor(b, b_dtype)),
    ], [node(out_s, out_zp, {"tensor": None, "shape": out_shape, "dtype": out_dtype, "name": None})])


def fc_acc(operator, x):
    i, w, b = operator["inputs"]
    x, W, B = (np.asarray(v) for v in (x, w["tensor"]["tensor"], b["tensor"]["tensor"]))
    top = lambda v: int(np.abs(v.astype(np.float64)).max()) + 1 if v.size else 1  # noqa: E731
    if (top(x) + abs(i["zero_point"])) * (top(W) + abs(w["zero_point"])) * W.shape[-1] + top(B) < 2**61:
        # exact in 64 bits
        return (x.astype(np.int64) - i["zero_point"]) @ (W.astype(np.int64) - w["zero_point"]).T + B.astype(np.int64)
    xs = np.asarray(x).astype(object) - i["zero_point"]
    W = np.array(w["tensor"]["tensor"], dtype=object) - w["zero_point"]
    B = np.array(b["tensor"]["tensor"], dtype=object)
    return xs.dot(W.T) + B


def exact_factor(a, b, c):
    """whether a * b / c fits in 31 bits, and is exact in whatever order it is computed"""
    a, b, c = Fraction(float(a)), Fraction(float(b)), Fraction(float(c))
    p = a * b
    odd = p.numerator // (p.numerator & -p.numerator)
    return c.numerator & (c.numerator - 1) == 0 and odd < 2**31


def fc_ref(operator, x):
    i, w, _ = operator["inputs"]
    o = operator["outputs"][0]
    acc = fc_acc(operator, x).astype(np.float64)  # exact: |acc| < 2^53
    M = i["scale"] * w["scale"] / o["scale"]
    t = acc * M
    # the multiplier is held as a 31-bit significand: relative error at most 2^-31, none when it fits
    eps = np.abs(t) * 2.0**-30.5 + feps(t, o["zero_point"])
    if exact_factor(i["scale"], w["scale"], o["scale"]) and np.abs(t).max(initial=0) < 2.0**52:
        eps = 0.0
    return round_iv(t + o["zero_point"], eps, o["tensor"]["dtype"])


# ---------------------------------------------------------------- float helpers
def sigmoid(x):
    x = np.asarray(x, dtype=np.float64)
    return 0.5 * (1.0 + np.tanh(0.5 * x))


def quantize_iv(x, s, zp, dtype, xeps=0.0):
    t = np.asarray(x, dtype=np.float64) / s
    return round_iv(t + zp, feps(t, zp, 1) + np.asarray(xeps) / s, dtype)
