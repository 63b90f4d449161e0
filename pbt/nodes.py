"""Independent expectations about the nodes and operators that the quantizer emits."""
import math

import numpy as np

from pbt import need
from pbt.gen import limits


def iv(x, s, zp, dtype, policy=None, yeps=0.0):
    """admissible codes of reals x: nearest (either neighbour at a tie) or floor + policy, saturated"""
    lo, hi = limits(dtype)
    x = np.asarray(x, dtype=np.float64)
    t = x / s
    eps = (np.abs(t) + abs(zp) + 2) * 2.0**-44 + np.asarray(yeps) / s
    half, off = (0.5, 0) if policy is None else (0.0, np.asarray(policy))
    a = np.floor(np.clip(t - eps, -1e17, 1e17) + half) + off + zp
    b = np.floor(np.clip(t + eps, -1e17, 1e17) + half) + off + zp
    return np.clip(a, lo, hi), np.clip(b, lo, hi)


def inside(got, bounds, msg, **ctx):
    got = np.asarray(got)
    a, b = bounds
    need(got.shape == a.shape, f"{msg}: shape", got=got.shape, want=a.shape, **ctx)
    need(got.size == 0 or np.issubdtype(got.dtype, np.integer), f"{msg}: integers", got=got.dtype)
    bad = np.argwhere((got < a) | (got > b))
    if len(bad):
        i = tuple(int(k) for k in bad[0])
        need(False, msg, index=i, got=int(got[i]), want=[int(a[i]), int(b[i])], **ctx)


def nearest_or_tie(x, s, zp, dtype):
    """nearest codes; at a tie (within float error) both neighbours"""
    return iv(x, s, zp, dtype)


def sigmoid(v):
    return 0.5 * (1 + math.tanh(v / 2))


FLOAT_FN = {
    "TANH": (math.tanh, 1.0), "SIGMOID": (sigmoid, 0.25), "RELU": (lambda v: max(v, 0.0), 1.0),
    "RELU6": (lambda v: min(max(v, 0.0), 6.0), 1.0), "LINEAR": (lambda v: v, 1.0), "SOFTMAX": (lambda v: v, 1.0),
}


def lut_iv(fn, dtype, in_s, in_zp, out_s, out_zp, policy=None, f32=True, out_dtype=None):
    lo, hi = limits(dtype)
    v = (np.arange(lo, hi + 1) - in_zp) * in_s
    y = np.array([float(fn(float(a))) for a in v])
    yeps = (np.abs(y) + 1e-7) * 2.0**-21 if f32 else (np.abs(y) + 1) * 2.0**-48
    return iv(y, out_s, out_zp, out_dtype or dtype, policy, yeps)
