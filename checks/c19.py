"""C19 quantization parameters derived from data."""
import json
import math

import numpy as np
from hypothesis import strategies as st

from pbt import Sub, need
from pbt import pairs
from pbt.gen import bulk_floats, limits, sizes, weird_dtypes, vary

from itcl_quantization import Quantization
from itcl_quantizer.quantizer.distributions.distribution import Distribution

RULE = (
    "A case is a data set (lists, float32/float64/integer arrays of rank 1 to 3, up to 600 values, mixed signs, one sided, "
    "constant, almost all equal, with outliers) and an integer type of 2 to 32 bits. The derived scale and zero point are "
    "used to quantize and dequantize every value with an independent formula. Non-trivial: two distinct values."
) + pairs.RULE


@st.composite
def datasets(draw, min_n=1, large=False):
    kind = draw(st.sampled_from(["any", "any", "pos", "neg", "const", "outlier", "ints", "far"]))
    n = draw(st.one_of(st.integers(min_n, 6), st.integers(min_n, 24), st.integers(25, 600)))
    if large:
        n = draw(st.one_of(st.sampled_from([1000, 1001, 1023, 1024, 1025, 2047, 2049, 4096, 4097, 5000, 8193, 10000, 10001, 16385, 20000]), st.integers(601, 20000)))
    mag = 10.0 ** draw(st.integers(-6, 6))
    a = np.array(draw(bulk_floats((n,), 1.0)))
    if kind in ("pos", "neg"):
        a = np.abs(a) * (1 if kind == "pos" else -1)
    elif kind == "const":
        a = np.full(n, a[0])
    elif kind == "outlier":
        a = a * 0.01
        a[draw(st.integers(0, n - 1))] = draw(st.sampled_from([1.0, -1.0]))
    elif kind == "ints":
        a = np.round(a * 100)
        mag = 1.0
    elif kind == "far":
        a = draw(st.sampled_from([5.0, -5.0])) + a
    a = a * mag
    a[np.abs(a) < 1e-30] = 0.0  # near the subnormal numbers the edges of the bins cannot be represented
    dt = draw(st.sampled_from(["float32", "float64", "list", "int64" if kind == "ints" else "float32"]))
    if dt == "float32":
        a = a.astype(np.float32).astype(np.float64)
    if kind == "ints" and draw(st.booleans()):  # integer containers, up to their limits
        dt = draw(st.sampled_from(["int8", "uint8", "int16", "uint16", "int32"]))
        i = np.iinfo(dt)
        full = draw(st.booleans())
        a = np.clip(np.round(a / 100 * float(i.max)) if full else a, i.min, i.max)
        if full and n > 3:
            a[:2], a[2:4] = i.min, i.max  # at least two values in the end bins
    spread = float(a.max() - a.min())
    if 0 < spread < 1e-3 * float(np.abs(a).max()):  # float32 cannot hold 512 distinct bin edges
        a = np.full(n, a[0])
    shape = [n]
    if n % 2 == 0 and draw(st.booleans()):
        shape = draw(st.sampled_from([[n // 2, 2], [2, n // 2], [1, n // 2, 2]]))
    return {"a": a.reshape(shape).tolist(), "dt": dt}


def arr(c):
    a = np.array(c["a"])
    return c["a"] if c["dt"] == "list" else vary(a.astype(c["dt"]))


def round_trip(x, s, zp, lo, hi):
    q = np.clip(np.floor(x / s + zp + 0.5), lo, hi)
    return (q - zp) * s


def plain(s, zp):
    need(isinstance(s, float) and not isinstance(s, np.generic), "the scale is a plain float", got=type(s).__name__)
    need(isinstance(zp, int) and not isinstance(zp, np.generic), "the zero point is a plain int", got=type(zp).__name__)
    need(json.loads(json.dumps([s, zp])) == [s, zp], "JSON form", s=s, zp=zp)
    need(math.isfinite(s) and s > 0, "positive scale", s=s)


@st.composite
def asym(draw, large=False):
    c = draw(datasets(large=large))
    c["t"] = draw(weird_dtypes())
    return c


def check_asym(c, ctx):
    data = arr(c)
    keep = np.array(data)
    d = Distribution(data)
    q = Quantization(c["t"])
    s, zp = d.quantize(q)
    plain(s, zp)
    x = np.array(c["a"], dtype=np.float64).ravel()
    lo, hi = limits(c["t"])
    need(lo <= zp <= hi, "the zero point is a code of the type", zp=zp, t=c["t"])
    a, b = min(x.min(), 0.0), max(x.max(), 0.0)
    const = x.min() == x.max()
    span = b - a + (1.0 if const else 0.0)  # a constant has no spread of its own
    err = np.abs(round_trip(x, s, zp, lo, hi) - x)
    bound = 0.5 * s * (1 + 1e-9) + span * 2.0**-40
    need(np.all(err <= bound), "every value is within half a step", worst=float(err.max() / s), s=s, zp=zp, x=float(x[err.argmax()]))
    need(s * (hi - lo) <= span * (1 + (1e-6 if const else 1e-9)), "the range is not wider than the data and zero", s=s, span=span)
    if not const:
        need(s * (hi - lo) >= span * (1 - 1e-9), "the range covers the data and zero", s=s, span=span)
    need(np.array_equal(keep, np.array(data)), "the data were modified")
    need(d.quantize(q) == (s, zp), "second call differs")
    rev = np.array(data).ravel()[::-1]
    need(Distribution(rev).quantize(q) == (s, zp), "depends on the order of the data")
    if c["t"] == "int8":
        need(d.quantize() == (s, zp), "int8 is the default type")
    # the library's own quantizer agrees
    back = q.dequantize(q.quantize(x, zp, s), zp, s)
    need(np.all(np.abs(back - x) <= bound + 1e-12 * np.abs(x)), "round trip with the library")
    ctx.nontrivial(not const)
    ctx.label("unsigned", lo == 0)
    ctx.label("one sided", a == 0 or b == 0)


@st.composite
def forced(draw, large=False):
    c = draw(datasets(large=large))
    c["t"] = draw(st.one_of(st.sampled_from(["int8", "int8", "int16", "int32", "int4"]), st.integers(2, 32).map(lambda b: f"int{b}")))
    c["sym"] = draw(st.booleans())
    c["fs"] = draw(st.sampled_from([None, None, None, 0.5, 1e-3, 3.0]))
    return c


def check_forced(c, ctx):
    data = arr(c)
    d = Distribution(data)
    q = Quantization(c["t"])
    lo, hi = limits(c["t"])
    x = np.array(c["a"], dtype=np.float64).ravel()
    s, zp = d.quantize(q, force_zp=0, symmetric=c["sym"])
    plain(s, zp)
    need(zp == 0, "forced zero point", zp=zp)
    const = x.min() == x.max()
    m = float(np.abs(x).max())
    err = np.abs(round_trip(x, s, 0, lo, hi) - x)
    tol = m * 2.0**-40
    # an asymmetric type has one positive code less: its last value may be one step short
    limit = np.where(x > 0, 0.5 if c["sym"] else 1.0, 0.5) * s * (1 + 1e-9) + tol
    need(np.all(err <= limit), "every value is within the step", worst=float((err / s).max()), sym=c["sym"])
    steps = hi if c["sym"] else -lo
    cap = m + (0.5 if const else 0.0)
    if cap > 0:
        need(s * steps <= cap * (1 + (1e-6 if const else 1e-9)), "the range is not wider than the largest magnitude", s=s, m=m)
    if c["sym"]:
        codes = np.floor(x / s + 0.5)
        need(np.all(codes >= -hi) and np.all(codes <= hi), "symmetric codes")
    if not const and m > 0:
        need(s * steps >= m * (1 - 1e-9), "the range covers the largest magnitude")
    if c["fs"] is not None:
        s2, z2 = d.quantize(q, force_zp=0, force_s=c["fs"], symmetric=c["sym"])
        need((s2, z2) == (c["fs"], 0), "both parameters are forced", got=(s2, z2))
        s3, _ = d.quantize(q, force_s=c["fs"])
        need(s3 == c["fs"], "the scale is forced", got=s3)
    ctx.nontrivial(not const)


def check_zeros(c, ctx):
    """slices and single bins that only hold zeros have no range"""
    z = np.zeros(c["n"], dtype=c["dt"])
    d = Distribution(z, bins=1)[0:0] if c["slice"] else Distribution(z, bins=c["bins"])
    for q in ("int8", "uint8", "int16"):
        s, zp = d.quantize(Quantization(q))
        plain(s, zp)
        lo, hi = limits(q)
        need(lo <= zp <= hi, "zero point in the type")
        need(np.all(round_trip(np.zeros(1), s, zp, lo, hi) == 0), "zero is exact")
    ctx.nontrivial(c["n"] > 1)


def subs():
    zeros = st.fixed_dictionaries({"n": st.integers(1, 40), "dt": st.sampled_from(["float32", "float64"]),
                                   "slice": st.booleans(), "bins": st.sampled_from([1, 2, 512])})
    return [pairs.two(asym(), check_asym, quick=300, twist={"t": weird_dtypes()}),
            pairs.two(forced(), check_forced, quick=300, twist={"sym": st.booleans()}, name="two forced at once"),
            Sub("asymmetric", asym(), check_asym, quick=3000, thorough=60000),
        Sub("forced", forced(), check_forced, quick=2500, thorough=40000),
        Sub("large asymmetric", asym(large=True), check_asym, quick=120, thorough=2000),
        Sub("large forced", forced(large=True), check_forced, quick=100, thorough=1500),
        Sub("zeros", zeros, check_zeros, quick=120, thorough=400),
    ]
