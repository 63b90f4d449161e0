"""Shared generators. Every generated case is plain JSON data."""
import math
import zlib
from fractions import Fraction

import numpy as np
from hypothesis import strategies as st

INT_DTYPES = ["int8", "int16", "int32", "uint8", "uint16", "uint32"]


def limits(dtype):
    d = dtype.lower()
    if d.startswith("uint"):
        return 0, 2 ** int(d[4:]) - 1
    return -(2 ** (int(d[3:]) - 1)), 2 ** (int(d[3:]) - 1) - 1


def weird_dtypes(max_bits=32):
    return st.one_of(
        st.sampled_from(INT_DTYPES),
        st.sampled_from(["int8", "uint8", "int8", "int4", "uint4", "int2", "int12", "uint5", "INT8", "UInt16"]),
        st.builds(lambda u, b: f"{u}{b}", st.sampled_from(["int", "uint"]), st.integers(2, max_bits)),
    )


@st.composite
def scales(draw, lo=-7.0, hi=3.0):
    kind = draw(st.integers(0, 3))
    if kind == 0:
        e = draw(st.integers(math.ceil(lo / 0.30103), math.floor(hi / 0.30103)))
        return 2.0**e
    if kind == 1:
        cand = [c for c in (1 / 255, 1 / 256, 1 / 128, 0.1, 0.5, 1.0, 2.0, 3.0, 0.0078125, 0.00392156862745098)
                if lo <= math.log10(c) <= hi]
        if cand:
            return draw(st.sampled_from(cand))
    return 10.0 ** draw(st.floats(lo, hi, allow_nan=False, width=32))


def unit(draw):
    return draw(st.floats(-1, 1, allow_nan=False, width=32))


def int_matrix(rows, cols, lo, hi):
    return st.lists(st.lists(st.integers(lo, hi), min_size=cols, max_size=cols), min_size=rows, max_size=rows)


@st.composite
def q_value(draw, dtype):
    lo, hi = limits(dtype)
    return draw(st.one_of(st.integers(lo, hi), st.sampled_from([lo, hi, max(lo, min(hi, 0)), lo + 1, hi - 1])))


def zero_points(dtype):
    lo, hi = limits(dtype)
    mid = (lo + hi + 1) // 2
    return st.one_of(st.integers(lo, hi), st.sampled_from([lo, hi, mid, max(lo, min(hi, 0))]))


def shapes(max_dims=4, max_side=4, min_side=1):
    return st.lists(st.integers(min_side, max_side), min_size=0, max_size=max_dims)


def exact_round_half_up(t: Fraction) -> int:
    return math.floor(t + Fraction(1, 2))


def sizes(small=4, big=40):
    """mostly small sizes, sometimes larger than any power-of-two block"""
    return st.one_of(st.integers(1, small), st.integers(1, small), st.integers(1, small), st.integers(1, big))


@st.composite
def bulk_ints(draw, shape, lo, hi):
    """Integers of a given shape: element-wise for small ones, seeded for large ones.

    The JSON form is always the explicit list, so replay files are self-contained.
    """
    n = int(np.prod(shape)) if len(shape) else 1
    if n <= 24:
        extremes = st.sampled_from([lo, hi, max(lo, min(hi, 0))])
        el = st.one_of(st.integers(lo, hi), st.integers(lo, hi), extremes)
        flat = draw(st.lists(el, min_size=n, max_size=n))
        return np.array(flat, dtype=object).reshape(shape).tolist()
    seed = draw(st.integers(0, 2**31 - 1))
    kind = draw(st.sampled_from([0, 1, 2, 0, 1, 2, 3]))
    rng = np.random.RandomState(seed)
    if kind == 3:  # the largest sums
        a = np.full(shape, lo if rng.rand() < 0.4 else hi, dtype=np.int64)
    elif kind == 0:
        a = rng.randint(lo, hi + 1, size=shape, dtype=np.int64)
    elif kind == 1:  # small magnitudes around 0 / lo
        c = max(lo, min(hi, 0))
        a = np.clip(c + rng.randint(-5, 6, size=shape), lo, hi)
    else:  # extremes
        a = rng.choice(np.array([lo, hi, max(lo, min(hi, 0))], dtype=np.int64), size=shape)
    return a.tolist()


@st.composite
def bulk_floats(draw, shape, mag=1.0):
    n = int(np.prod(shape)) if len(shape) else 1
    if n <= 24:
        el = st.one_of(
            st.floats(-1, 1, allow_nan=False, width=32),
            st.floats(-1, 1, allow_nan=False, width=32),
            st.sampled_from([0.0, 1.0, -1.0, 0.5]),
        )
        flat = draw(st.lists(el, min_size=n, max_size=n))
        return (np.array(flat, dtype=np.float64).reshape(shape) * mag).tolist()
    seed = draw(st.integers(0, 2**31 - 1))
    kind = draw(st.integers(0, 2))
    rng = np.random.RandomState(seed)
    if kind == 0:
        a = rng.uniform(-1, 1, size=shape)
    elif kind == 1:
        a = rng.normal(0, 0.3, size=shape)
    else:
        a = rng.uniform(-1, 1, size=shape) * rng.choice([0, 1, 1], size=shape)
    return (a * mag).tolist()


LAYOUTS = ["C", "C", "F", "strided", "reversed", "readonly", "offset"]


def layout(a, kind):
    """an array equal to a in another memory layout (or read-only)"""
    a = np.asarray(a)
    if kind == "F":
        return np.asfortranarray(a)
    if kind == "strided":
        b = np.zeros(a.shape[:-1] + (2 * a.shape[-1],), dtype=a.dtype) if a.ndim else a.copy()
        if not a.ndim:
            return b
        b[..., ::2] = a
        return b[..., ::2]
    if kind == "reversed":
        return a[::-1].copy()[::-1] if a.ndim else a
    if kind == "offset":
        b = np.zeros((a.shape[0] + 3,) + a.shape[1:], dtype=a.dtype) if a.ndim else a.copy()
        if not a.ndim:
            return b
        b[2:-1] = a
        return b[2:-1]
    b = a.copy()
    if kind == "readonly":
        b.setflags(write=False)
    return b


def vary(a):
    """the same array in a memory layout that depends on its contents"""
    a = np.asarray(a)
    return layout(a, LAYOUTS[zlib.crc32(np.ascontiguousarray(a).tobytes()) % len(LAYOUTS)])


@st.composite
def big_shape(draw, top=4096, ndim=3):
    """a shape of 1 to ndim dimensions; sizes around powers of two and of ten, up to top elements"""
    edges = [n for k in (64, 100, 128, 200, 256, 500, 512, 1000, 1024, 2048, 4096, 10000, 16384, 32768, 65536, 100000) for n in (k - 1, k, k + 1)]
    n = draw(st.one_of(st.integers(1, 300), st.sampled_from([n for n in edges if n <= top] or [1]), st.sampled_from([n for n in edges if 900 < n <= top] or [top])))
    d = draw(st.integers(1, ndim))
    if d == 1:
        return [n]
    r = draw(st.sampled_from([1, 2, 3, 7, 16, 31, 64, 65, 129, 257, 1025]))
    r = max(1, min(r, n))
    if d == 2:
        return draw(st.sampled_from([[r, max(1, n // r)], [max(1, n // r), r]]))
    k = draw(st.integers(1, 3))
    return [k, r, max(1, n // (r * k))]
