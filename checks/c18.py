"""C18 the integer-only multiplier approximates multiplication by its factor."""
import math
from fractions import Fraction

import numpy as np
from hypothesis import strategies as st

from pbt import Sub, need
from pbt import pairs
from pbt.gen import LAYOUTS, big_shape, layout

from itcl_inference_engine.util.floating import FloatingIntegerApprox

RULE = (
    "A case is a factor between 2^-31 and 2^29 (powers of two, their neighbours, decimals) and integers up to 2^31 in "
    "magnitude, as a Python int, and as numpy scalars, vectors or matrices in containers of 8 to 64 bits. Non-trivial: the exact product is not an integer."
) + pairs.RULE
ASSUMPTIONS = ["operands of at most 32 bits: |x| up to 2^32"]


CONT = ["int64", "int64", "int32", "int32", "int16", "int8", "uint8", "uint16", "uint32"]


def hold(xs, cont):
    """the integers in a container that can hold them"""
    i = np.iinfo(cont)
    return np.array([min(max(x, i.min), i.max) for x in xs], dtype=cont)


@st.composite
def cases(draw):
    k = draw(st.integers(0, 4))
    e = draw(st.integers(-30, 28))
    if k == 0:
        f = 2.0**e
    elif k == 1:
        f = math.nextafter(2.0**e, draw(st.sampled_from([0.0, math.inf])))
    elif k == 4:
        m = draw(st.one_of(st.sampled_from([3, 5, 7, 1000, 999999]), st.integers(3, 2**31 - 1)))
        f = m * 2.0 ** (e - m.bit_length() + 1)
    elif k == 2:
        f = 2.0**e * (2 - 2.0 ** -draw(st.integers(28, 52)))
    else:
        f = 10.0 ** draw(st.floats(-9, 8.4))
    xs = draw(st.lists(st.one_of(st.integers(-(2**31), 2**31 - 1), st.integers(-300, 300), st.sampled_from([0, 1, -1, 2**31 - 1, -(2**31)])),
                       min_size=1, max_size=6))
    return {"f": f, "xs": xs, "form": draw(st.sampled_from(["int", "vec", "mat", "vec", "scalar"])), "cont": draw(st.sampled_from(CONT))}


def fits(f):
    """the significand fits in the 31 bits of the multiplier: the product is exact"""
    return math.ldexp(math.frexp(f)[0], 31).is_integer()


@st.composite
def big_cases(draw):
    c = draw(cases())
    del c["xs"]
    c.update(shape=draw(big_shape(20000, 3)), seed=draw(st.integers(0, 2**31 - 1)), layout=draw(st.sampled_from(LAYOUTS)), mag=draw(st.integers(1, 31)))
    return c


def check_big(c, ctx):
    f = c["f"]
    m = FloatingIntegerApprox(f, integer_only=True)
    x = np.random.RandomState(c["seed"]).randint(-(2 ** c["mag"]), 2 ** c["mag"], size=c["shape"], dtype=np.int64)
    lo, hi = (np.iinfo(c["cont"]).min, np.iinfo(c["cont"]).max)
    x = x.clip(lo, hi)
    a = layout(x.astype(c["cont"]), c["layout"])
    r = m * a
    need(r.shape == x.shape and np.issubdtype(r.dtype, np.integer), "shape and integer result", got=r.dtype)
    need(np.array_equal(a, x), "operand mutated")
    exact = x.astype(np.longdouble) * np.longdouble(f)
    tol = 0.5 + np.abs(exact) * (2.0**-31 + 2.0**-60)
    need(bool(np.all(np.abs(r - exact) <= tol)), "within half a unit (and 31-bit factor precision) of the product", f=f)
    if fits(f):
        need(bool(np.all(r == np.floor(exact + 0.5))), "factors of at most 31 bits round half up", f=f)
    o = np.argsort(x, axis=None)
    need(bool(np.all(np.diff(r.ravel()[o]) >= 0)), "monotone in the operand")
    k = x.ravel()[:: max(1, x.size // 50)].tolist()
    need([m * v for v in k] == r.ravel()[:: max(1, x.size // 50)].tolist(), "equal for an integer and for an element of an array")
    ctx.nontrivial(bool(np.any(exact != np.floor(exact))))


def check(c, ctx):
    f, xs = c["f"], c["xs"]
    m = FloatingIntegerApprox(f, integer_only=True)
    if c["form"] == "int":
        got = [m * x for x in xs]
        need(all(type(g) is int for g in got), "an integer times the factor is an integer")
    elif c["form"] == "scalar":
        a = hold(xs, c["cont"])
        xs = a.tolist()
        got = [m * x for x in a]
        need(all(isinstance(g, (int, np.integer)) for g in got), "an integer times the factor is an integer")
        got = [int(g) for g in got]
    else:
        a = hold(xs, c["cont"])
        xs = a.tolist()
        a = a.reshape(1, -1) if c["form"] == "mat" else a
        keep = a.copy()
        r = m * a
        need(r.shape == a.shape and np.issubdtype(r.dtype, np.integer), "shape and integer result", got=r.dtype)
        need(np.array_equal(keep, a), "operand mutated")
        got = r.ravel().tolist()
    F = Fraction(f)
    for x, g in zip(xs, got):
        exact = x * F
        tol = Fraction(1, 2) + abs(exact) * Fraction(1, 2**31)
        need(abs(g - exact) <= tol, "within half a unit (and 31-bit factor precision) of the product", x=x, f=f, got=g, want=float(exact))
        if fits(f):
            need(g == math.floor(exact + Fraction(1, 2)), "factors of at most 31 bits round half up", x=x, f=f, got=g)
        ctx.nontrivial(exact.denominator != 1)
    by_x = sorted(zip(xs, got))
    need(all(a[1] <= b[1] for a, b in zip(by_x, by_x[1:])), "monotone in the operand")
    fl = FloatingIntegerApprox(f, integer_only=False)
    need(all(fl * x == x * f for x in xs), "without integer-only arithmetic the product is the float product")


def subs():
    return [pairs.two(cases(), check, quick=600, twist={"xs": "reverse", "f": st.integers(-20, 20).map(lambda e: 2.0**e * 1.3)}),
            Sub("large", big_cases(), check_big, quick=600, thorough=8000), Sub("multiplier", cases(), check, quick=8000, thorough=150000)]
