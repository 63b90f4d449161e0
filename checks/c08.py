"""C08 typed integer arithmetic is exact and never overflows its result type."""
import numpy as np
from hypothesis import strategies as st

from pbt import Sub, need
from pbt import pairs
from pbt.gen import limits, vary

from itcl_quantization.quantization import operators
from itcl_quantization.quantization.operators import Dtype
from itcl_inference_engine.util import quantization as engine

RULE = (
    "A case is two typed operands of equal signedness and 8..32 bits (possibly different widths; numbers, vectors and matrices), an "
    "operator, optionally a plain integer right operand of an addition, or a left-to-right chain of operators. "
    "Helpers: the sums and products of two 8, 16 or 32 bit operands. Non-trivial: the exact result does not fit the narrower operand's type (widening is required)."
) + pairs.RULE


def val(dtype):
    lo, hi = limits(dtype)
    return st.one_of(st.integers(lo, hi), st.sampled_from([lo, hi, 0, 1, hi - 1, lo + 1]), st.integers(max(lo, -3), 3))


@st.composite
def cases(draw):
    fam = draw(st.sampled_from(["int", "uint"]))
    ta = fam + str(draw(st.sampled_from([8, 16, 32])))
    tb = fam + str(draw(st.sampled_from([8, 16, 32])))
    n = draw(st.sampled_from([0, 0, 1, 2, 4, 6, 17]))
    m = n if draw(st.booleans()) or n == 0 else draw(st.sampled_from([0, n]))

    def operand(t, k):
        return draw(val(t)) if k == 0 else draw(st.lists(val(t), min_size=k, max_size=k))

    op = draw(st.sampled_from(["+", "-", "*"]))
    swap = fam == "uint" and op == "-"
    lit = op == "+" and draw(st.integers(0, 4)) == 0
    a, b = operand(ta, n), operand(ta if lit else tb, m)
    if swap:  # differences of unsigned integers that are not negative
        low = min(a) if isinstance(a, list) else a
        b = [min(v, low) for v in b] if isinstance(b, list) else min(b, low)
    return {"ta": ta, "tb": ta if lit else tb, "a": a, "b": b, "op": op, "lit": lit,
            "dims": draw(st.sampled_from([None, [2, 3], [1, 6], [3, 1, 2]])) if n == 6 else None,
            "caps": draw(st.booleans()), "obj": draw(st.sampled_from(["str", "type"]))}


OPS = {"+": lambda x, y: x + y, "-": lambda x, y: x - y, "*": lambda x, y: x * y}


def shaped(v, case):
    """vectors as matrices, in some memory layout"""
    return vary(v.reshape(case.get("dims") or v.shape))


def mk(v, t, case):
    a = shaped(np.array(v, dtype=t), case) if isinstance(v, list) else v
    if case["obj"] == "type":
        return Dtype(a, np.dtype(t))
    return Dtype(a, t.upper() if case["caps"] else t)


def exact(op, a, b):
    av, bv = (a if isinstance(a, list) else [a]), (b if isinstance(b, list) else [b])
    if len(av) == 1 and not isinstance(a, list):
        av = av * len(bv)
    if len(bv) == 1 and not isinstance(b, list):
        bv = bv * len(av)
    return [OPS[op](x, y) for x, y in zip(av, bv)]


def check(case, ctx):
    op, ta, tb = case["op"], case["ta"], case["tb"]
    want = exact(op, case["a"], case["b"])
    if ta[0] == "u" and any(w < 0 for w in want):
        return  # an unsigned difference below zero has no unsigned representation
    a = mk(case["a"], ta, case)
    b = (case["b"] if not isinstance(case["b"], list) else shaped(np.array(case["b"], dtype=tb), case)) if case["lit"] else mk(case["b"], tb, case)
    r = OPS[op](a, b)
    verify(r, want, len(case.get("dims") or [1]) if isinstance(case["a"], list) or isinstance(case["b"], list) else 0)
    bits = max(a.bits, a.bits if case["lit"] else b.bits)
    rname = str(np.dtype(r.dtype))
    need(rname.startswith("uint") == ta.startswith("uint"), "signedness is kept", got=rname)
    need(r.bits in (bits, 2 * bits), "the result is as wide as the wider operand or twice", got=rname)
    lo, hi = limits(ta)
    need(not all(lo <= w <= hi for w in want) or r.bits == bits, "no widening when the result fits the left operand", got=rname)
    need(np.array_equal(np.array(a.value).ravel(), np.array(case["a"]).ravel()), "left operand mutated")
    need(np.array_equal(np.array(b if case["lit"] else b.value).ravel(), np.array(case["b"]).ravel()), "right operand mutated")
    ctx.nontrivial(any(not (lo <= w <= hi) for w in want))


def verify(r, want, rank):
    got = np.array(r.value).ravel().tolist()
    need([int(g) for g in got] == want, "exact result", got=got, want=want)
    need(np.array(r.value).ndim == rank, "rank of the result")
    lo, hi = int(r.min()), int(r.max())
    need(all(lo <= w <= hi for w in want), "the result type holds the result", type=str(r), want=want)


@st.composite
def chains(draw):
    fam = draw(st.sampled_from(["int", "uint"]))
    n = draw(st.sampled_from([0, 0, 1, 3, 6]))  # 0: numbers
    dims = draw(st.sampled_from([None, [2, 3], [6, 1]])) if n == 6 else None

    def values(t, scalar=False):
        return draw(val(t)) if n == 0 or scalar else draw(st.lists(val(t), min_size=n, max_size=n))

    first = values(fam + "8")
    steps, acc = [], first
    for _ in range(draw(st.integers(1, 6))):
        t = fam + draw(st.sampled_from(["8", "8", "16"]))
        o, v = draw(st.sampled_from(["+", "-", "*"])), values(t, draw(st.booleans()))
        if fam == "uint" and o == "-":
            v = [min(x, y) for x, y in zip(v, acc)] if isinstance(v, list) else min(v, min(acc) if n else acc)
        acc = exact(o, acc, v) if n else OPS[o](acc, v)
        steps.append([o, t, v])
    return {"fam": fam, "first": first, "steps": steps, "dims": dims, "obj": "str", "caps": False}


def check_chain(case, ctx):
    cur, acc = mk(case["first"], case["fam"] + "8", case), case["first"]
    rank = len(case["dims"] or [1]) if isinstance(acc, list) else 0
    for op, t, v in case["steps"]:
        nxt = exact(op, acc, v)
        if cur.bits > 32 or (case["fam"] == "uint" and min(nxt) < 0):
            return
        cur, acc = OPS[op](cur, mk(v, t, case)), nxt if rank else nxt[0]
        verify(cur, nxt, rank)
        ctx.nontrivial(cur.bits > 16)


@st.composite
def vectors(draw):
    fam = draw(st.sampled_from(["int", "uint"]))
    return {"fam": fam, "ta": draw(st.sampled_from([8, 16, 32])), "tb": draw(st.sampled_from([8, 16, 32])), "n": draw(st.sampled_from([100, 256, 300, 1000, 1025, 5000])),
            "op": draw(st.sampled_from("+-*")), "seed": draw(st.integers(0, 2**31 - 1)), "which": draw(st.sampled_from(["both", "left", "right"])),
            "mag": draw(st.sampled_from([1.0, 0.5, 1e-2, 1e-4])), "spike": draw(st.booleans()), "rank": draw(st.integers(1, 3))}


def check_vectors(c, ctx):
    ta, tb = c["fam"] + str(c["ta"]), c["fam"] + str(c["tb"])
    rng = np.random.RandomState(c["seed"])

    def values(t):
        lo, hi = limits(t)
        v = rng.randint(int(lo * c["mag"]), int(hi * c["mag"]) + 1, size=c["n"], dtype=np.int64)
        if c["spike"]:  # one extreme element decides the type of the result
            v[rng.randint(c["n"])] = lo if rng.randint(2) else hi
        return v.tolist()

    a, b = values(ta), values(tb)
    if c["which"] == "left":
        b = b[0]
    if c["which"] == "right":
        a = a[0]
    if c["fam"] == "uint" and c["op"] == "-" and c["which"] == "both":
        b = [min(x, y) for x, y in zip(a, b)]
    elif c["fam"] == "uint" and c["op"] == "-":
        a, b = (a, min(b, min(a))) if c["which"] == "left" else (a, [min(a, y) for y in b])
    check({"ta": ta, "tb": tb, "a": a, "b": b, "op": c["op"], "lit": False, "caps": False, "obj": "str",
           "dims": {1: None, 2: [-1, 2], 3: [2, -1, 2]}[c["rank"] if c["n"] % 4 == 0 else 1]}, ctx)


@st.composite
def helper_case(draw):
    bits = draw(st.sampled_from([8, 16, 32]))
    n, m = draw(st.sampled_from([(0, 0), (0, 3), (3, 0), (4, 4), (1, 1)]))
    v = val(f"int{bits}")
    return {"bits": bits, "a": draw(st.lists(v, min_size=n, max_size=n)) if n else draw(v), "b": draw(st.lists(v, min_size=m, max_size=m)) if m else draw(v),
            "op": draw(st.sampled_from(["addition", "multiplication"])), "held": draw(st.sampled_from(["own", "own", "int64", "python"])), "engine": draw(st.booleans())}


def check_helper(c, ctx):
    """the helpers for operands of 8, 16 and 32 bits"""
    fn = getattr(engine if c["engine"] else operators, f"int{c['bits']}_{c['op']}")
    a, b = [v if c["held"] == "python" else np.array(v, dtype=f"int{c['bits']}" if c["held"] == "own" else "int64") if isinstance(v, list)
            else np.dtype(f"int{c['bits']}" if c["held"] == "own" else "int64").type(v) for v in (c["a"], c["b"])]
    r = np.asarray(fn(a, b))
    want = exact("+" if c["op"] == "addition" else "*", c["a"], c["b"])
    need(r.dtype == np.dtype(f"int{2 * c['bits']}"), "the result has twice the width", got=r.dtype)
    need([int(v) for v in r.ravel()] == want, "exact result", got=r, want=want)
    for v, k in ((a, "a"), (b, "b")):
        need(np.array_equal(np.array(v), np.array(c[k])), "operand mutated")
    lo, hi = limits(f"int{c['bits']}")
    ctx.nontrivial(any(not lo <= w <= hi for w in want))


def subs():
    return [pairs.two(cases(), check, quick=600),
            Sub("vectors", vectors(), check_vectors, quick=900, thorough=15000),
        Sub("binary", cases(), check, quick=6000, thorough=120000),
        Sub("helpers", helper_case(), check_helper, quick=600, thorough=10000),
        Sub("chain", chains(), check_chain, quick=1500, thorough=30000),
    ]
