"""C06 a reduced look-up table answers exactly like the original table."""
import numpy as np
from hypothesis import strategies as st

from pbt import Sub, need
from pbt import pairs

from itcl_quantization.quantization.lut import ReducedLUT
from itcl_quantization import Quantization

RULE = (
    "A case is a table given as runs of equal values (constant, monotone, repeating, bumpy, without flat tails, empty) "
    "or tabulated from an activation, a depth of 0..8, symmetric or asymmetric, minimum reduction. Every index is "
    "compared. Large: tables of up to 5000 entries (runs: 70000) of up to 31 bits, depth up to 40. Non-trivial: at least one entry was pruned and at least two distinct values."
) + pairs.RULE


@st.composite
def tables(draw):
    k = draw(st.integers(0, 3))
    if k <= 1:
        runs = draw(st.lists(st.tuples(st.integers(-4, 4), st.integers(1, 6)), min_size=0, max_size=12))
    elif k == 2:
        runs = draw(st.lists(st.tuples(st.integers(0, 255), st.sampled_from([1, 1, 1, 2, 30])), min_size=1, max_size=40))
    else:
        v, runs = -128, []
        for _ in range(draw(st.integers(1, 20))):
            runs.append([v, draw(st.integers(1, 5))])
            v += draw(st.integers(0, 3))
    return {"runs": [list(r) for r in runs]}


@st.composite
def cases(draw):
    t = draw(tables())
    t.update(depth=draw(st.sampled_from([0, 1, 2, 3, 3, 4, 5, 8, 100])), asym=draw(st.booleans()),
             minr=draw(st.sampled_from([0, 0, 1, 2])))
    return t


def expand(case):
    return [v for v, n in case["runs"] for _ in range(n)]


def runs_of(lut, depth):
    """lengths of the first `depth` runs of equal entries"""
    out = []
    for k, v in enumerate(lut):
        if k and v == lut[k - 1]:
            out[-1] += 1
        elif len(out) == depth:
            break
        else:
            out.append(1)
    return out


def verify(lut, r, ctx, depth, minr=0):
    got = [r[i] for i in range(len(lut))]
    need(got == lut, "reduced table equals the table at every index", lut=lut, got=got)
    need(list(r) == lut, "iteration yields the table", got=list(r), want=lut)
    need([r[i] for i in range(len(lut) - 1, -1, -1)] == lut[::-1], "lookups are independent of their order")
    s = r.serialize()
    need(s["reduced_lut_len"] == len(s["reduced_lut"]) <= len(lut), "length of the reduced part")
    for side in ("head", "tail"):
        need(s[side]["tuples_len"] == len(s[side]["tuples"]), "number of intervals of a side")
        need(0 <= s[side]["shift"] <= len(lut), "pruned entries of a side")
        if depth >= 1:
            need(s[side]["tuples_len"] <= depth, "a side prunes at most depth values", depth=depth, got=s[side])
    if depth >= 1 and minr <= 1:
        head = runs_of(lut, depth)
        rest = lut[sum(head):] if r.asymmetric else lut
        for side, want in (("head", head), ("tail", runs_of(rest[::-1], depth))):
            need((s[side]["tuples_len"], s[side]["shift"]) == (len(want), sum(want)), f"the {side} prunes the runs of the outermost values",
                 got=(s[side]["tuples_len"], s[side]["shift"]), want=(len(want), sum(want)))
    ctx.nontrivial(s["reduced_lut_len"] < len(lut) and len(set(lut)) > 1)


def check(case, ctx):
    lut = expand(case)
    source = list(lut)
    r = ReducedLUT(source, case["depth"], case["minr"], case["asym"])
    need(source == lut, "source table mutated")
    source[:] = [v + 1 for v in source[:-1]]
    verify(lut, r, ctx, case["depth"], case["minr"])
    ctx.label("asymmetric", case["asym"])


def check_activation(case, ctx):
    q = Quantization(case["dtype"])
    fn = {"tanh": np.tanh, "sigmoid": lambda x: 1 / (1 + np.exp(-x)), "cos": np.cos, "relu": lambda x: max(x, 0.0)}[case["fn"]]
    lut = q.create_LUT(fn, case["in_s"], case["in_zp"], 1 / 128, 0)
    verify(lut, ReducedLUT(list(lut), case["depth"], 0, case["asym"]), ctx, case["depth"])


@st.composite
def big_cases(draw):
    return {"n": draw(st.one_of(st.integers(1, 600), st.sampled_from([255, 256, 257, 1023, 1024, 1025, 2048, 4096, 5000]))),
            "seed": draw(st.integers(0, 2**31 - 1)), "kind": draw(st.sampled_from(["s", "s", "bumps", "random", "wide", "float tails", "long runs"])),
            "cuts": sorted(draw(st.lists(st.integers(1, 70000), min_size=1, max_size=5))),
            "bits": draw(st.sampled_from([4, 8, 16, 31])), "flat": draw(st.floats(0, 0.6)), "depth": draw(st.integers(0, 40)), "asym": draw(st.booleans()),
            "minr": draw(st.sampled_from([0, 1, 5]))}


def big_table(c):
    rng = np.random.RandomState(c["seed"])
    n, top = c["n"], 2 ** (c["bits"] - 1)
    if c["kind"] == "s":
        v = np.tanh(np.linspace(-6 * c["flat"], 6, n)) * (top - 1)
    elif c["kind"] == "bumps":
        v = np.cumsum(rng.randint(-2, 3, size=n) * (rng.uniform(size=n) > c["flat"]))
    elif c["kind"] == "random":
        v = rng.randint(-top, top, size=n)
    elif c["kind"] == "wide":
        v = np.repeat(rng.randint(-top, top, size=n), rng.randint(1, 9, size=n))[:n]
    elif c["kind"] == "long runs":  # as a table of 16 bit codes with saturated tails
        v = np.repeat(rng.randint(-top, top, size=len(c["cuts"])), np.diff([0] + c["cuts"]))
    else:
        h = int(n * c["flat"])
        v = np.concatenate([np.full(h, -top), np.sort(rng.randint(-top, top, size=n - h))])
    return [int(x) for x in v]


def check_big(c, ctx):
    lut = big_table(c)
    source = list(lut)
    r = ReducedLUT(source, c["depth"], c["minr"], c["asym"])
    need(source == lut, "source table mutated")
    order = np.random.RandomState(c["seed"]).randint(0, len(lut), size=min(len(lut), 300)).tolist()
    need([r[i] for i in order] == [lut[i] for i in order], "lookups in random order")
    verify(lut, r, ctx, c["depth"], c["minr"])


def subs():
    act = st.fixed_dictionaries({
        "dtype": st.sampled_from(["int8", "uint8", "int6"]), "fn": st.sampled_from(["tanh", "sigmoid", "cos", "relu"]),
        "in_s": st.sampled_from([0.01, 0.03, 0.05, 0.0588, 0.1, 0.5, 1.0]), "in_zp": st.integers(-40, 40),
        "depth": st.integers(0, 6), "asym": st.booleans()})
    return [pairs.two(cases(), check, quick=600, twist={"runs": "reverse", "depth": st.integers(0, 5), "minr": st.integers(0, 2), "asym": st.booleans()}),
            Sub("large", big_cases(), check_big, quick=700, thorough=9000),
        Sub("runs", cases(), check, quick=6000, thorough=120000, corners=[
            {"runs": [[0, 2], [1, 1], [2, 1], [3, 1], [4, 2], [5, 2]], "depth": 2, "asym": True, "minr": 0},
            {"runs": [], "depth": 3, "asym": False, "minr": 0},
            {"runs": [], "depth": 3, "asym": True, "minr": 0},
            {"runs": [[7, 9]], "depth": 1, "asym": True, "minr": 0},
            {"runs": [[7, 9]], "depth": 0, "asym": False, "minr": 0},
        ]),
        Sub("activations", act, check_activation, quick=600, thorough=6000),
    ]
