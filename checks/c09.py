"""C09 look-up activation layers index the table by code plus offset."""
import numpy as np
from hypothesis import strategies as st

from pbt import Sub, need
from pbt import pairs
from pbt.gen import LAYOUTS, big_shape, bulk_ints, layout, limits
from pbt.model import lut_node, node, op
from pbt.reuse import reuse

from itcl_quantization.quantization.lut import ReducedLUT
from itcl_inference_engine.layers.common.lut import LUTActivation
from itcl_inference_engine.layers.common.sigmoid import SigmoidLUT
from itcl_inference_engine.layers.common.tanh import TanhLUT
from itcl_inference_engine.layers.tflite.build_layer import build_layer
from itcl_inference_engine.layers.onnx.build_operator import build_operator

RULE = (
    "A case is a table (any length up to 300, or the whole range of a type with its canonical offset), an offset, the "
    "form of the table (list, reduced, or both), the operator and engine that build the layer, and an input of 1 to 4 "
    "dimensions in several integer containers. Non-trivial: the input holds at least two different codes that map to "
    "different entries. Large: inputs of up to 70000 codes in any memory layout, tables of up to 65536 entries."
) + pairs.RULE


@st.composite
def cases(draw):
    k = draw(st.integers(0, 2))
    if k == 0:
        dtype = draw(st.sampled_from(["int8", "uint8", "int4", "uint4", "int10", "uint9"]))
        lo, hi = limits(dtype)
        n, off = hi - lo + 1, -lo
        cont = draw(st.sampled_from(["int64", "int32", "native"]))
    else:
        dtype, n = "int64", draw(st.integers(1, 300))
        off = draw(st.one_of(st.sampled_from([0, 0, 128]), st.integers(-200, 400)))
        # any container that holds all the codes
        cont = draw(st.sampled_from([k for k in ("int8", "uint8", "int16", "uint16", "int32", "uint32", "int64") if np.iinfo(k).min <= -off and n - 1 - off <= np.iinfo(k).max]))
    runs = draw(st.booleans())
    if runs:  # long flat tails, so that the reduction prunes
        m = min(n, 40)
        mid = draw(bulk_ints((m,), -128, 127))
        h = draw(st.integers(0, n - m))
        table = [mid[0]] * h + mid + [mid[-1]] * (n - m - h)
    else:
        table = draw(bulk_ints((n,), -128, 127))
    shape = draw(st.one_of(st.lists(st.integers(1, 4), min_size=1, max_size=4), st.just([2, 300]), st.just([257])))
    idx = draw(bulk_ints(tuple(shape), 0, n - 1))
    return {"dtype": dtype, "table": table, "off": off, "idx": idx, "cont": cont,
            "form": draw(st.sampled_from(["list", "reduced", "both"])), "depth": draw(st.integers(0, 5)),
            "asym": draw(st.booleans()),
            "how": draw(st.sampled_from(["ctor", "node", "SIGMOIDLUT", "TANHLUT", "sigmoidlut", "TanhLut", "onnxSigmoidLUT", "onnxTanhLUT", "cls"]))}


@st.composite
def big_cases(draw):
    c = {"dtype": draw(st.sampled_from(["int8", "uint8", "int16", "uint16", "int12", "int64"])), "seed": draw(st.integers(0, 2**31 - 1)),
         "shape": draw(big_shape(70000)), "layout": draw(st.sampled_from(LAYOUTS)), "bits": draw(st.sampled_from([8, 8, 16, 31])),
         "form": draw(st.sampled_from(["list", "list", "both", "reduced"])), "depth": draw(st.integers(0, 12)), "asym": draw(st.booleans()),
         "cont": draw(st.sampled_from(["int64", "int32", "native"])), "flat": draw(st.floats(0, 0.5)),
         "how": draw(st.sampled_from(["node", "SIGMOIDLUT", "TANHLUT", "onnxSigmoidLUT", "onnxTanhLUT"]))}
    if c["form"] != "list":  # look-ups one by one
        c["shape"] = draw(big_shape(2100))
        c["dtype"] = draw(st.sampled_from(["int8", "uint8", "int12", "int64"]))
    return c


def check_big(c, ctx):
    rng = np.random.RandomState(c["seed"])
    if c["dtype"] == "int64":
        n, off = int(rng.randint(1, rng.choice([5000, 70000]))), int(rng.randint(-5000, 5000))
    else:
        lo, hi = limits(c["dtype"])
        n, off = hi - lo + 1, -lo
    top = 2 ** (c["bits"] - 1)
    table = rng.randint(-top, top, size=n)
    h = int(n * c["flat"])
    table[:h] = table[0]
    table[n - h:] = table[-1]
    idx = rng.randint(0, n, size=c["shape"])
    idx.ravel()[rng.randint(idx.size)] = n - 1
    idx.ravel()[rng.randint(idx.size)] = 0
    x = (idx - off).astype({"int12": "int16"}.get(c["dtype"], c["dtype"]) if c["cont"] == "native" else c["cont"])
    run(dict(c, table=table.tolist(), off=off), idx, layout(x, c["layout"]), ctx)
    ctx.label("large", idx.size >= 1000)


def native(dtype):
    return {"int4": "int8", "uint4": "uint8", "int10": "int16", "uint9": "uint16"}.get(dtype, dtype)


def check(case, ctx):
    idx = np.array(case["idx"], dtype=np.int64)
    x = (idx - case["off"]).astype(native(case["dtype"]) if case["cont"] == "native" else case["cont"])
    run(case, idx, x, ctx)


def run(case, idx, x, ctx):
    table, off = case["table"], case["off"]
    want = np.array(table)[idx]
    red = ReducedLUT(list(table), case["depth"], 0, case["asym"]).serialize() if case["form"] != "list" else None
    nd = lut_node(table, off, red, drop=case["form"] == "reduced")
    how = case["how"]
    if how == "ctor":
        layer = LUTActivation(ReducedLUT.deserialize(red) if red else list(table), off)
    elif how == "node":
        layer = LUTActivation.from_node(nd)
    elif how == "cls":
        layer = (SigmoidLUT if len(table) % 2 else TanhLUT).from_model(op("X", [nd], [node()]))
    elif how.startswith("onnx"):
        layer = build_operator(op(how[4:], [nd], [node()]))
    else:
        layer = build_layer(op(how, [nd], [node()]))
    keep = x.copy()
    got = np.asarray(layer.infer(x))
    need(got.shape == x.shape, "shape is kept", got=got.shape)
    need(np.array_equal(got, want), "entry at code + offset", got=got.ravel()[:20], want=want.ravel()[:20])
    need(np.array_equal(keep, x) and x.dtype == keep.dtype, "input mutated")
    rev = np.asarray(layer.infer(x.ravel()[::-1].copy()))
    need(np.array_equal(rev, want.ravel()[::-1]), "second call in another order and shape")
    reuse(layer.infer, x, (want, want))
    ctx.nontrivial(len(set(want.ravel().tolist())) >= 2)
    ctx.label("reduced", red is not None)


def check_missing(case, ctx):
    nd = node(0.1, 0)
    ctx.nontrivial()
    for fn in (lambda: LUTActivation.from_node(nd), lambda: build_layer(op(case["t"], [nd], [node()])),
               lambda: LUTActivation.from_model(op("T", [None], []))):
        try:
            fn()
        except ValueError:
            continue
        need(False, "a look-up operator without table is rejected")


def subs():
    return [pairs.two(cases(), check, quick=600, twist={"table": "reverse", "idx": "reverse", "form": st.sampled_from(["list", "reduced", "both"]), "depth": st.integers(0, 5), "asym": st.booleans()}),
            Sub("large", big_cases(), check_big, quick=500, thorough=6000),
        Sub("lookup", cases(), check, quick=5000, thorough=80000),
        Sub("missing", st.fixed_dictionaries({"t": st.sampled_from(["TANHLUT", "SIGMOIDLUT"])}), check_missing, quick=6, thorough=6),
    ]
