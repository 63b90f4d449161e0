"""C07 a reduced look-up table survives its JSON form."""
import json

from hypothesis import strategies as st

from pbt import Sub, need
from pbt import pairs
from itcl_quantization.quantization.lut import ReducedLUT
from itcl_inference_engine.layers.common.lut import LUTActivation
import numpy as np

from checks.c06 import big_cases, big_table, cases, expand

RULE = (
    "Tables as in C06; the reduced table is serialized, written as JSON text, parsed, deserialized, compared at every "
    "index and by iteration, serialized again (second generation), and used through the look-up layer. Non-trivial: the "
    "table has at least two distinct values and a non-empty pruned side."
) + pairs.RULE


def check(case, ctx):
    lut = expand(case) if "runs" in case else big_table(case)
    orig = ReducedLUT(list(lut), case["depth"], case["minr"], case["asym"])
    text = json.dumps(orig.serialize())
    doc = json.loads(text)
    need(doc["reduced_lut_len"] == len(doc["reduced_lut"]) and all(doc[k]["tuples_len"] == len(doc[k]["tuples"]) for k in ("head", "tail")), "lengths of the lists", got=doc)
    r = ReducedLUT.deserialize(doc)
    need([r[i] for i in range(len(lut))] == lut, "deserialized table equals the table at every index", lut=lut)
    need(list(r) == lut, "iterating a deserialized table yields the table", got=list(r), want=lut)
    second = json.dumps(r.serialize())
    need(json.loads(second) == json.loads(text), "serializing again gives the same document", got=second, want=text)
    need(doc == json.loads(text), "loading changes the document", got=doc)
    need(list(ReducedLUT.deserialize(doc)) == lut, "a document loaded twice")
    r2 = ReducedLUT.deserialize(json.loads(second))
    need(list(r2) == lut, "second generation")
    # the original object is untouched and independent
    need(list(orig) == lut, "serializing leaves the original usable")
    if lut:
        off = case.get("off", 0)
        layer = LUTActivation.from_node({"LUT": {"LUT": [], "reduced_LUT": json.loads(text), "offset": off},
                                         "scale": None, "zero_point": None, "tensor": None})
        x = np.arange(len(lut)) - off
        need(np.asarray(layer.infer(x)).tolist() == lut, "look-up layer over the reduced table", off=off)
    s = json.loads(text)
    ctx.nontrivial(len(set(lut)) > 1 and (s["head"]["shift"] > 0 or s["tail"]["shift"] > 0))
    ctx.label("asymmetric", case["asym"])


@st.composite
def with_offset(draw):
    c = draw(cases())
    c["off"] = draw(st.sampled_from([0, 0, 128, 3, -5]))
    return c


@st.composite
def big_with_offset(draw):
    c = draw(big_cases())
    c["off"] = draw(st.sampled_from([0, 128, 300, 4096, 32768]))
    return c


def subs():
    return [pairs.two(with_offset(), check, quick=900, twist={"runs": lambda c: st.integers(1, 9).map(lambda k: [[v + k, n] for v, n in c["runs"]]), "depth": st.integers(0, 5), "minr": st.integers(0, 2), "asym": st.booleans(), "off": st.integers(-5, 130)}),
            Sub("large", big_with_offset(), check, quick=600, thorough=8000), Sub("json", with_offset(), check, quick=6000, thorough=100000, corners=[
        {"runs": [[0, 2], [1, 1], [2, 1], [3, 1], [4, 2], [5, 2]], "depth": 2, "asym": True, "minr": 0, "off": 0},
        {"runs": [[3, 5]], "depth": 3, "asym": False, "minr": 1, "off": 0},
    ])]
