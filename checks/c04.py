"""C04 data type names."""
import numpy as np
from hypothesis import strategies as st

from pbt import Sub, need
from pbt import pairs

from itcl_quantization import Quantization
from itcl_quantization.quantization.operators import Dtype, GenericDtype

RULE = (
    "Valid cases: (u)int with 1..96 bits in random letter case, and numpy integer types. Invalid cases: mutations of "
    "valid names (prefix, suffix, sign, blank, leading zero, unknown family, zero bits, no digits) and non-integer "
    "numpy types. Non-trivial: every case that is not one of the six documented names."
) + pairs.RULE


@st.composite
def valid(draw):
    fam = draw(st.sampled_from(["int", "uint"]))
    bits = draw(st.one_of(st.sampled_from([8, 16, 32]), st.integers(1, 96)))
    caps = draw(st.lists(st.booleans(), min_size=4, max_size=4))
    name = "".join(c.upper() if k else c for c, k in zip(fam, caps)) + str(bits)
    return {"fam": fam, "bits": bits, "name": name}


def check_valid(case, ctx):
    fam, bits, name = case["fam"], case["bits"], case["name"]
    lo = 0 if fam == "uint" else -(2 ** (bits - 1))
    hi = 2**bits - 1 if fam == "uint" else 2 ** (bits - 1) - 1
    for obj in (GenericDtype(name), Quantization(name).dtype):
        need(obj.min() == lo and obj.max() == hi, "range of the type", name=name, got=(obj.min(), obj.max()))
        need(str(obj) == f"{fam}{bits}", "canonical lower-case name", got=str(obj))
    Q = Quantization(name)
    need(Q.min_value() == lo and Q.max_value() == hi, "range of the quantization")
    need(Q.dtype_str() == f"{fam}{bits}", "name of the quantization", got=Q.dtype_str())
    R = Quantization(Q.dtype_str())
    need((R.min_value(), R.max_value(), R.dtype_str()) == (lo, hi, Q.dtype_str()), "name round trip")
    if bits in (8, 16, 32, 64):
        T = Quantization(getattr(np, f"{fam}{bits}"))
        need((T.min_value(), T.max_value(), T.dtype_str()) == (lo, hi, f"{fam}{bits}"), "numpy type agrees with its name")
        D = Dtype.from_dtype(name)
        need((int(D.min()), int(D.max()), D.bits) == (lo, hi, bits), "arithmetic type agrees with its name")
    ctx.nontrivial(name not in ("int8", "int16", "int32", "uint8", "uint16", "uint32"))


@st.composite
def invalid(draw):
    fam = draw(st.sampled_from(["int", "uint"]))
    bits = draw(st.integers(1, 64))
    k = draw(st.integers(0, 9))
    junk = draw(st.sampled_from([" ", "-", "+", "_", "x", "a1", ".", "\n", "é", "0", "u", "int"]))
    name = [
        f"{fam}0{bits}",
        f"{fam}0",
        f"{fam}-{bits}",
        f"{fam}{bits}{junk}" if junk not in ("0",) else f"{fam} {bits}",
        f"{junk}{fam}{bits}" if not (junk == "u" and fam == "int") else f"uu{fam}{bits}",
        f"{fam}",
        f"{bits}{fam}",
        f"{draw(st.sampled_from(['bool', 'float', 'Float', 'FLOAT', 'bfloat', 'complex', 'in', 'ints', 'sint', 'byte', 'q', 'unsigned', 'inte']))}{bits}",
        f"{fam}{bits}.{bits}",
        draw(st.sampled_from(["", " ", "8", "int eight", "uint", "None"])),
    ][k]
    return {"name": name}


def check_invalid(case, ctx):
    name = case["name"]
    ctx.nontrivial()
    for build in (GenericDtype, Quantization):
        try:
            obj = build(name)
        except (TypeError, ValueError, IndexError):
            continue
        need(False, "malformed data type name accepted", name=name, got=str(getattr(obj, "dtype", obj)))


def check_invalid_np(case, ctx):
    t = {"float16": np.float16, "float32": np.float32, "float64": np.float64, "bool": np.bool_,
         "complex64": np.complex64, "str": np.str_, "none": None, "list": [8], "number": 8, "pyfloat": float}[case["t"]]
    ctx.nontrivial()
    try:
        Quantization(t)
    except (TypeError, ValueError):
        return
    need(False, "non integer type accepted", t=case["t"])


def subs():
    return [pairs.two(valid(), check_valid, quick=300, twist=lambda a: valid().map(lambda b: dict(b, bits=a["bits"], name=b["name"].rstrip("0123456789") + str(a["bits"])))),
            Sub("valid", valid(), check_valid, quick=2400, thorough=20000,
            corners=[{"fam": f, "bits": b, "name": f"{f}{b}"} for f in ("int", "uint") for b in (1, 2, 4, 8, 16, 32, 64)]),
        Sub("invalid", invalid(), check_invalid, quick=2400, thorough=40000,
            corners=[{"name": n} for n in ("float16", "float32", "FLOAT32", "float8", "int22x", "int-22", "int08", "uint0", "int", "8int", " int8", "int8 ", "int 8")]),
        Sub("invalid_types", st.fixed_dictionaries({"t": st.sampled_from(
            ["float16", "float32", "float64", "bool", "complex64", "str", "none", "list", "number", "pyfloat"])}),
            check_invalid_np, quick=60, thorough=60),
    ]
