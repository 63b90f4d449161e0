"""C29 tflite2json: the document holds every tensor and parameter of the TFLite model and runs like it."""
import contextlib
import io
import json
import os
import tempfile
from types import SimpleNamespace as NS

import numpy as np
import tensorflow.lite as tfl
import tflite
import yaml
from hypothesis import strategies as st

from pbt import Sub, need
from pbt.gen import bulk_floats, bulk_ints, limits, scales
from pbt.model import fc_op, node as jnode, op as jop, quantize_iv, sigmoid, within
from pbt.refs import expand, expect

from itcl_tflite2json import convert
from itcl_tflite2json import _tflite2json
from itcl_inference_engine.layers.tflite.build_layer import build_layer
from itcl_inference_engine.network.sequential import SequentialNetwork

RULE = (
    "A case is a TFLite model (flatbuffer look-alike) with random tensors (types, shapes, contents, quantization), buffers, "
    "operator codes and operators, or a chain of int8 operators as the TFLite converter emits it. The written JSON file is "
    "compared tensor by tensor with the model, tables with the activation, and chains are run in the engine against the "
    "TFLite formulas. Non-trivial: an operator with constants or a table."
)
ASSUMPTIONS = ["the tflite reader and interpreter are stand-ins over generated models"]

with open(os.path.join(os.path.dirname(_tflite2json.__file__), "settings.yaml")) as _f:
    DEPTH = yaml.safe_load(_f)["settings"]["lut"]["lut_depth"]
CODES = {"QUANTIZE": 114, "DEQUANTIZE": 6, "FULLY_CONNECTED": 9, "TANH": 28, "LOGISTIC": 14, "SOFTMAX": 25, "RELU": 19, "ADD": 0, "RESHAPE": 22, "PAD": 34, "MEAN": 40, "HARD_SWISH": 117, "BATCH_MATMUL": 126, "HASHTABLE": 136, "VAR_HANDLE": 142, "GELU": 150}
TYPES = {"INT8": (9, np.int8), "FLOAT32": (0, np.float32), "INT32": (2, np.int32), "UINT8": (3, np.uint8), "INT16": (7, np.int16), "INT64": (4, np.int64), "FLOAT16": (1, np.float16),
         "FLOAT64": (10, np.float64), "UINT32": (15, np.uint32), "UINT16": (16, np.uint16)}
DIRECT = {"s": 1.0, "zp": 0}


@st.composite
def quant(draw):
    return [draw(st.one_of(st.sampled_from([0.01, 1 / 128, 0.05]), scales(-4, 0))), draw(st.integers(-128, 127))]


@st.composite
def values(draw, shape, dtype):
    if dtype.startswith("FLOAT"):
        return np.array(draw(bulk_floats(tuple(shape), 3.0)), dtype=TYPES[dtype][1]).tolist()
    lo, hi = limits(dtype.lower() if dtype not in ("INT32", "INT64", "UINT32") else "int30" if dtype != "UINT32" else "uint31")
    return draw(bulk_ints(tuple(shape), lo, hi))


@st.composite
def a_tensor(draw):
    dtype = draw(st.sampled_from(["INT8"] * 4 + sorted(TYPES)))
    shape = draw(st.lists(st.integers(1, 4), min_size=1, max_size=3))
    return {"dtype": dtype, "shape": shape, "data": draw(st.one_of(st.none(), values(shape, dtype))),
            "q": draw(st.one_of(st.none(), st.just("empty"), quant(), quant()))}


@st.composite
def free_case(draw, many=False):
    tensors = draw(st.lists(a_tensor(), min_size=17 if many else 1, max_size=40 if many else 7))
    i = st.integers(0, len(tensors) - 1)
    ops = draw(st.lists(st.tuples(st.sampled_from(sorted(CODES)), st.lists(i, min_size=1, max_size=3), st.lists(i, min_size=1, max_size=2)).map(list), min_size=1, max_size=30 if many else 6))
    return {"tensors": tensors, "ops": ops, "in": draw(st.lists(i, min_size=1, max_size=2)), "out": draw(st.lists(i, min_size=1, max_size=2)),
            "seed": draw(st.integers(0, 2**31 - 1)), "x": None, "main": draw(st.booleans())}


@st.composite
def chain_case(draw, large=False, deep=False):
    """QUANTIZE, (FULLY_CONNECTED, activation)*, DEQUANTIZE"""
    dim = st.sampled_from([1, 5, 16, 33, 64, 65, 100, 129]) if large else st.integers(1, 6)
    n = draw(dim)
    T = [{"dtype": "FLOAT32", "shape": [1, n], "data": None, "q": None}, {"dtype": "INT8", "shape": [1, n], "data": None, "q": draw(quant())}]
    ops = [["QUANTIZE", [0], [1]]]
    for _ in range(draw(st.integers(6, 16) if deep else st.integers(1, 3))):
        m, x = draw(dim), len(T) - 1
        w_s = draw(st.sampled_from([0.01, 0.003, 1 / 256]))
        T.append({"dtype": "INT8", "shape": [m, n], "data": draw(bulk_ints((m, n), -127, 127)), "q": [w_s, 0]})
        T.append({"dtype": "INT32", "shape": [m], "data": draw(bulk_ints((m,), -5000, 5000)), "q": [w_s * T[x]["q"][0], 0]})
        T.append({"dtype": "INT8", "shape": [1, m], "data": None, "q": draw(quant())})
        ops.append(["FULLY_CONNECTED", [x, len(T) - 3, len(T) - 2], [len(T) - 1]])
        n = m
        act = draw(st.sampled_from(["TANH", "LOGISTIC", "RELU", None]))
        if act:
            q = {"TANH": [1 / 128, 0], "LOGISTIC": [1 / 256, -128]}.get(act) or draw(quant())
            T.append({"dtype": "INT8", "shape": [1, m], "data": None, "q": q if draw(st.booleans()) else draw(quant())})
            ops.append([act, [len(T) - 2], [len(T) - 1]])
    if draw(st.booleans()):
        T.append({"dtype": "FLOAT32", "shape": [1, n], "data": None, "q": None})
        ops.append(["DEQUANTIZE", [len(T) - 2], [len(T) - 1]])
    return {"tensors": T, "ops": ops, "in": [0], "out": [len(T) - 1], "seed": draw(st.integers(0, 2**31 - 1)),
            "x": draw(bulk_floats((draw(st.sampled_from([1, 33, 65, 130]) if large else st.integers(1, 4)), T[0]["shape"][1]), 3.0)), "main": draw(st.booleans())}


STYLES = [
    lambda k: f"model/tensor;{k}é",
    lambda k: f"t{k}",
    lambda k: "a" * (k + 1),  # names that begin with each other
    lambda k: f"dense{'_' * bool(k)}{k or ''}/MatMul;dense/BiasAdd",
    lambda k: "tT"[k % 2] * (k // 2 + 1),
]


def named(c, k):
    return STYLES[c["seed"] % len(STYLES)](k)


class FakeTensor:
    def __init__(self, c, k, t, buffer):
        self.c, self.k, self.t, self.buffer = c, k, t, buffer

    def Name(self):
        return named(self.c, self.k).encode()

    def Buffer(self):
        return self.buffer

    def Type(self):
        return TYPES[self.t["dtype"]][0]

    def ShapeAsNumpy(self):
        return np.array(self.t["shape"], dtype=np.int32)

    def Quantization(self):
        q = self.t["q"]
        if q is None:
            return None
        if q == "empty":
            return NS(ScaleAsNumpy=lambda: 0, ZeroPointAsNumpy=lambda: 0)
        return NS(ScaleAsNumpy=lambda: np.array([q[0]], dtype=np.float32), ZeroPointAsNumpy=lambda: np.array([q[1]], dtype=np.int64))


class FakeModel:
    """buffers, operator codes and tensor indices of the interpreter are shuffled"""

    def __init__(self, c):
        rng = np.random.RandomState(c["seed"])
        T = c["tensors"]
        slots = rng.permutation(len(T)) + 1
        self.buffers = [NS(DataAsNumpy=lambda: 0)] * (len(T) + 1)
        for k, t in enumerate(T):
            if t["data"] is not None:
                raw = np.frombuffer(self.array(t).tobytes(), dtype=np.uint8)
                self.buffers[slots[k]] = NS(DataAsNumpy=lambda raw=raw: raw)
        self.tensors = [FakeTensor(c, k, t, int(slots[k])) for k, t in enumerate(T)]
        names = sorted({o[0] for o in c["ops"]})
        rng.shuffle(names)
        self.codes = names
        self.c, self.version = c, int(rng.randint(1, 9))
        self.index = [int(v) for v in rng.permutation(len(T))]

    @staticmethod
    def array(t):
        return np.array(t["data"], dtype=TYPES[t["dtype"]][1])

    # model
    def Version(self):
        return self.version

    def Subgraphs(self, i):
        assert i == 0
        return self

    def OperatorCodes(self, i):
        return NS(BuiltinCode=lambda: CODES[self.codes[i]])

    def Buffers(self, i):
        return self.buffers[i]

    # subgraph
    def Tensors(self, i):
        return self.tensors[i]

    def Inputs(self, i):
        return self.c["in"][i]

    def Outputs(self, i):
        return self.c["out"][i]

    def InputsLength(self):
        return len(self.c["in"])

    def OutputsLength(self):
        return len(self.c["out"])

    def OperatorsLength(self):
        return len(self.c["ops"])

    def Operators(self, i):
        name, ins, outs = self.c["ops"][i]
        return NS(OpcodeIndex=lambda: self.codes.index(name), InputsAsNumpy=lambda: np.array(ins, dtype=np.int32), OutputsAsNumpy=lambda: np.array(outs, dtype=np.int32))


class FakeInterpreter:
    def __init__(self, model):
        self.model, self.ready = model, False

    def allocate_tensors(self):
        self.ready = True

    def get_tensor_details(self):
        return [{"name": t.Name().decode(), "index": self.model.index[k]} for k, t in enumerate(self.model.tensors)]

    def get_tensor(self, index):
        k = self.model.index.index(index)
        return FakeModel.array(self.model.c["tensors"][k])


def run_convert(c):
    """[(case, model, document that the converter writes for a file holding the model)]; the command converts a directory"""
    cases = [c, dict(c, seed=c["seed"] + 1)] if c["main"] else [c]
    models = {f"m{k}": FakeModel(x) for k, x in enumerate(cases)}
    with tempfile.TemporaryDirectory() as d:
        seen = []
        tflite.Model.current = lambda data: seen.append(data.decode().split()[-1]) or models[seen[-1]]
        tfl.Interpreter.factory = lambda path: FakeInterpreter(models[os.path.basename(path)[:-7]])
        os.makedirs(os.path.join(d, "models"))
        src = {m: os.path.join(d, "models", m + ".tflite") for m in models}
        for m, path in src.items():
            with open(path, "wb") as f:
                f.write(f"content of the file {m}".encode())
        out = {m: os.path.join(d, "out.json") for m in models}
        with contextlib.redirect_stdout(io.StringIO()):
            if c["main"]:
                os.makedirs(os.path.join(d, "work"))
                cwd = os.getcwd()
                os.chdir(os.path.join(d, "work"))
                try:
                    _tflite2json.main()
                finally:
                    os.chdir(cwd)
                out = {m: path[:-7] + ".json" for m, path in src.items()}
            else:
                convert(src["m0"], out["m0"])
        need(sorted(seen) == sorted(models), "every file is read once", got=seen)
        res = []
        for x, m in zip(cases, models):
            with open(out[m], encoding="utf-8") as f:
                res.append((x, models[m], json.load(f)))
    return res


def f32(v):
    return float(np.float32(v))


def params(t):
    return (None, None) if t["q"] in (None, "empty") else (f32(t["q"][0]), t["q"][1])


def check_node(nd, name, t, msg):
    s, z = params(t)
    need(nd["scale"] == s and nd["zero_point"] == z, f"{msg}: scale and zero point", got=(nd["scale"], nd["zero_point"]), want=(s, z))
    j = nd["tensor"]
    need(j["dtype"] == t["dtype"] and list(j["shape"]) == t["shape"] and j["name"] == name, f"{msg}: type, shape and name", got=(j["dtype"], j["shape"], j["name"]))
    if t["data"] is None:
        need(j["tensor"] is None, f"{msg}: no constant", got=j["tensor"])
    else:
        need(j["tensor"] == FakeModel.array(t).tolist(), f"{msg}: constant", got=j["tensor"], want=t["data"])


def check_doc(c, model, doc):
    T = c["tensors"]
    need(doc["engine"] == "TFLITE" and doc["ir_version"] == model.version and doc["operators"] == len(c["ops"]), "header of the document")
    for key, ids in (("input", c["in"]), ("output", c["out"])):
        need(len(doc[key]) == len(ids), f"number of nodes of the {key}")
        for nd, k in zip(doc[key], ids):
            check_node(nd, named(c, k), T[k], f"{key} of the model")
    need(len(doc["graph"]) == len(c["ops"]), "number of operators", got=len(doc["graph"]), want=len(c["ops"]))
    tables = 0
    for n, (o, (name, ins, outs)) in enumerate(zip(doc["graph"], c["ops"])):
        msg = f"operator {n} ({name})"
        want = {"TANH": "TANHLUT", "LOGISTIC": "SIGMOIDLUT"}.get(name, name)
        need(o["op_type"] == want and o["name"] == want, f"{msg}: type", got=(o["op_type"], o["name"]), want=want)
        need(len(o["inputs"]) == len(ins) and len(o["outputs"]) == len(outs), f"{msg}: number of nodes")
        for nd, k in zip(o["inputs"] + o["outputs"], ins + outs):
            check_node(nd, named(c, k), T[k], msg)
        if name in ("TANH", "LOGISTIC"):
            lut = o["inputs"][0].get("LUT")
            pin, pout = params(T[ins[0]]), params(T[outs[0]])
            pin, pout = [(p[0] or 1.0, p[1] or 0) for p in (pin, pout)]
            fn = np.tanh if name == "TANH" else sigmoid
            need(lut is not None and lut["offset"] == 128, f"{msg}: offset of the table")
            codes = np.arange(-128.0, 128.0)
            b = quantize_iv(fn((codes - pin[1]) * pin[0]), pout[0], pout[1], "int8", 1e-13)
            within(lut["LUT"], b, need, f"{msg}: table")
            need(lut["reduced_LUT"] is not None and expand(lut["reduced_LUT"]) == lut["LUT"], f"{msg}: the reduced table answers like the table")
            need(lut["reduced_LUT"]["depth"] == DEPTH, f"{msg}: depth of the reduced table", got=lut["reduced_LUT"]["depth"], want=DEPTH)
            tables += 1
        else:
            need(not any(nd.get("LUT") for nd in o["inputs"]), f"{msg}: no table")
    return tables


def wanted(name, ins, outs, T, x):
    if name == "FULLY_CONNECTED":
        (xs, xz), (ws, wz), _ = [params(T[k]) for k in ins]
        os_, oz = params(T[outs[0]])
        return expect(fc_op(xs, xz, T[ins[1]]["data"], ws, wz, T[ins[2]]["data"], os_, oz, "int8"), "TFLITE", x)
    if name in ("TANH", "LOGISTIC"):
        s, z = params(T[ins[0]])
        return ("codes",) + quantize_iv((np.tanh if name == "TANH" else sigmoid)((x.astype(float) - z) * s), *params(T[outs[0]]), "int8", 1e-13)
    shape = {"tensor": None, "shape": [], "dtype": "int8", "name": None}
    return expect(jop(name, [jnode(*params(T[ins[0]]), dict(shape))], [jnode(*params(T[outs[0]]), dict(shape))]), "TFLITE", x)


def check(c, ctx):
    done = run_convert(c)
    for cc, model, doc in done:
        tables = check_doc(cc, model, doc)
    c, _, doc = done[0]
    used = {k for _, ins, outs in c["ops"] for k in ins + outs}
    ctx.nontrivial(bool(tables) or any(c["tensors"][k]["data"] is not None for k in used))
    ctx.label("directory" if c["main"] else "one file")
    if c["x"] is None:
        return
    x = cur = np.array(c["x"])
    for n, (o, (name, ins, outs)) in enumerate(zip(doc["graph"], c["ops"])):
        kind, *want = wanted(name, ins, outs, c["tensors"], cur)
        cur = np.asarray(build_layer(o).infer(cur))
        msg = f"result of operator {n} ({name})"
        if kind == "codes":
            within(cur, tuple(want), need, msg)
        else:
            need(cur.shape == want[0].shape and np.allclose(cur, want[0], rtol=1e-9, atol=1e-12), msg, got=cur, want=want[0])
    got = np.asarray(SequentialNetwork(doc).infer(x))
    need(np.array_equal(got, cur), "the engine runs the document", got=got, want=cur)
    ctx.label("run in the engine")


def subs():
    return [
        Sub("chains", chain_case(), check, quick=800, thorough=6000),
        Sub("large chains", chain_case(large=True), check, quick=96, thorough=800),
        Sub("deep chains", chain_case(deep=True), check, quick=60, thorough=500),
        Sub("many tensors", free_case(many=True), check, quick=60, thorough=500),
        Sub("models", free_case(), check, quick=1000, thorough=8000),
    ]
