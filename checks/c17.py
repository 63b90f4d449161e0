"""C17 sequential networks: composition, dispatch, rejection, no state between calls."""
import copy
import json
import os

import numpy as np
from hypothesis import strategies as st

import verif_env
from pbt import Sub, close, need
from pbt.gen import vary
from pbt.model import within
from pbt.refs import expect
from pbt.reuse import reuse
from pbt.nets import build, build_layers, net_case

from itcl_inference_engine.network.sequential import SequentialNetwork
from itcl_inference_engine.layers.onnx.build_operator import build_operator
from itcl_inference_engine.layers.tflite.build_layer import build_layer

RULE = (
    "Histories: one to three random networks (TFLITE dense, TFLITE LSTM + dense, ONNX; 3 to 15 operators) built from "
    "dictionaries or files, then a random interleaving of 3 to 8 calls with different inputs and flags; every result is "
    "compared with composing freshly built operators; then the caller reuses its buffer, other batch sizes come in between, and earlier results are overwritten; also the model documents that the repository ships, on random inputs. Rejections: unknown operators, engines, missing nodes. "
    "Non-trivial: an output has two distinct values, or the case is a rejection."
)


@st.composite
def histories(draw, large=False):
    nets = draw(st.lists(net_case(), min_size=1, max_size=1 if large else 3))
    if large:
        nets[0].update(dims=draw(st.lists(st.sampled_from([1, 3, 16, 33, 64, 65, 100, 129, 257]), min_size=6, max_size=6)),
                       batch=draw(st.sampled_from([1, 2, 33, 64, 65, 129, 257, 300])), steps=draw(st.sampled_from([1, 3, 17, 33])))
        if nets[0]["kind"] == "lstm":
            nets[0]["batch"] = min(nets[0]["batch"], 65)
            nets[0]["dims"] = [min(d, 65) for d in nets[0]["dims"]]
    steps = draw(st.lists(st.tuples(st.integers(0, 2), st.integers(0, 2**20), st.sampled_from(["plain", "verbose", "batch", "list", "strided", "f32", "int64", "int8", "bool"])),
                          min_size=2, max_size=6))
    return {"nets": nets, "steps": [list(s) for s in steps], "file": draw(st.booleans())}


def oracle(schema, x):
    """the operators applied in order; every one is also compared with its own reference"""
    x = np.array(x)
    if "QUANT" not in schema["graph"][0]["name"].upper():
        s, z = schema["input"][0]["scale"], schema["input"][0]["zero_point"]
        x = np.clip(np.floor(x.astype(np.float64) / s + z + 0.5), -128, 127).astype(np.int32)
    for o, layer in zip(schema["graph"], build_layers(schema)):
        want = expect(o, schema["engine"], x)
        x = np.asarray(layer.infer(x))
        if want[0] == "real":
            close(x, want[1], rtol=1e-9, atol=1e-12, msg=f"operator {o['op_type']}")
        else:
            within(x, want[1:], need, f"operator {o['op_type']}")
    return x


def check_history(case, ctx):
    built = []
    nets_unit = [c.get("unit", 1.0) for c in case["nets"]]
    for c in case["nets"]:
        schema, x = build(c)
        frozen = copy.deepcopy(schema)
        if case["file"]:
            with open("net.json", "w") as f:
                json.dump(schema, f)
            net = SequentialNetwork.from_json_file("net.json")
            os.remove("net.json")
        else:
            net = SequentialNetwork(schema)
        built.append((net, schema, frozen, x))
    for which, seed, mode in case["steps"]:
        net, schema, frozen, x = built[which % len(built)]
        rng = np.random.RandomState(seed)
        y = x + rng.normal(0, 0.3, size=x.shape) * (seed % 3)
        if mode == "f32":
            y = y.astype(np.float32)
        if mode in ("int64", "int8", "bool"):  # real inputs that happen to be integers
            y = np.clip(np.rint(3 * y / nets_unit[which % len(built)]), -127, 127).astype(mode)
        if mode == "strided":
            y = np.repeat(y, 2, axis=0)[::2] if y.ndim > 1 else np.repeat(y, 2)[::2]
        kw = {"verbose": {"verbose": True}, "batch": {"isBatch": True}}.get(mode, {})
        arg = y.tolist() if mode == "list" else vary(y)
        keep = np.array(y)
        got = np.asarray(net.infer(arg, **kw))
        want = oracle(frozen, y)
        need(got.shape == want.shape and np.array_equal(got, want), "the network is the composition of its operators in order",
             ops=[o["op_type"] for o in frozen["graph"]], got=got.ravel()[:8], want=want.ravel()[:8])
        need(np.array_equal(np.array(arg), keep), "input mutated")
        ctx.nontrivial(len(set(got.ravel().tolist())) >= 2)
    for net, schema, frozen, x in built:
        if x.ndim > 1:
            reuse(net.infer, x, oracle(frozen, x))
        need(schema == frozen, "inference changed the model document")
        need(json.loads(str(net)) == json.loads(json.dumps(frozen)), "the text of the network is its document")
    ctx.label("several_nets", len(built) > 1)


# ---------------------------------------------------------------- the documents that the repository ships
MNIST = ["high_complexity_float32_tanh", "low_complexity_float32_relu", "medium_complexity_float32_sigmoid"]
SHIPPED = [
    "demo/bikes_vs_weather/itclq/quant_keras_model.json", "demo/bikes_vs_weather/tflite/tflite_int8.json", "demo/celia_energia_lstm/model.json",
    "demo/lstm_quant/data_1_step/model.json", "demo/lstm_quant/data_2_steps/model.json", "demo/lstm_weather/qmodels/16steps.json",
    "demo/lstm_weather/qmodels/2steps.json", "demo/lstm_weather/qmodels/model.json", "model_converters/onnx2json/model.json",
    *(f"models/mnist/json/mnist_{m}{t}.json" for m in MNIST for t in ("", "_quant_deq_in_out_layers")),
    *(f"models/mnist/uint8/mnist_{m}_uint8.json" for m in ("relu", "sigmoid", "tanh")),
]


@st.composite
def shipped_case(draw):
    return {"doc": draw(st.sampled_from(SHIPPED)), "seed": draw(st.integers(0, 2**31 - 1)), "batch": draw(st.integers(1, 6)), "steps": draw(st.integers(1, 5)),
            "mag": draw(st.sampled_from([0.1, 1.0, 1.0, 5.0])), "pos": draw(st.booleans()), "file": draw(st.booleans())}


def check_shipped(c, ctx):
    path = os.path.join(verif_env.REPO, c["doc"])
    if not os.path.exists(path):
        ctx.label("missing")
        return
    with open(path, encoding="utf-8") as f:
        schema = json.load(f)
    frozen = copy.deepcopy(schema)
    first = next(o for o in schema["graph"] if "UANTIZE" not in o["op_type"].upper())
    w = np.array(first["inputs"][1]["tensor"]["tensor"])
    lstm = first["op_type"] == "LSTM"
    x = np.random.RandomState(c["seed"]).normal(0, c["mag"], size=(c["batch"], c["steps"], w.shape[0]) if lstm else (c["batch"], w.shape[1]))
    x = np.abs(x) if c["pos"] else x
    net = SequentialNetwork.from_json_file(path) if c["file"] else SequentialNetwork(schema)
    got = np.asarray(net.infer(x))
    want = oracle(frozen, x)
    need(got.shape == want.shape and np.array_equal(got, want), "a shipped network is the composition of its operators", doc=c["doc"], got=got.ravel()[:8], want=want.ravel()[:8])
    one = np.asarray(net.infer(x[:1]))
    need(np.allclose(one, got[:1], rtol=1e-12, atol=1e-12), "a row alone gives the same result", doc=c["doc"])
    need(schema == frozen, "inference changed the model document")
    ctx.nontrivial(len(set(got.ravel().tolist())) >= 2)


@st.composite
def rejections(draw):
    kind = draw(st.sampled_from(["op", "op", "op", "engine", "node"]))
    c = {"kind": kind, "net": draw(net_case())}
    base = draw(st.sampled_from(["CONV_2D", "ADD", "RELU6", "LEAKY_RELU", "MAX_POOL_2D", "GRU", "TANHX", "XTANH", "QUANT", "LSTMX",
                                 "MUL", "RESHAPE", "", "QLinearConv", "Relu6", "tanh_lut", "FULL", "UNIDIRECTIONAL_SEQUENCE_LSTM"]))
    c["op"] = draw(st.one_of(st.just(base), st.text(alphabet="abcdxyzQR_09 ", min_size=1, max_size=8), st.sampled_from(
        ["softmax", "TANH", "qlinearadd", "QLINEARMATMUL", "Quantizelinear", "sigmoidLUT", "QLinearAdd ", "QLinear"])))
    c["engine"] = draw(st.sampled_from(["", "TF", "TFLITE2", "ONNXRT", "KERAS", "PYTORCH", " TFLITE", "ONX", "TFLITE ONNX"]))
    c["pos"] = draw(st.integers(0, 20))
    c["which"] = draw(st.sampled_from(["input", "output"]))
    return c


TFL = ("FULLY_CONN", "LOGISTIC", "SOFTMAX", "DEQUANTIZE", "SIGMOIDLUT")
TFL_EXACT = ("TANH", "TANHLUT", "QUANTIZE", "RELU", "LSTM")
ONNX_OPS = ("QLinearAdd", "QLinearMatMul", "QuantizeLinear", "QLinearSigmoid", "SigmoidLUT", "DequantizeLinear", "Softmax", "Tanh", "TanhLUT")


def check_reject(case, ctx):
    schema, _ = build(case["net"])
    kind = case["kind"]
    if kind == "op":
        o = case["op"]
        tfl = case["net"]["engine"] == "TFLITE"
        known = (any(t in o.upper() for t in TFL) or o.upper() in TFL_EXACT) if tfl else o in ONNX_OPS
        if known:
            return
        i = case["pos"] % len(schema["graph"])
        schema["graph"][i] = dict(schema["graph"][i], op_type=o)
        try:
            (build_layer if tfl else build_operator)(schema["graph"][i])
            need(False, "an unsupported operator is rejected", op=o)
        except ValueError:
            pass
    elif kind == "engine":
        schema["engine"] = case["engine"]
    else:
        schema[case["which"]] = [None]
    ctx.nontrivial()
    try:
        SequentialNetwork(schema)
    except ValueError:
        return
    need(False, "an invalid model document is rejected", kind=kind, op=case["op"], engine=case["engine"])


def subs():
    return [
        Sub("history", histories(), check_history, quick=2000, thorough=25000),
        Sub("large", histories(large=True), check_history, quick=60, thorough=1000),
        Sub("shipped documents", shipped_case(), check_shipped, quick=240, thorough=4000),
        Sub("reject", rejections(), check_reject, quick=1500, thorough=15000),
    ]
