"""C27 keras2json: the float document holds every layer of the model exactly."""
import json

import numpy as np
from hypothesis import strategies as st

from pbt import Sub, need
from pbt import pairs
from pbt.gen import bulk_floats

import sys
import os
import verif_env

sys.path.insert(0, os.path.join(verif_env.REPO, "model_converters", "keras2json"))
from keras2json import convert as keras2json  # noqa: E402
from tensorflow import keras  # noqa: E402

RULE = (
    "A case is a model of up to 7 layers (dense, LSTM, convolution, max pooling, flatten, dropout, input; with and without "
    "bias; random weights including tiny and huge ones). Every operator, its weights (exactly), shapes and attributes are "
    "compared with the layers. Non-trivial: at least two layers with weights."
) + pairs.RULE
ASSUMPTIONS = ["keras layers are stand-ins with the attributes that the converter reads"]
DENSE_ACT = ["linear", "relu", "relu6", "tanh", "sigmoid", "softmax"]


@st.composite
def values(draw, shape):
    x = np.array(draw(bulk_floats(tuple(shape), 1.0))) * draw(st.sampled_from([1.0, 1.0, 1e-6, 1e6]))
    return x.astype(np.float32).astype(np.float64).tolist()


@st.composite
def layer_spec(draw, large=False):
    dim = (lambda a, b: draw(st.sampled_from([1, 2, 16, 31, 32, 33, 64, 65, 128, 129]))) if large else (lambda a, b: draw(st.integers(a, b)))
    t = draw(st.sampled_from(["dense", "dense", "lstm", "lstm", "conv", "pool", "flatten", "dropout", "input"]))
    name = draw(st.sampled_from(["a", "layer_1", "x/y", "dense", "lstm_1", "flatten_dense", "conv2d_dropout", "input", "max_pooling2d", "DROPOUT", "output"]))
    if t == "dense":
        n, m = dim(1, 6), dim(1, 5)
        return {"t": t, "name": name, "w": draw(values((n, m))), "b": draw(st.one_of(st.none(), values((m,)))), "act": draw(st.sampled_from(DENSE_ACT))}
    if t == "lstm":
        n, u = dim(1, 4), min(dim(1, 3), 65)
        return {"t": t, "name": name, "w": draw(values((n, 4 * u))), "r": draw(values((u, 4 * u))), "b": draw(st.one_of(st.none(), values((4 * u,)))),
                "u": u, "seq": draw(st.booleans()), "steps": dim(1, 9), "n": n, "batch": draw(st.sampled_from([None, None, 1, 4, 32]))}
    if t == "conv":
        shape = [draw(st.integers(1, 3)), draw(st.integers(1, 3)), min(dim(1, 3), 33), dim(1, 3)]
        return {"t": t, "name": name, "w": draw(values(shape)), "b": draw(st.one_of(st.none(), values((shape[-1],)))), "act": draw(st.sampled_from(DENSE_ACT)),
                "strides": [draw(st.integers(1, 3)), draw(st.integers(1, 3))], "padding": draw(st.sampled_from(["valid", "same"]))}
    if t == "pool":
        return {"t": t, "name": name, "strides": [draw(st.integers(1, 3)), draw(st.integers(1, 3))], "pool": [draw(st.integers(1, 4)), draw(st.integers(1, 4))],
                "padding": draw(st.sampled_from(["valid", "same"]))}
    return {"t": t, "name": name}


def keras_layer(s):
    L = keras.layers
    ws = [np.array(s[k]) for k in ("w", "r", "b") if s.get(k) is not None]
    if s["t"] == "dense":
        return L.Dense(len(s["w"][0]), s["act"], name=s["name"], weights=ws)
    if s["t"] == "lstm":
        return L.LSTM(s["u"], s["seq"], name=s["name"], weights=ws, batch_input_shape=s.get("shape", (s.get("batch"), s["steps"], s["n"])))
    if s["t"] == "conv":
        return L.Conv2D(tuple(s["strides"]), s["padding"], s["act"], name=s["name"], weights=ws)
    if s["t"] == "pool":
        return L.MaxPooling2D(tuple(s["strides"]), s["padding"], tuple(s["pool"]), name=s["name"])
    return {"flatten": L.Flatten, "dropout": L.Dropout, "input": L.InputLayer}[s["t"]](name=s["name"])


def check_node(n, want, msg):
    need(n["scale"] is None and n["zero_point"] is None and n["LUT"] is None, f"{msg}: not quantized")
    t = n["tensor"]
    want = np.asarray(want)
    need(list(t["shape"]) == list(want.shape), f"{msg}: shape", got=t["shape"], want=want.shape)
    got = np.array(t["tensor"], dtype=np.float64)
    need(got.shape == want.shape and np.array_equal(got, want), f"{msg}: values")


def check_ops(s, ops, msg):
    """the operators of one layer; returns how many there are"""
    if s["t"] in ("dropout", "input"):
        return 0
    o = ops[0]
    at = {k: v["value"] for k, v in (o["attributes"] or {}).items()}
    if s["t"] == "dense":
        need([p["op_type"] for p in ops[:2]] == ["FULLY_CONNECTED_F", s["act"]], f"{msg}: operators", got=[p["op_type"] for p in ops[:2]])
        need(len(o["inputs"]) == 2 and o["outputs"] == [] and o["name"] == s["name"], f"{msg}: inputs")
        check_node(o["inputs"][0], np.array(s["w"]).T, f"{msg}: kernel")
        check_node(o["inputs"][1], np.zeros(len(s["w"][0])) if s["b"] is None else np.array(s["b"]), f"{msg}: bias")
        return 2
    if s["t"] == "conv":
        need([p["op_type"] for p in ops[:2]] == ["CONV_2D_F", s["act"].upper() + "_F"], f"{msg}: operators", got=[p["op_type"] for p in ops[:2]])
        need(len(o["inputs"]) == 2, f"{msg}: inputs")
        check_node(o["inputs"][0], np.array(s["w"]), f"{msg}: kernel")
        check_node(o["inputs"][1], np.zeros(np.array(s["w"]).shape[-1]) if s["b"] is None else np.array(s["b"]), f"{msg}: bias")
        need(at == {"strides": s["strides"], "padding": [0 if s["padding"] == "valid" else 1]}, f"{msg}: attributes", got=at)
        return 2
    if s["t"] == "lstm":
        need(o["op_type"] == "LSTM_F" and len(o["inputs"]) == 15, f"{msg}: operator", got=(o["op_type"], len(o["inputs"])))
        check_node(o["inputs"][12], np.array(s["w"]).T, f"{msg}: kernel")
        check_node(o["inputs"][13], np.array(s["r"]).T, f"{msg}: recurrent kernel")
        check_node(o["inputs"][14], np.zeros(4 * s["u"]) if s["b"] is None else np.array(s["b"]), f"{msg}: bias")
        need(at == {"units": [s["u"]], "return_sequences": [s["seq"]], "steps": [s["steps"]]}, f"{msg}: attributes", got=at)
        return 1
    if s["t"] == "pool":
        want = {"strides": s["strides"], "pool_size": s["pool"], "padding": [0 if s["padding"] == "valid" else 1]}
        need(o["op_type"] == "MAXPOOLING_2D_F" and at == want, f"{msg}: operator", got=(o["op_type"], at))
        return 1
    need(o["op_type"] == "FLATTEN" and o["inputs"] == [], f"{msg}: operator", got=o["op_type"])
    return 1


def check_model(c, ctx):
    layers = [keras_layer(s) for s in c]
    before = [[w.copy() for w in l.get_weights()] for l in layers]
    model = keras.Model(layers)
    doc = keras2json(model)
    again = json.loads(json.dumps(doc))
    need(doc["engine"] == "keras" and doc["operators"] == len(doc["graph"]), "header of the document", got=doc["operators"])
    at = 0
    for k, s in enumerate(c):
        at += check_ops(s, again["graph"][at:at + 2], f"layer {k} ({s['t']})")
    need(at == len(doc["graph"]), "no other operators", got=len(doc["graph"]), want=at)
    need(all(np.array_equal(a, b) for l, ws in zip(layers, before) for a, b in zip(l.get_weights(), ws)), "the model is not modified")
    other = keras2json(model)
    need(other["graph"] == doc["graph"], "the conversion is deterministic")
    ctx.nontrivial(sum("w" in s for s in c) >= 2)


@st.composite
def bad_case(draw):
    c = draw(st.lists(layer_spec(), max_size=3))
    return {"c": c, "at": draw(st.integers(0, len(c))), "bad": draw(st.sampled_from(["BatchNormalization", "GRU", "Activation", "Reshape", "AveragePooling2D", "Embedding", "Add", "LeakyReLU", "shape", "shape", "shape"])), "lstm": draw(layer_spec().filter(lambda s: s["t"] == "lstm")),
            "shape": draw(st.sampled_from([(None, 3), (4, 3), (None, 2, 5, 3), (None,)]))}


def check_bad(c, ctx):
    layers = [keras_layer(s) for s in c["c"]]
    if c["bad"] == "shape":
        layers.insert(c["at"], keras_layer(dict(c["lstm"], shape=c.get("shape", (None, 3)))))
    else:
        layers.insert(c["at"], getattr(keras.layers, c["bad"])(name="bad"))
    try:
        keras2json(keras.Model(layers))
    except ValueError:
        ctx.nontrivial()
        return
    need(False, "a layer that cannot be converted is rejected", layer=c["bad"])


def subs():
    return [
        pairs.two(st.lists(layer_spec(), min_size=1, max_size=4), check_model, quick=200),
        Sub("models", st.lists(layer_spec(), min_size=1, max_size=7), check_model, quick=2400, thorough=20000),
        Sub("large", st.lists(layer_spec(large=True), min_size=1, max_size=3), check_model, quick=120, thorough=1000),
        Sub("deep", st.lists(layer_spec(), min_size=20, max_size=40), check_model, quick=80, thorough=500),
        Sub("rejected", bad_case(), check_bad, quick=300, thorough=1000),
    ]
