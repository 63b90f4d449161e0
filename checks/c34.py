"""C34 the programs of the converters turn a folder of models into documents next to them."""
import contextlib
import importlib.util
import io
import json
import os
import tempfile

import numpy as np
from hypothesis import strategies as st

import verif_env
from checks import c27, c28, c29
from pbt import Sub, need
from pbt.fresh import Fresh

import onnx
import tensorflow

RULE = (
    "A case is a converter and a history of up to 4 runs of its program on one folder: before a run, models are added, replaced "
    "or removed, among documents of earlier runs and files that are no models; some models are rejected. After each run the "
    "bytes of every file are compared with the model of the folder. Non-trivial: a run that finds documents of earlier runs."
)
ASSUMPTIONS = ["the loaders of keras, onnx and tflite are stand-ins that find the model by the contents of the file"]

_spec = importlib.util.spec_from_file_location("keras2json_main", os.path.join(verif_env.REPO, "model_converters", "keras2json", "_main.py"))
_keras_main = importlib.util.module_from_spec(_spec)
_spec.loader.exec_module(_keras_main)

FOLDER = {"keras": ("models", "."), "onnx": (os.path.join("models", "mnist", "uint8"), os.path.join("tool", "converter")), "tflite": ("models", "work")}
EXT = {"keras": ".h5", "onnx": ".onnx", "tflite": ".tflite"}
NAMES = ["mnist_tanh_uint8", "net", "Net", "net_2", "v1.2", "a b", "é", "models", "net.h5", "net.json", "onnx_net", "json_net", "net_tflite", "net_json", "tflite", "json"]
JUNK = ["notes.txt", "README", "weights.bin", "net.png", "zz.json", "table.csv", "old/", "net_2/", "old.json/"]
MODEL = {"keras": st.lists(c27.layer_spec(), min_size=1, max_size=3), "onnx": c28.free_case(), "tflite": c29.free_case()}
BAD = {"keras": c27.bad_case(), "onnx": c28.bad_case()}


@st.composite
def history_case(draw, tool):
    steps, ext = [], EXT[tool]
    name = st.sampled_from(NAMES)
    for k in range(draw(st.integers(1, 4))):
        put = draw(st.dictionaries(name, MODEL[tool], min_size=0 if k else 1, max_size=4))
        bad = {}
        if tool in BAD and draw(st.integers(0, 3)) == 0:
            bad = {draw(name): draw(BAD[tool])}
        junk = draw(st.lists(st.sampled_from(JUNK), max_size=2))
        steps.append({"put": sorted(put.items()), "bad": sorted(bad.items()), "del": draw(st.lists(name, max_size=2)), "junk": junk})
    if tool == "onnx" and "mnist_tanh_uint8" not in dict(steps[0]["put"]):  # the model that the program names
        steps[0]["put"].append(["mnist_tanh_uint8", draw(MODEL[tool])])
    return {"tool": tool, "steps": [dict(s, put=[list(p) for p in s["put"]], bad=[list(p) for p in s["bad"]]) for s in steps]}


def build(tool, case, bad):
    """(model as its loader returns it, its document or None when it is rejected)"""
    if tool == "keras":
        layers = [c27.keras_layer(s) for s in (case["c"] if bad else case)]
        if bad:
            layers.insert(case["at"], c27.keras_layer(dict(case["lstm"], shape=(None, 3))) if case["bad"] == "shape" else getattr(c27.keras.layers, case["bad"])(name="bad"))
        model = c27.keras.Model(layers)
        return model, None if bad else c27.keras2json(model)
    if tool == "onnx":
        ops = list(case["ops"])
        if bad:
            ops.insert(case["at"], {"k": case["bad"]})
        model = c28.onnx_model(dict(case, ops=ops))[0]
        with contextlib.redirect_stdout(io.StringIO()):
            return model, None if bad else c28.model2json(model)
    model = c29.FakeModel(case)
    return model, c29.run_convert(dict(case, main=False))[0][2]


def document(args):
    tool, case, bad = args
    doc = build(tool, case, bad)[1]
    return None if doc is None else plain(doc)


ALONE = Fresh(document)  # the document of a model when nothing else has been converted


def plain(doc):
    doc = json.loads(json.dumps(doc))
    doc.pop("generated_at", None)
    return doc


@contextlib.contextmanager
def loaders(models):
    """models: contents of a file -> model"""

    def load(path, *a, **k):
        data = open(path, "rb").read()
        if not data:
            return c28.NS(graph=c28.NS(node=[], initializer=[], value_info=[], input=[], output=[]), ir_version=0)  # an empty protobuf message is valid
        if data not in models:
            raise OSError(f"{path} is not a model")
        return models[data]

    old = onnx.load, tensorflow.keras.models.load_model, getattr(c29.tflite.Model, "current", None), getattr(c29.tfl.Interpreter, "factory", None)
    onnx.load = tensorflow.keras.models.load_model = load
    c29.tflite.Model.current = lambda data: models[bytes(data)]
    c29.tfl.Interpreter.factory = lambda path: c29.FakeInterpreter(load(path))
    try:
        yield
    finally:
        onnx.load, tensorflow.keras.models.load_model, c29.tflite.Model.current, c29.tfl.Interpreter.factory = old


MAIN = {"keras": lambda: _keras_main._main(), "onnx": lambda: c28._mod.main(), "tflite": lambda: c29._tflite2json.main()}


def snapshot(folder):
    found = sorted(os.path.relpath(os.path.join(d, n), folder) for d, _, names in os.walk(folder) for n in names)
    return {n: open(os.path.join(folder, n), "rb").read() for n in found}


def check(c, ctx):
    tool, ext = c["tool"], EXT[c["tool"]]
    models, docs, refused = {}, {}, set()
    built = {}
    for k, s in enumerate(c["steps"]):
        for key in ("put", "bad"):
            for name, case in s[key]:
                data = f"{name} {k} {key}".encode()
                docs[data] = ALONE((tool, case, key == "bad"))
                models[data] = build(tool, case, key == "bad")[0]
                if key == "bad":
                    refused.add(data)
    with tempfile.TemporaryDirectory(dir=".") as d, loaders(models):
        folder, work = (os.path.abspath(os.path.join(d, p)) for p in FOLDER[tool])
        os.makedirs(folder)
        os.makedirs(work, exist_ok=True)
        cwd = os.getcwd()
        for k, s in enumerate(c["steps"]):
            for name in s["del"]:
                if os.path.exists(os.path.join(folder, name + ext)) and name != NAMES[0]:
                    os.remove(os.path.join(folder, name + ext))
            for key in ("put", "bad"):
                for name, _ in s[key]:
                    if key == "bad" and name == NAMES[0]:
                        continue
                    with open(os.path.join(folder, name + ext), "wb") as f:
                        f.write(f"{name} {k} {key}".encode())
            for n in s["junk"]:
                if n.endswith("/"):  # a folder with a model of its own, which is not a model of this folder
                    os.makedirs(os.path.join(folder, n), exist_ok=True)
                    n += "inner" + ext
                with open(os.path.join(folder, n), "wb") as f:
                    f.write(b"junk " + n.encode())
            before = snapshot(folder)
            present = {n[: -len(ext)]: b for n, b in before.items() if n.endswith(ext) and os.sep not in n}
            bad = any(b in refused for b in present.values())
            os.chdir(work)
            try:
                with contextlib.redirect_stdout(io.StringIO()):
                    MAIN[tool]()
                failed = False
            except ValueError:
                failed = True
            finally:
                os.chdir(cwd)
            after = snapshot(folder)
            need(failed == bad, "the program fails when a model is rejected, and only then", run=k, failed=failed)
            want = {n + ".json" for n in present}
            need(set(after) <= set(before) | want and set(before) <= set(after), "one document per model, nothing else is created or removed", run=k, got=sorted(set(after) ^ set(before)))
            for n, data in after.items():
                if n not in want:
                    need(data == before[n], "other files are left alone", run=k, file=n)
                    continue
                source = present[n[:-5]]
                if failed and (data == before.get(n) or (source in refused and n not in before)):
                    continue  # documents of earlier runs survive a run that fails
                need(source not in refused, "a rejected model has no new document", run=k, file=n)
                try:
                    got = plain(json.loads(data))
                except ValueError:
                    need(False, "the document of a model is complete", run=k, file=n, got=data[:40])
                need(got == docs[source], "the document of a model is the one of the model alone", run=k, file=n)
            if not failed:
                need(want <= set(after), "every model has its document", run=k, got=sorted(want - set(after)))
            ctx.nontrivial(any(n.endswith(".json") and n != "zz.json" for n in before))
            ctx.label("rejected", failed)


def subs():
    return [
        Sub("keras", history_case("keras"), check, quick=150, thorough=2000),
        Sub("onnx", history_case("onnx"), check, quick=150, thorough=2000),
        Sub("tflite", history_case("tflite"), check, quick=150, thorough=2000),
    ]
