"""C25 end to end quantization of dense networks."""
import json
import os

import numpy as np
import yaml
from hypothesis import strategies as st

from pbt import Sub, need
from pbt.gen import vary
from pbt.qnets import build, check_doc, error_bound, in_domain, keras_layers, HUGE, MANY, NARROW, net_case, WIDE

from itcl_inference_engine.network.sequential import SequentialNetwork
from itcl_quantizer.config.models.keras import QuantizerCfg
from tensorflow import keras

RULE = (
    "A case is a network of 1 to 3 dense layers (up to 10 units, with or without bias, linear/tanh/sigmoid/relu/relu6 and "
    "a final softmax, dropout and input layers in between), representative data of up to 12 rows and a configuration of "
    "integer types. The emitted document is compared with the layers, and the inference of the calibration rows with the "
    "float network. Non-trivial: the outputs of the float network are not constant."
)
ASSUMPTIONS = ["keras layers are stand-ins with the same attributes and float32 arithmetic"]


def check_net(c, ctx):
    net, doc = build(c)
    check_doc(c, doc)
    mem = json.loads(json.dumps(net.as_json()))
    for d in (mem, doc):
        d.pop("generated_at", None)
    need(mem == doc, "the file holds the document of the returned network")
    ops = net.as_operators()
    need([o.as_json()["op_type"] for o in ops] == [o["op_type"] for o in doc["graph"]], "operators of the network")
    need(sum(len(r.operators or []) for r in net.as_quant_results()) == len(ops), "quantization results of the network")
    if not in_domain(doc):
        ctx.label("rescaling factor out of range")
        return
    x = vary(np.array(c["x"], dtype=np.float32))
    got = np.asarray(SequentialNetwork(doc).infer(x))
    again = np.asarray(net.as_sequential_network().infer(x))
    need(np.array_equal(got, again), "the network of the document and the returned one give the same results")
    e, y = error_bound(c, doc)
    need(got.shape == y.shape, "shape of the result", got=got.shape, want=y.shape)
    bad = np.abs(got - y) - e
    k = np.unravel_index(np.argmax(bad), bad.shape)
    need(bad.max() <= 0, "the quantized network stays within its error bound", index=list(map(int, k)), got=got[k], want=y[k], bound=e[k])
    ctx.nontrivial(np.ptp(y) > 0)
    ctx.label("informative", float(np.median(e)) < 0.25 * (np.ptp(y) + 1e-9))
    ctx.label("cfg", bool(c["cfg"]))


@st.composite
def cfg_case(draw):
    c = draw(net_case(max_layers=2, big=3, rows=4))
    return dict(c, how=draw(st.sampled_from(["json", "yaml", "tflite"])))


def check_cfg(c, ctx):
    if c["how"] == "json":
        with open("cfg.json", "w") as f:
            json.dump(c["cfg"], f)
        cfg = QuantizerCfg.from_json("cfg.json")
    elif c["how"] == "yaml":
        with open("cfg.yaml", "w") as f:
            yaml.safe_dump(c["cfg"], f)
        cfg = QuantizerCfg.from_yml("cfg.yaml")
    else:
        cfg = QuantizerCfg(**{k: v for k, v in c["cfg"].items() if k != "specific_layers"})
        cfg.tflite()
        c = dict(c, cfg={k: v for k, v in c["cfg"].items() if k != "specific_layers"})
        c["cfg"]["dense"] = dict(c["cfg"].get("dense", {}), kernel_symmetric=True)
    _, doc = build(c, cfg=cfg)
    check_doc(c, doc)
    fresh = QuantizerCfg()
    need(fresh.dense.kernel_symmetric is False and fresh.specific_layers == {} and fresh.ada_round_net is None, "defaults are not shared")
    ctx.nontrivial(bool(c["cfg"]))


@st.composite
def unknown_case(draw):
    return dict(draw(net_case(max_layers=2, big=3, rows=4, dtypes=False)), bad=draw(st.sampled_from(["BatchNormalization", "GRU", "Flatten"])), at=draw(st.integers(0, 2)))


def check_unknown(c, ctx):
    layers = keras_layers(c)
    layers.insert(min(c["at"], len(layers)), getattr(keras.layers, c["bad"])(name="x"))
    before = set(os.listdir("."))
    try:
        build(c, layers=layers)
    except ValueError:
        ctx.nontrivial()
        return
    need(False, "a layer that can not be quantized is rejected", layer=c["bad"])


def subs():
    return [
        Sub("end to end", net_case(), check_net, quick=1800, thorough=15000),
        Sub("large", net_case(dim=WIDE, count=MANY), check_net, quick=120, thorough=1200),
        Sub("many rows", net_case(max_layers=2, dim=NARROW, count=HUGE), check_net, quick=80, thorough=600),
        Sub("configuration", cfg_case(), check_cfg, quick=500, thorough=3000),
        Sub("unknown layers", unknown_case(), check_unknown, quick=120, thorough=300),
    ]
