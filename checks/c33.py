"""C33 the quantizer configuration."""
import copy
import json
import os

import numpy as np
import yaml
from hypothesis import strategies as st

import verif_env
from pbt import Sub, need

from itcl_quantizer.config.models.keras import QuantizerCfg
from itcl_quantizer.equalizers.adaround.annealer import RoundingAnnealer
from itcl_quantizer.equalizers.adaround.qubo import QUBOAnnealer

RULE = (
    "A case is a partial configuration document (dense, quantize, rounding and equalization sections with any subset of their "
    "fields, per-layer sections under any layer name), given as keyword arguments, JSON or YAML (block or flow style). "
    "Every field of the configuration is compared with the document or the default. Presets, shipped samples, optimizers and "
    "invalid documents likewise. Non-trivial: the document sets at least one field, or it is invalid."
)
ASSUMPTIONS = ["pydantic is a stand-in with its documented defaults: nested models, unions in order, extra fields ignored"]

OPTIMIZERS = {
    "annealer": {"t_min": 0.1, "t_max": 25000, "updates": 100, "steps": 5000, "max_retries": 100},
    "base": {"max_retries": 100},
    "qubo": {},
}
DENSE = {"activation_dtype": "int8", "bias_add_dtype": "int8", "bias_dtype": "int32", "kernel_dtype": "int8", "kernel_symmetric": False,
         "adaround_optimizer": None, "lut_cfg": {"reduced_depth": 3}}
DEFAULTS = {"dense": DENSE, "quantize": {"dtype": "int8"}, "ada_round_net": None, "param_equalizer": None, "specific_layers": {}}
EQUALIZER = {"optimizer": "base", "max_retries": 100}


def subset(d):
    return st.lists(st.sampled_from(sorted(d)), unique=True, max_size=len(d)) if d else st.just([])


@st.composite
def optimizer(draw):
    kind = draw(st.sampled_from(sorted(OPTIMIZERS)))
    values = {"t_min": st.floats(1e-3, 50), "t_max": st.floats(60, 1e5), "updates": st.integers(0, 300), "steps": st.integers(0, 30), "max_retries": st.integers(0, 30)}
    return {"optimizer": kind, **{k: draw(values[k]) for k in draw(subset(OPTIMIZERS[kind]))}}


@st.composite
def dense(draw, min_fields=0):
    dtype = st.builds(lambda f, b: f"{f}{b}", st.sampled_from(["int", "uint", "INT"]), st.integers(2, 32))
    values = {**{k: dtype for k in DENSE if k.endswith("dtype")}, "kernel_symmetric": st.booleans(), "adaround_optimizer": st.one_of(st.none(), optimizer()),
              "lut_cfg": st.one_of(st.just({}), st.builds(lambda n: {"reduced_depth": n}, st.integers(0, 20)))}
    keys = draw(st.lists(st.sampled_from(sorted(DENSE)), unique=True, min_size=min_fields, max_size=len(DENSE)))
    return {k: draw(values[k]) for k in keys}


NAMES = st.sampled_from(["dense", "dense_1", "Dense 2", "layer/out", "x", "ñandú", "quantize", "1", "a.b"])


@st.composite
def documents(draw):
    d = {}
    for k in draw(subset(DEFAULTS)):
        if k == "dense":
            d[k] = draw(dense())
        elif k == "quantize":
            d[k] = draw(st.sampled_from([{}, {"dtype": "uint8"}, {"dtype": "int16"}]))
        elif k == "ada_round_net":
            d[k] = draw(st.one_of(st.none(), optimizer()))
        elif k == "param_equalizer":
            d[k] = draw(st.one_of(st.none(), st.just({}), st.builds(lambda n: {"max_retries": n}, st.integers(0, 500))))
        else:
            d[k] = draw(st.dictionaries(NAMES, dense(1), max_size=3))
    return {"doc": d, "form": draw(st.sampled_from(["kwargs", "json", "json indent", "yaml", "yaml flow"])), "extra": draw(st.booleans())}


def full(doc):
    def opt(o):
        return None if o is None else {**OPTIMIZERS[o["optimizer"]], **o}

    def den(d):
        d = {**DENSE, **d}
        return {**d, "adaround_optimizer": opt(d["adaround_optimizer"]), "lut_cfg": {"reduced_depth": 3, **d["lut_cfg"]}}

    out = {**DEFAULTS, **doc}
    eq = out["param_equalizer"]
    return {"dense": den(out["dense"]), "quantize": {"dtype": "int8", **out["quantize"]}, "ada_round_net": opt(out["ada_round_net"]),
            "param_equalizer": None if eq is None else {**EQUALIZER, **eq}, "specific_layers": {n: den(d) for n, d in out["specific_layers"].items()}}


def load(doc, form):
    if form == "kwargs":
        return QuantizerCfg(**copy.deepcopy(doc))
    path = "cfg.json" if form.startswith("json") else "cfg.yaml"
    with open(path, "w", encoding="utf-8") as f:
        if form.startswith("json"):
            json.dump(doc, f, indent=1 if form == "json indent" else None, ensure_ascii=form == "json")
        else:
            yaml.safe_dump(doc, f, allow_unicode=True, default_flow_style=form == "yaml flow", sort_keys=False)
    try:
        return QuantizerCfg.from_json(path) if path.endswith("json") else QuantizerCfg.from_yml(path)
    finally:
        os.remove(path)


def same(obj, want, path=""):
    """every field of the configuration"""
    for k, v in want.items():
        got = getattr(obj, k) if not isinstance(obj, dict) else obj[k]
        where = f"{path}.{k}"
        if isinstance(v, dict):
            need(got is not None, "a section of the configuration", field=where)
            if isinstance(got, dict):
                need(sorted(got) == sorted(v), "the layers with their own section", got=sorted(got), want=sorted(v))
            same(got, v, where)
        else:
            need(got == v and (v is None) == (got is None) and isinstance(got, bool) == isinstance(v, bool), "the value of the document, or the default", field=where, got=got, want=v)


def check(c, ctx):
    doc = copy.deepcopy(c["doc"])
    if c["extra"]:
        doc["comment"] = {"author": "x"}
    keep = copy.deepcopy(doc)
    cfg = load(doc, c["form"])
    need(doc == keep, "the document is not modified")
    want = full(c["doc"])
    same(cfg, want)
    # another configuration is not affected by what is done to this one
    cfg.specific_layers["other"] = cfg.dense
    cfg.dense.kernel_dtype, cfg.dense.lut_cfg.reduced_depth = "uint3", 77
    same(QuantizerCfg(), DEFAULTS)
    same(load(doc, c["form"]), want)
    ctx.nontrivial(bool(c["doc"]))
    ctx.label(c["form"])


def check_preset(c, ctx):
    cfg = load(c["doc"], c["form"])
    want = full(c["doc"])
    for _ in range(2):
        cfg.tflite()
        same(cfg, {**want, "ada_round_net": None, "param_equalizer": None, "dense": {**want["dense"], "kernel_symmetric": True}})
    same(QuantizerCfg(), DEFAULTS)
    ctx.nontrivial(bool(c["doc"]))


def evaluations(opt, n):
    count = [0]

    def cost(_):
        count[0] += 1
        return 1.0

    opt.set_cost_fn(cost)
    opt.set_initial_neigh([np.zeros(n, dtype=np.int64)])
    best, value = opt.optimize()
    need(value == 1.0 and all(np.array_equal(b, np.zeros(n)) for b in best), "without improvement the initial rounding stays")
    return count[0]


def check_build(c, ctx):
    o = c["opt"]
    cfg = QuantizerCfg(ada_round_net=o, dense={"adaround_optimizer": o})
    want = {**OPTIMIZERS[o["optimizer"]], **o}
    for section in (cfg.ada_round_net, cfg.dense.adaround_optimizer):
        need(section.optimizer == o["optimizer"], "the kind of the document")
        a, b = section.build(), section.build()
        need(a is not b, "every layer gets its own optimizer")
        if o["optimizer"] == "qubo":
            need(isinstance(a, QUBOAnnealer), "a QUBO optimizer")
            continue
        need(isinstance(a, RoundingAnnealer), "a rounding annealer")
        if o["optimizer"] == "annealer":
            need((a.Tmin, a.Tmax, a.updates, a.steps) == (want["t_min"], want["t_max"], want["updates"], want["steps"]), "the schedule of the document",
                 got=(a.Tmin, a.Tmax, a.updates, a.steps))
        else:
            need(a.steps == 0, "only the local search")
        # every retry evaluates the loss once more
        other = dict(o, max_retries=want["max_retries"] + c["more"], **({"steps": 3} if o["optimizer"] == "annealer" else {}))
        small = dict(other, max_retries=want["max_retries"])
        counts = [evaluations(QuantizerCfg(ada_round_net=v).ada_round_net.build(), 4) for v in (small, other)]
        need(counts[1] - counts[0] == c["more"], "the retries of the document", counts=counts)
    ctx.nontrivial(len(o) > 1)
    ctx.label(o["optimizer"])


@st.composite
def invalid(draw):
    c = draw(documents())
    where = draw(st.sampled_from(["ada_round_net", "dense.adaround_optimizer", "param_equalizer", "dense", "quantize", "dense.lut_cfg", "dense.lut_cfg.reduced_depth", "specific_layers", "dense.kernel_symmetric"]))
    if where in ("ada_round_net", "dense.adaround_optimizer", "param_equalizer"):
        name = st.one_of(st.sampled_from(["anealer", "QUBO", "", "Base", "base ", "minima", "none", "annealing", "local", "quantum", "default", "scipy", "tflite"]), st.text(max_size=8).filter(lambda s: s not in OPTIMIZERS))
        bad = draw(st.sampled_from([{"optimizer": draw(name)}, {"optimizer": "base", "max_retries": "many"}, {"optimizer": "base", "max_retries": [3]}, "base", 3]))
        if where == "param_equalizer" and isinstance(bad, dict) and draw(st.booleans()):
            bad = {"optimizer": draw(st.sampled_from(["annealer", "qubo"]))}
    elif where in ("dense", "quantize", "dense.lut_cfg", "specific_layers"):
        bad = draw(st.sampled_from(["int8", 3, [1], None]))
    else:
        bad = draw(st.sampled_from([[1], {"x": 1}, "lots", None]))
    return {**c, "where": where, "bad": bad}


def check_invalid(c, ctx):
    doc = copy.deepcopy(c["doc"])
    *outer, last = c["where"].split(".")
    d = doc
    for k in outer:
        d = d.setdefault(k, {})
    d[last] = c["bad"]
    ctx.nontrivial()
    try:
        load(doc, c["form"])
    except (ValueError, TypeError):
        return
    need(False, "an invalid configuration is rejected", where=c["where"], value=c["bad"])


def check_samples(c, ctx):
    ctx.nontrivial()
    folder = os.path.join(verif_env.REPO, "quantizer", "itcl_quantizer", "config", "samples")
    docs = {}
    for ext in ("json", "yaml"):
        path = os.path.join(folder, ext, f"{c['name']}.{ext}")
        cfg = QuantizerCfg.from_json(path) if ext == "json" else QuantizerCfg.from_yml(path)
        with open(path, encoding="utf-8") as f:
            docs[ext] = json.load(f) if ext == "json" else yaml.safe_load(f)
        same(cfg, full({k: v for k, v in docs[ext].items() if k in DEFAULTS}))
        if c["name"] == "tflite":
            preset = QuantizerCfg()
            preset.tflite()
            same(preset, full({k: v for k, v in docs[ext].items() if k in DEFAULTS}))
    need(docs["json"] == docs["yaml"], "both samples describe the same configuration")


def subs():
    return [
        Sub("document", documents(), check, quick=2500, thorough=40000),
        Sub("preset", documents(), check_preset, quick=600, thorough=8000),
        Sub("optimizer", st.fixed_dictionaries({"opt": optimizer(), "more": st.integers(1, 20)}), check_build, quick=600, thorough=8000),
        Sub("invalid", invalid(), check_invalid, quick=1000, thorough=15000),
        Sub("samples", st.fixed_dictionaries({"name": st.sampled_from(["base", "tflite"])}), check_samples, quick=4, thorough=4),
    ]
