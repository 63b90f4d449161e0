"""C23 parameter equalization never worsens the loss and leaves consistent nodes."""
import math
import random

import numpy as np
from hypothesis import strategies as st

from pbt import Sub, need
from pbt.gen import limits, vary
from pbt.nodes import inside, iv, lut_iv
from pbt.qnets import build, check_doc, float_layers, in_domain, MANY, net_case

from itcl_quantization import Quantization
from itcl_quantizer.equalizers.param_equalizer.abstract_param_optimizer import AbstractParamOptimizer
from itcl_quantizer.equalizers.param_equalizer.annealer import ParamEqAnnealer
from itcl_quantizer.equalizers.param_equalizer.bfs_equalizer import BFSEqualizer
from itcl_quantizer.equalizers.param_equalizer.param_equalizer import ParamEqualizerFullNet, ParamEqualizerNet
from itcl_quantizer.tensor_extractor.tensor import NodeTensorBase

RULE = (
    "A case is a set of nodes (tensor, parameters only, or with a table) and a cost over their parameters, or a quantized "
    "dense network of up to 3 layers with a loss over its inference, an equalizer (best first, annealer; whole network, per "
    "layer, or through the configuration, with or without rounding optimization afterwards) and a seed of the random "
    "generator. Non-trivial: the optimization found a lower cost."
)
ASSUMPTIONS = ["simanneal is a stand-in with the same schedule, acceptance rule and result; its random numbers are seeded per case"]
TYPES = ["int8", "int8", "uint8", "int4", "int2", "uint3", "int16", "int32"]


@st.composite
def nodes_case(draw):
    nodes = []
    for _ in range(draw(st.integers(1, 4))):
        t = draw(st.sampled_from(TYPES))
        lo, hi = limits(t)
        zp = draw(st.one_of(st.sampled_from([lo, hi, lo + 1, (lo + hi) // 2, 0 if lo <= 0 else lo]), st.integers(lo, hi)))
        nodes.append({"t": t, "s": 10.0 ** draw(st.floats(-8, 1, width=32)) * draw(st.sampled_from([1.0, 1.0, 0.999999])), "zp": zp,
                      "kind": draw(st.sampled_from(["tensor", "tensor", "bare", "lut"])) if hi - lo < 300 else draw(st.sampled_from(["tensor", "bare"]))})
    if draw(st.integers(0, 5)) == 0:
        nodes[0]["s"] = draw(st.sampled_from([1.0, 0.1, 0.01, 1e-3, 10.0]))
    return {"nodes": nodes, "seed": draw(st.integers(0, 2**31 - 1)), "opt": draw(st.sampled_from(["bfs", "bfs", "anneal"])),
            "n": draw(st.sampled_from([0, 1, 5, 20, 40])), "off": draw(st.sampled_from([0.0, 0.0, -1000.0, -5.5, 1e6])), "cost": draw(st.sampled_from(["scale", "zp", "both", "rough", "flat", "codes"])),
            "tmax": draw(st.sampled_from([0.1, 5.0, 25000.0]))}


def optimizer(c):
    if c["opt"] == "bfs":
        return BFSEqualizer(c["n"])
    return ParamEqAnnealer(t_min=0.1, t_max=c.get("tmax", 0.1), updates=0, steps=c["n"])


def check_nodes(c, ctx):
    rng = np.random.RandomState(c["seed"])
    nodes, xs, outs = [], [], []
    for k, n in enumerate(c["nodes"]):
        q = Quantization(n["t"])
        lo, hi = limits(n["t"])
        node = NodeTensorBase(n["s"], n["zp"], f"n{k}", q)
        x, out = None, None
        if n["kind"] == "tensor":
            x = vary(rng.uniform(-0.6, 0.6, size=(3, 2)) * n["s"] * min(hi - lo, 1000))
            node = node.with_tensor(x)
        elif n["kind"] == "lut":
            out = (2.5 / (hi - lo), (lo + hi) // 2)
            node = node.with_lut(np.tanh, *out)
        nodes.append(node)
        xs.append(x)
        outs.append(out)
    goal = [(n["s"] * rng.uniform(0.8, 1.25), n["zp"] + int(rng.randint(-3, 4))) for n in c["nodes"]]
    salt = int(rng.randint(1, 10**6))
    log = []

    def codes(node, n, x, out, msg):
        lo, hi = limits(n["t"])
        need(isinstance(node.zero_point, (int, np.integer)) and lo <= node.zero_point <= hi, f"{msg}: zero point in the type", got=node.zero_point, type=n["t"])
        need(node.scale > 0 and math.isfinite(node.scale), f"{msg}: positive scale", got=node.scale)
        if x is not None:
            inside(node.quantized, iv(x, node.scale, node.zero_point, n["t"]), f"{msg}: codes")
        if out is not None:
            got = np.array([node.LUT[k] for k in range(len(node.LUT))])
            inside(got, lut_iv(np.tanh, n["t"], node.scale, node.zero_point, *out, f32=False), f"{msg}: table")

    def value():
        tot = 0.0
        for node, n, g in zip(nodes, c["nodes"], goal):
            if c["cost"] in ("scale", "both"):
                tot += abs(math.log(node.scale / g[0]))
            if c["cost"] in ("zp", "both"):
                tot += abs(node.zero_point - g[1])
            if c["cost"] == "codes" and n["kind"] == "tensor":
                tot += float(np.abs(np.asarray(node.dequantized) - node.fp_tensor).sum()) / n["s"]
            if c["cost"] == "rough":
                tot += hash((salt, round(node.scale / g[0] * 50), int(node.zero_point))) % 100
        return tot + c["off"]

    def cost():
        for node, n, x, out in zip(nodes, c["nodes"], xs, outs):
            codes(node, n, x, out, "a tried state")
        log.append((value(), [(n.scale, n.zero_point) for n in nodes]))
        return log[-1][0]

    first = value()
    opt = optimizer(c)
    need(isinstance(opt, AbstractParamOptimizer), "is a parameter optimizer")
    random.seed(c["seed"])
    need(opt.set_cost_fn(cost) is opt and opt.set_initial_neigh(nodes) is opt, "setters return the optimizer")
    best, got = opt.optimize()
    need(len(best) == len(nodes) and all(a is b for a, b in zip(best, nodes)), "the nodes of the network are returned")
    for node, n, x, out in zip(nodes, c["nodes"], xs, outs):
        codes(node, n, x, out, "the result")
    need(value() <= first, "never worse than the initial parameters", got=value(), want=first)
    need(got == value(), "the returned cost is the cost of the final parameters", got=got, want=value())
    need(got == min(v for v, _ in log), "the best state that was tried is kept", got=got, want=min(v for v, _ in log))
    need(len(log) > c["n"], "the optimizer searches", evaluations=len(log))
    ctx.nontrivial(got < first)
    ctx.label(c["opt"])


# ---------------------------------------------------------------- whole networks
@st.composite
def eqnet_case(draw, large=False):
    size = {"dim": st.sampled_from([1, 5, 8, 16, 17, 32, 33, 65]), "count": MANY} if large else {}
    c = draw(net_case(max_layers=3, big=5, rows=6, acts=["linear", "tanh", "sigmoid", "relu", "relu6"], **size))
    c["seed"] = draw(st.integers(0, 2**31 - 1))
    c["n"] = draw(st.sampled_from([0, 2, 6, 12]))
    c["off"] = draw(st.sampled_from([0.0, 0.0, -1e3, 1e3]))
    c["how"] = draw(st.sampled_from(["cfg", "cfg", "cfg+round", "full", "per layer", "full anneal", "per layer anneal"]))
    return c


def check_eqnet(c, ctx):
    x = vary(np.array(c["x"], dtype=np.float32))
    target = float_layers(c)[-1][1 if c["layers"][-1]["act"] == "softmax" else 2]
    log = []

    def loss(net):
        log.append(float(np.mean((np.asarray(net.infer(x)) - target) ** 2)) + c["off"])
        return log[-1]

    plain, before_doc = build(c)
    if not in_domain(before_doc, -18, 20):
        ctx.label("rescaling factor out of range")
        return
    before = loss(plain.as_sequential_network())
    log.clear()
    random.seed(c["seed"])
    rounded = False
    if c["how"].startswith("cfg"):
        cfg = dict(c["cfg"], param_equalizer={"max_retries": c["n"]})
        if c["how"] == "cfg+round":
            cfg["ada_round_net"], rounded = {"optimizer": "base", "max_retries": 3}, True
        net, doc = build(dict(c, cfg=cfg), loss_fn=loss)
    else:
        net = plain
        kind = "anneal" if c["how"].endswith("anneal") else "bfs"
        eq = ParamEqualizerFullNet if c["how"].startswith("full") else ParamEqualizerNet
        eq(net, loss, lambda: optimizer({"opt": kind, "n": c["n"], "tmax": 0.1})).equalize()
        doc = net.as_json()
    need(len(log) > c["n"], "the loss of the network is used", got=len(log))
    tried = min(log)
    after = loss(net.as_sequential_network())
    need(after <= before, "the loss never gets worse", before=before, after=after)
    need(after == tried, "the network keeps the best parameters that were tried", got=after, want=tried)
    pol = {(j, k): None for j, s in enumerate(c["layers"]) for k in ("w", "b", "lut") if k != "lut" or s["act"] in ("tanh", "sigmoid")}
    check_doc(c, doc, free=True, policies=pol if rounded else None)
    need(doc["graph"][0] == before_doc["graph"][0], "the input of the network does not change")
    ctx.nontrivial(after < before)
    ctx.label(c["how"])


def check_off(c, ctx):
    """without a loss, or without the options, nothing is optimized"""
    plain, want = build(c)
    calls = []
    _, a = build(dict(c, cfg=dict(c["cfg"], param_equalizer={"max_retries": 5}, ada_round_net={"optimizer": "base"})))
    _, b = build(c, loss_fn=lambda net: calls.append(1) or 1.0)
    for d in (want, a, b):
        d.pop("generated_at", None)
    need(a == want, "no optimization without a loss")
    need(b == want and not calls, "no optimization unless it is configured")
    ctx.nontrivial()


def subs():
    return [
        Sub("nodes", nodes_case(), check_nodes, quick=700, thorough=12000),
        Sub("network", eqnet_case(), check_eqnet, quick=250, thorough=3500),
        Sub("large network", eqnet_case(large=True), check_eqnet, quick=24, thorough=400),
        Sub("off", net_case(max_layers=2, big=4, rows=4), check_off, quick=40, thorough=400),
    ]
