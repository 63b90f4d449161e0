"""C22 rounding optimization never worsens the loss and is applied to the network."""
import random

import numpy as np
from hypothesis import strategies as st

from pbt import Sub, need
from pbt.gen import limits, sizes, vary
from pbt.nodes import inside, iv, lut_iv, sigmoid
from pbt.qnets import build, check_doc, in_domain, MANY, net_case

from itcl_quantization import Quantization
from itcl_quantizer.equalizers.adaround.adaround import AdaRound, AdaroundNet
from itcl_quantizer.equalizers.adaround.annealer import RoundingAnnealer
from itcl_quantizer.equalizers.adaround.iround_optimizer import IRoundOptimizer
from itcl_quantizer.tensor_extractor.tensor import NodeTensorBase

RULE = (
    "A case is a set of binary policies and a cost function over them (random quadratic forms, tables, plateaus), or nodes "
    "with a loss, or a quantized dense/LSTM network with a loss, a seed of the random generator and annealer settings. "
    "Non-trivial: the optimization found a lower cost."
)
ASSUMPTIONS = ["simanneal is a stand-in with the same schedule, acceptance rule and result; its random numbers are seeded per case"]


# ---------------------------------------------------------------- the annealer alone
@st.composite
def anneal_case(draw, large=False):
    if large:
        shapes = draw(st.lists(st.sampled_from([[31], [33], [64], [65], [8, 8], [9, 7], [16, 17], [32, 3], [1, 130], [130, 1], [4, 4, 5]]), min_size=1, max_size=4))
    else:
        shapes = draw(st.lists(st.sampled_from([[1], [2], [3], [5], [2, 2], [2, 3], [1, 4], [3, 1], [6], [2, 8], [4, 4]]), min_size=1, max_size=3))
    return {"shapes": shapes, "seed": draw(st.integers(0, 2**31 - 1)), "kind": draw(st.sampled_from(["quad", "quad", "target", "plateau", "zero", "table"])),
            "steps": draw(st.sampled_from([0, 0, 5, 40, 120])), "t": draw(st.sampled_from([[0.1, 0.1], [0.1, 25000.0], [0.01, 3.0]])),
            "dt": draw(st.sampled_from(["int64", "int64", "int32"]))}


def cost_of(c):
    rng = np.random.RandomState(c["seed"])
    n = sum(int(np.prod(s)) for s in c["shapes"])
    Q, target = rng.normal(size=(n, n)), rng.randint(0, 2, n)
    salt = rng.randint(1, 10**6)

    def fn(neigh):
        v = np.concatenate([np.asarray(a).ravel() for a in neigh]).astype(float)
        if c["kind"] == "quad":
            return float(v @ Q @ v)
        if c["kind"] == "target":
            return float(np.abs(v - target).sum())
        if c["kind"] == "plateau":
            return float(np.abs(v - target).sum() // 2)
        if c["kind"] == "zero":
            return float(max(0, np.abs(v - target).sum() - n / 2))
        return float(hash((salt, tuple(v.astype(int).tolist()))) % 1000)

    return fn, [rng.randint(0, 2, s).astype(c["dt"]) for s in c["shapes"]]


def check_anneal(c, ctx):
    fn, start = cost_of(c)
    seen = []

    def cost(neigh):
        need([list(np.shape(a)) for a in neigh] == c["shapes"], "shapes of a tried policy", got=[np.shape(a) for a in neigh])
        for a in neigh:
            need(set(np.unique(a).tolist()) <= {0, 1}, "a tried policy is binary", got=a)
        seen.append(fn(neigh))
        return seen[-1]

    keep = [a.copy() for a in start]
    a = RoundingAnnealer(t_min=c["t"][0], t_max=c["t"][1], updates=0, steps=c["steps"], max_retries=100)
    need(isinstance(a, IRoundOptimizer), "the annealer is a rounding optimizer")
    random.seed(c["seed"])
    need(a.set_cost_fn(cost) is a and a.set_initial_neigh(start) is a, "setters return the optimizer")
    best, value = a.optimize()
    need(all(np.array_equal(x, y) for x, y in zip(keep, start)), "the initial policies are not modified")
    need([list(np.shape(x)) for x in best] == c["shapes"], "shapes of the result", got=[np.shape(x) for x in best])
    need(all(set(np.unique(x).tolist()) <= {0, 1} for x in best), "the result is binary", got=best)
    need(value == fn(best), "the returned cost is the cost of the returned policies", got=value, want=fn(best))
    need(value <= fn(start), "never worse than the initial policies", got=value, want=fn(start))
    need(value == min(seen), "the best policy that was tried is returned", got=value, want=min(seen))
    counts = [int(np.prod(s)) for s in c["shapes"]]
    if np.prod(counts) <= 6:
        # A move flips one bit of every tensor. 100 retries: a better neighbour is missed with probability (5/6)^100
        for ks in np.ndindex(*counts):
            flipped = [b.copy() for b in best]
            for f, k in zip(flipped, ks):
                f.ravel()[k] ^= 1
            need(fn(flipped) >= value, "no flip of one bit of each small tensor improves the result", flip=ks, got=value, better=fn(flipped))
    # simanneal asks the energy of whatever state it holds
    rng = np.random.RandomState(c["seed"] ^ 1)
    for _ in range(3):
        other = [rng.randint(0, 2, s).astype(c["dt"]) for s in c["shapes"]]
        for k in range(len(other)):
            a.state = best[:k] + [other[k]] + best[k + 1 :]
            need(a.energy() == fn(a.state), "the energy is the cost of the state", got=a.energy(), want=fn(a.state))
    ctx.nontrivial(value < fn(start))


# ---------------------------------------------------------------- AdaRound over nodes with any optimizer
class Scripted(IRoundOptimizer):
    """asks the cost of the given policies and returns one of them"""

    def __init__(self, tries, answer):
        self.tries, self.answer, self.log = tries, answer, {}

    def set_cost_fn(self, fn):
        self.fn = fn
        return self

    def set_initial_neigh(self, neigh):
        self.log["neigh"] = neigh
        return self

    def set_layer(self, layer):
        self.log["layer"] = layer
        return self

    def set_quant_results(self, r):
        self.log["results"] = r
        return self

    def set_input_data(self, d):
        self.log["input"] = d
        return self

    def optimize(self):
        self.costs = [self.fn([a.copy() for a in t]) for t in self.tries]
        return [a.copy() for a in self.tries[self.answer]], self.costs[self.answer]


@st.composite
def nodes_case(draw, large=False):
    some = [[1], [129], [64, 65], [33, 7], [1, 1000], [1000, 1], [128, 128], [5, 5, 5]] if large else [[1], [3], [2, 3], [4, 2]]
    return {"shapes": draw(st.lists(st.sampled_from(some), min_size=1, max_size=3)), "seed": draw(st.integers(0, 2**31 - 1)),
            "t": draw(st.sampled_from(["int8", "int8", "int4", "uint8"])), "n": draw(st.integers(1, 6)), "answer": draw(st.integers(0, 5)),
            "lut": draw(st.booleans())}


def check_nodes(c, ctx):
    rng = np.random.RandomState(c["seed"])
    q = Quantization(c["t"])
    lo, hi = limits(c["t"])
    nodes, xs = [], []
    for s in c["shapes"]:
        x = vary(rng.uniform(-1, 1, s) * 0.3 * (hi - lo) * 0.1)
        zp = int(rng.randint(lo, hi + 1))
        xs.append((x, 0.1, zp))
        nodes.append(NodeTensorBase(0.1, zp, "n", q).with_tensor(x))
    luts = []
    if c["lut"]:
        i = NodeTensorBase(4 / (hi - lo), (lo + hi) // 2, "l", q).with_lut(np.tanh, 2 / (hi - lo), (lo + hi) // 2)
        luts = [i.LUT]
    tensors = nodes + luts
    base = [np.array(t.rounding_policy) for t in tensors]
    tries = [[rng.randint(0, 2, b.shape) for b in base] for _ in range(c["n"])]
    opt = Scripted(tries, c["answer"] % c["n"])

    def state():
        return [np.array(n.quantized) for n in nodes] + [np.array([l[k] for k in range(len(l))]) for l in luts]

    def expected(neigh):
        out = [iv(x, s, zp, c["t"], p) for (x, s, zp), p in zip(xs, neigh)]
        if luts:
            z = (lo + hi) // 2
            out.append(lut_iv(np.tanh, c["t"], 4 / (hi - lo), z, 2 / (hi - lo), z, policy=neigh[-1], f32=False))
        return out

    calls = []

    def cost():
        for got, want in zip(state(), expected(tries[len(calls)])):
            inside(got, want, "the policies are applied before the cost is computed")
        calls.append(1)
        return float(100 - len(calls))

    layer, results, data = object(), object(), np.ones((2, 2))
    r = AdaRound(opt, cost, layer, results, float_input=data).round(tensors)
    need(r is tensors or list(r) == tensors, "returns the same nodes")
    need(opt.log.get("layer") is layer and opt.log.get("results") is results and opt.log.get("input") is data, "the optimizer knows the layer, the results and the input")
    need(all(np.array_equal(a, b) for a, b in zip(opt.log["neigh"], base)) and len(opt.log["neigh"]) == len(base), "starts from the current policies")
    need(opt.costs == [100.0 - k - 1 for k in range(c["n"])], "the cost of each policy is the loss", got=opt.costs)
    final = tries[c["answer"] % c["n"]]
    for got, want in zip(state(), expected(final)):
        inside(got, want, "the returned policies are applied")
    for t, p in zip(tensors, final):
        need(np.array_equal(t.rounding_policy, p), "the returned policies are kept")
    need([(n.scale, n.zero_point) for n in nodes] == [(s, z) for _, s, z in xs], "parameters do not change")
    ctx.nontrivial(c["n"] > 1 and c["answer"] % c["n"] != c["n"] - 1)


# ---------------------------------------------------------------- whole networks
@st.composite
def adanet_case(draw, large=False):
    size = {"dim": st.sampled_from([1, 5, 8, 16, 17, 32, 33]), "count": MANY} if large else {}
    c = draw(net_case(max_layers=2, big=4, rows=5, acts=["linear", "tanh", "sigmoid", "relu"], dtypes=False, **size))
    c["cfg"] = {"dense": {"kernel_dtype": draw(st.sampled_from(["int8", "int4", "int3"])), "kernel_symmetric": draw(st.booleans()),
                          "activation_dtype": "int6", "bias_add_dtype": "int6"}}
    c["seed"] = draw(st.integers(0, 2**31 - 1))
    c["how"] = draw(st.sampled_from(["base", "annealer", "direct"]))
    c["off"] = draw(st.sampled_from([0.0, 0.0, -1e3, 1e3]))
    return c


def check_adanet(c, ctx):
    x = vary(np.array(c["x"], dtype=np.float32))
    from pbt.qnets import float_layers

    target = float_layers(c)[-1][1 if c["layers"][-1]["act"] == "softmax" else 2]
    log = []

    def loss(net):
        log.append(float(np.mean((np.asarray(net.infer(x)) - target) ** 2)) + c["off"])
        return log[-1]

    plain, before_doc = build(c)
    if not in_domain(before_doc):
        ctx.label("rescaling factor out of range")
        return
    before = loss(plain.as_sequential_network())
    log.clear()
    random.seed(c["seed"])
    if c["how"] == "direct":
        net = plain
        AdaroundNet(net, loss, lambda: RoundingAnnealer(t_min=0.1, t_max=0.1, steps=3, max_retries=5)).round()
        doc = net.as_json()
    else:
        opt = {"optimizer": "base", "max_retries": 5} if c["how"] == "base" else {"optimizer": "annealer", "steps": 8, "max_retries": 4, "t_max": 1.0}
        net, doc = build(dict(c, cfg=dict(c["cfg"], ada_round_net=opt)), loss_fn=loss)
    need(len(log) >= 2 * len(c["layers"]), "every layer is rounded with the loss of the network", got=len(log))
    tried = min(log)
    after = loss(net.as_sequential_network())
    need(after <= before, "the loss never gets worse", before=before, after=after)
    need(after == tried, "the network keeps the best rounding that was tried", got=after, want=tried)
    pol = {}
    for j, s in enumerate(c["layers"]):
        for k in ("w", "b", "lut"):
            pol[(j, k)] = None
    check_doc(c, doc, policies={k: v for k, v in pol.items() if k[1] != "lut" or c["layers"][k[0]]["act"] in ("tanh", "sigmoid")})
    strip = lambda d: [[(n["scale"], n["zero_point"]) for n in o["inputs"] + o["outputs"]] for o in d["graph"]]  # noqa: E731
    need(strip(doc) == strip(before_doc), "scales and zero points do not change")
    ctx.nontrivial(after < before)
    ctx.label(c["how"])


def subs():
    return [
        Sub("annealer", anneal_case(), check_anneal, quick=1000, thorough=8000),
        Sub("nodes", nodes_case(), check_nodes, quick=800, thorough=6000),
        Sub("network", adanet_case(), check_adanet, quick=320, thorough=2500),
        Sub("large annealer", anneal_case(large=True), check_anneal, quick=80, thorough=600),
        Sub("large nodes", nodes_case(large=True), check_nodes, quick=80, thorough=600),
        Sub("large network", adanet_case(large=True), check_adanet, quick=40, thorough=300),
    ]
