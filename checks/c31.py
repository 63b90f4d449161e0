"""C31 collisions count the distinct values that the quantization can no longer tell apart."""
import contextlib
import io
import math
from functools import partial

import numpy as np
from hypothesis import strategies as st

from pbt import Sub, need
from pbt import pairs
from pbt.gen import vary
from pbt.qnets import build, float_layers, float_noise, MANY, net_case, WIDE

from itcl_quantization import Quantization
from itcl_quantizer.util.collisions import calc_collisions

RULE = (
    "A case is a float tensor with repeated, close and distinct values (rank 1 to 3), the codes of a quantization or arbitrary "
    "codes, and a number of decimals; or a quantized dense network. Counts are compared with grouping by hand. "
    "Non-trivial: some values collide and some do not."
) + pairs.RULE


def by_hand(keys, codes):
    """number of distinct values that share their code with another value"""
    groups = {}
    for k, q in zip(keys, codes):
        groups.setdefault(q, set()).add(k)
    return sum(len(g) for g in groups.values() if len(g) > 1)


@st.composite
def tensor_case(draw, large=False):
    f32 = draw(st.booleans())
    dec = draw(st.integers(0, 5 if f32 else 9))
    n = draw(st.integers(1, 24))
    pool = draw(st.sampled_from([3, 8, 40, 4000]))
    how = draw(st.sampled_from(["quantize", "quantize", "free", "constant"]))
    # integers k that stand for k * 10^-(dec + 1), never half way between two roundings
    if large:
        n = draw(st.one_of(st.sampled_from([100, 128, 129, 500, 513, 1000, 1025, 4097]), st.integers(25, 5000)))
        rng = np.random.RandomState(draw(st.integers(0, 2**31 - 1)))
        ks = rng.randint(-pool, pool + 1, size=n)
        ks = np.where(ks % 10 == 5, ks + 1, ks).tolist()
        codes = rng.randint(-draw(st.sampled_from([4, 100, 3000])), 5, size=n).tolist() if how == "free" else None
    else:
        ks = draw(st.lists(st.integers(-pool, pool).filter(lambda k: k % 10 != 5), min_size=n, max_size=n))
        codes = draw(st.lists(st.integers(-4, 4), min_size=n, max_size=n)) if how == "free" else None
    if not f32:  # values that only differ beyond single precision
        base = draw(st.sampled_from([0, 0, 10**6, 10**9, -(10**8)]))
        ks = [k + base for k in ks]
    return {"dec": dec, "k": ks, "how": how, "codes": codes, "bits": draw(st.sampled_from(["int2", "int4", "int8", "uint8"])), "div": draw(st.sampled_from([1, 1, 2, 3, 4])),
            "f32": f32}


def check_tensor(c, ctx):
    x = np.array([k / 10 ** (c["dec"] + 1) for k in c["k"]])
    if c["f32"]:
        x = x.astype(np.float32)
    if c["how"] == "quantize":
        q = Quantization(c["bits"]).quantize(x, 0, max(float(np.abs(x).max()) / 8, 1e-9))
    elif c["how"] == "constant":
        q = np.full(len(x), 3)
    else:
        q = np.array(c["codes"])
    shape = (c["div"], -1) if len(x) % c["div"] == 0 else (-1,)
    keys = [(k + 5) // 10 for k in c["k"]] if c["dec"] > 0 else c["k"]  # no decimals: compared as they are
    want = by_hand(keys, q.tolist())
    a, b = x.reshape(shape), q.reshape(shape)
    got = calc_collisions(vary(a), vary(b), c["dec"])
    need(got == want, "number of colliding values", got=got, want=want)
    need(calc_collisions(a, b, c["dec"]) == got, "deterministic")
    if c["how"] != "free":
        perm = np.random.RandomState(len(x)).permutation(len(x))
        need(calc_collisions(x[perm], q[perm], c["dec"]) == got, "the order of the values does not matter")
    ctx.nontrivial(0 < want < len(set(keys)))
    ctx.label("no collision", want == 0)


@st.composite
def layer_case(draw, large=False):
    c = draw(net_case(max_layers=2, dim=WIDE, count=MANY) if large else net_case(max_layers=3, big=6, rows=5))
    c["eps"] = draw(st.sampled_from([0, 0, 2, 7]))
    c["shift"] = draw(st.sampled_from([1.0, 1.0, 4.0, 16.0]))
    return c


def check_layer(c, ctx):
    net, _ = build(c)
    fl = float_layers(c)
    noise = float_noise(c)
    rows = len(c["x"])
    j = total = 0
    for res in net.as_quant_results():
        layer = res.layer
        fc = [o for o in res.operators or [] if o.as_json()["op_type"] == "FULLY_CONNECTED"]
        with contextlib.redirect_stdout(io.StringIO()):
            policy = partial(calc_collisions, epsilon=c["eps"])
            if not fc:
                need(layer is None or layer.sum_collisions(res, policy) == 0, "no weights, no collisions")
                continue
            kern, out = fc[0].inputs[1], fc[0].outputs[0]
            kern.update_quant_parameters(kern.scale * c["shift"], kern.zero_point)
            nodes = [(kern, np.array(c["layers"][j]["w"]).T, 1, 0.0), (out, fl[j][1], rows, noise[j][0])]
            if len(res.operators) == 2:
                nodes.append((res.operators[1].outputs[0], fl[j][2], rows, noise[j][1]))
            seen = []
            got = dict(layer.calc_collisions(res, lambda f, q: seen.append((f, q)) or policy(f, q)))
            again = layer.sum_collisions(res, policy)
        want = {}
        for n, data, div, extra in nodes:
            f, q = np.array(n.fp_tensor), np.array(n.quantized)
            need(f.shape == data.shape and np.allclose(f, data, rtol=1e-4, atol=1e-4 + extra), f"float values of {n.name}")
            need(any(s[0].shape == f.shape and np.array_equal(s[0], f) and np.array_equal(s[1], q) for s in seen), f"the policy compares the values of {n.name} with their codes")
            want[n.name] = math.ceil(by_hand(np.round(f.ravel(), c["eps"]).tolist() if c["eps"] else f.ravel().tolist(), q.ravel().tolist()) / div)
        need(got == want, f"collisions of layer {j} by node", got=got, want=want)
        need(again == sum(want.values()), f"collisions of layer {j}", got=again, want=sum(want.values()))
        total += again
        j += 1
    ctx.nontrivial(total > 0)


def subs():
    return [pairs.two(tensor_case(), check_tensor, quick=400, twist={"dec": st.integers(0, 5), "k": "reverse"}),
            Sub("tensors", tensor_case(), check_tensor, quick=3000, thorough=20000),
        Sub("layers", layer_case(), check_layer, quick=600, thorough=4000),
        Sub("large tensors", tensor_case(large=True), check_tensor, quick=200, thorough=1500),
        Sub("large layers", layer_case(large=True), check_layer, quick=48, thorough=400),
    ]
