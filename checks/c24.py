"""C24 the QUBO of a dense layer has the energy of the rounding error, and its minimum is applied."""
import contextlib
import itertools
import os

import numpy as np
from hypothesis import strategies as st

from pbt import Sub, need
from pbt.gen import bulk_floats, vary
from pbt.nodes import inside, iv
from pbt.qnets import build, check_doc, float_layers, net_case

import dimod
from itcl_quantizer.equalizers.adaround.adaround import AdaroundNet
from itcl_quantizer.equalizers.adaround.Calculationsint import ADAInt
from itcl_quantizer.equalizers.adaround import qubocalculation as qc
from itcl_quantizer.equalizers.adaround.iround_optimizer import IRoundOptimizer
from itcl_quantizer.equalizers.adaround.qubo import QUBOAnnealer

RULE = (
    "A case is a dense layer (up to 6 inputs and 4 neurons, up to 8 calibration rows, arbitrary scales) or a quantized "
    "network rounded with the QUBO optimizer. The energies of every assignment of every neuron are compared with the mean "
    "squared error of that rounding, and the final rounding with the best of all of them. Non-trivial: the best rounding is "
    "not rounding to nearest."
)
ASSUMPTIONS = ["neal and dimod are stand-ins: exact minimization of the binary model that the code builds"]


def arrays(c):
    X, K, b = vary(np.array(c["x"])), vary(np.array(c["k"])), vary(np.array(c["b"]))
    return X, K, b, np.array(c["o"])


@st.composite
def layer_case(draw, large=False):
    n_in, n_out, n = draw(st.integers(1, 6)), draw(st.integers(1, 4)), draw(st.integers(1, 8))
    if large:
        n_in, n_out, n = draw(st.sampled_from([[1, 40, 30], [2, 33, 65], [8, 9, 20], [9, 5, 129], [10, 3, 257], [3, 17, 300], [7, 12, 100], [11, 2, 33]]))
    i_s, k_s = (10.0 ** draw(st.floats(-3, 1, width=32)) for _ in range(2))
    jitter = np.random.RandomState(draw(st.integers(0, 2**31 - 1)))

    def values(shape):  # zeros stay; nothing else lies on a rounding boundary
        return np.array(draw(bulk_floats(shape, 1.0))) * jitter.uniform(0.9, 1.0, shape)

    x = values((n, n_in)) * i_s * draw(st.sampled_from([2, 20, 130]))
    if draw(st.integers(0, 3)) == 0:
        x[:, draw(st.integers(0, n_in - 1))] = 0.0  # an input that is always zero: missing couplings
    k = values((n_out, n_in)) * k_s * draw(st.sampled_from([1, 8, 120]))
    b = values((n_out,)) * i_s * k_s * draw(st.sampled_from([0, 3, 1000]))
    noise = values((n, n_out))
    o = x @ k.T + b + noise * i_s * k_s * draw(st.sampled_from([0, 0, 5]))
    return {"x": x.tolist(), "k": k.tolist(), "b": b.tolist(), "o": o.tolist(), "is": i_s, "ks": k_s}


def clear(v, at=0.0):
    """no value next to a rounding boundary (zero is exact)"""
    v = np.asarray(v)[np.asarray(v) != 0] - at
    return v.size == 0 or np.abs(v - np.round(v)).min() > 1e-9


def errors(X, K, b, o, i_s, k_s, l):
    """mean squared error of neuron l for every assignment of (weights..., bias), in the order of itertools.product"""
    r = np.round(X / i_s)
    base_k, base_b = np.floor(K[l] / k_s), np.floor(b[l] / (i_s * k_s))
    S = np.array(list(itertools.product([0, 1], repeat=X.shape[1] + 1)), dtype=float)
    y = i_s * k_s * (r @ (base_k + S[:, :-1]).T + base_b + S[:, -1])
    return S, ((o[:, l][:, None] - y) ** 2).mean(axis=0)


def energies(dic, keys, S):
    E = np.zeros(len(S))
    at = {k: n for n, k in enumerate(keys)}
    for (u, v), w in dic.items():
        need(u in at and v in at, "only the variables of the neuron", key=(u, v))
        E += w * S[:, at[u]] * S[:, at[v]]
    return E


def same_up_to_constant(E, M, msg, scale):
    d = (M - E) - (M - E)[0]
    need(np.abs(d).max() <= 1e-8 * (scale + np.abs(M).max() + np.abs(E).max()), msg, worst=np.abs(d).max(), spread=np.ptp(M))


def check_layer(c, ctx):
    X, K, b, o = arrays(c)
    i_s, k_s = c["is"], c["ks"]
    n_out, n_in = K.shape
    if not clear(K / k_s) or not clear(b / (i_s * k_s)) or not clear(X / i_s, 0.5):
        ctx.label("on a rounding boundary")
        return
    keep = X.copy(), K.copy(), b.copy(), o.copy()
    a = ADAInt(X, K, b, o, i_s, k_s, i_s * k_s)
    need((a.input_dimension(), a.output_dimension(), a.numero_datasets()) == (n_in, n_out, len(X)), "dimensions of the layer")
    M = np.zeros((n_in * n_out + n_out,) * 2)
    M2 = M.copy()
    R = qc.Input_Round_Calculation(X, i_s)
    need(np.array_equal(R, np.round(X / i_s)) and np.array_equal(a.input_round_calculation(), R), "rounded input")
    D = qc.dterm_Calculation(b, K, R, o, k_s, i_s, i_s * k_s)
    B1, B2, B4 = np.zeros((len(X), n_in)), np.zeros((len(X), n_in * n_in)), np.zeros((len(X), n_in))
    first = None
    P, Pb = np.zeros((n_out, n_in)), np.zeros(n_out)
    better = False
    with contextlib.suppress(FileNotFoundError):
        os.remove("Matrix2.txt")
    for l in range(n_out):
        d1 = a.bterm1_calculation_subespacio({}, l)
        d2, bt2 = a.bterm2_calculation_subespacio({}, l)
        need(a.bterm2_calculation_repeticion(bt2, {}, l) == d2, "repeated couplings of the weights")
        d3 = a.bterm3_calculation_subespacio({}, l)
        d4, bt4 = a.bterm4_calculation_subespacio({}, l)
        need(a.bterm4_calculation_repeticion({}, bt4, l) == d4, "repeated couplings of the bias")
        both = a.unir_diccionarios(d1, d2, d3, d4, {})
        keys = [l * n_in + i + 1 for i in range(n_in)] + [n_in * n_out + 1 + l]
        S, want = errors(X, K, b, o, i_s, k_s, l)
        E = energies(both, keys, S)
        size = float((o[:, l] ** 2).mean())
        same_up_to_constant(E, want, "the energy is the mean squared error of the rounding", size)
        # the functions of the module build the same problem
        e1 = qc.Bterm1_Calculation_Subespacio({}, B1, R, D, l, n_in, len(X), k_s, i_s)
        if first is None:
            e2, first2 = qc.Bterm2_Calculation_Subespacio({}, B2, R, l, n_in, len(X), k_s, i_s)
            e4, first4 = qc.Bterm4_Calculation_Subespacio({}, B4, R, l, n_in, n_out, i_s * k_s, i_s, k_s, len(X))
            first = (first2, first4)
        else:
            e2 = qc.Bterm_Calculation_Vuelta(first[0], {}, n_in, l)
            e4 = qc.Bterm_Calculation_Vuelta4({}, first[1], n_in, n_out, l)
        e3 = qc.Bterm3_Calculation_Subespacio({}, np.zeros((len(X), 1)), D, l, n_in, n_out, i_s * k_s, i_s, k_s, len(X))
        F = qc.Unir_Diccionarios(e1, e2, e3, e4, {})
        same_up_to_constant(energies(F, keys, S), want, "the energy of the functions is the mean squared error", size)
        for dic, res in ((both, a.quantum_annealing(both)), (F, qc.Quantum_annealing_simulator(F, l))):
            if dic is both:
                w, wb = a.tensor_redondeo(res, P, Pb, l)
            else:
                w, wb = qc.Tensor_Redondeo(res, P.copy(), Pb.copy(), l, n_in)
            v = list(map(int, w)) + [int(wb)]
            k = int("".join(map(str, v)), 2)
            need(want[k] <= want.min() + 1e-8 * (size + want.max()), "the rounding of least error is chosen", got=want[k], best=want.min())
        need(np.array_equal(P[l], w) and Pb[l] == wb, "the rounding of the neuron is stored")
        near = [int(t) for t in (np.round(K[l] / k_s) - np.floor(K[l] / k_s))] + [int(np.round(b[l] / (i_s * k_s)) - np.floor(b[l] / (i_s * k_s)))]
        better |= want.min() < want[int("".join(map(str, near)), 2)] - 1e-6 * want.max()
        a.matrix_calculation(M, d1, d2, d3, d4)
        qc.Matrix_Calculation(M2, e1, e2, e3, e4, n_out, n_in)
    need(os.path.exists("Matrix2.txt"), "the matrix is written")
    T = np.loadtxt("Matrix2.txt", delimiter=",", ndmin=2)
    need(T.shape == M.shape and np.abs(T - M).max() <= 1e-8 + 1e-12 * np.abs(M).max(), "the file holds the matrix")
    # all neurons at once: x' M x
    rng = np.random.RandomState(0)
    Sl = {l: errors(X, K, b, o, i_s, k_s, l) for l in range(n_out)}
    tot, ref = [], []
    for _ in range(12):
        v = rng.randint(0, 2, n_in * n_out + n_out).astype(float)
        tot.append((v @ M @ v, v @ M2 @ v))
        r = 0.0
        for l in range(n_out):
            vl = [int(t) for t in v[l * n_in:(l + 1) * n_in]] + [int(v[n_in * n_out + l])]
            r += Sl[l][1][int("".join(map(str, vl)), 2)]
        ref.append(r)
    for k in (0, 1):
        same_up_to_constant(np.array([t[k] for t in tot]), np.array(ref), "the matrix of the layer has the error of all neurons", float((o**2).mean(axis=0).sum()))
    need(all(np.array_equal(p, q) for p, q in zip(keep, (X, K, b, o))), "the inputs are not modified")
    ctx.nontrivial(better)


# ---------------------------------------------------------------- networks
@st.composite
def qnet_case(draw):
    c = draw(net_case(max_layers=2, big=5, rows=8, acts=["linear", "tanh", "sigmoid", "relu"], dtypes=False))
    c["cfg"] = {"dense": {"kernel_dtype": draw(st.sampled_from(["int8", "int4", "int3"])), "kernel_symmetric": draw(st.booleans())}}
    c["how"] = draw(st.sampled_from(["cfg", "direct"]))
    x = np.array(c["x"])
    a = np.abs(x).max()
    x = x + a * np.random.RandomState(draw(st.integers(0, 2**31 - 1))).uniform(0, 0.05, x.shape)  # away from the rounding boundaries
    c["x"] = x.astype(np.float32).astype(np.float64).tolist()
    return c


def check_qnet(c, ctx):
    plain, before = build(c)
    log = []
    exact = dimod.BinaryQuadraticModel.exact
    dimod.BinaryQuadraticModel.exact = lambda self: log.append(self) or exact(self)
    need(issubclass(QUBOAnnealer, IRoundOptimizer), "is a rounding optimizer")
    try:
        if c["how"] == "cfg":
            net, doc = build(dict(c, cfg=dict(c["cfg"], ada_round_net={"optimizer": "qubo"})), loss_fn=lambda n: 1.0)
        else:
            net = plain
            AdaroundNet(net, lambda n: 1.0, QUBOAnnealer).round()
            doc = net.as_json()
    finally:
        dimod.BinaryQuadraticModel.exact = exact
    acts = {(j, k): None for j, s in enumerate(c["layers"]) for k in ("w", "b")}
    check_doc(c, doc, policies=acts)
    fl = float_layers(c)
    ops = [o for o in doc["graph"] if o["op_type"] == "FULLY_CONNECTED"]
    xin = vary(np.array(c["x"], dtype=np.float32))
    nodes = [o for o in net.as_operators() if o.as_json()["op_type"] == "FULLY_CONNECTED"]
    problems, moved = [], False
    for j, s in enumerate(c["layers"]):
        i, k, b = ops[j]["inputs"]
        kn, bn = nodes[j].inputs[1:]
        W = np.array(s["w"], dtype=np.float32).astype(np.float64).T
        B = np.zeros(s["u"]) if s["b"] is None else np.array(s["b"], dtype=np.float32).astype(np.float64)
        X = fl[j][0]
        codes_k, codes_b = np.array(k["tensor"]["tensor"]), np.array(b["tensor"]["tensor"])
        # rounding of the inputs next to a boundary and of constants is undefined: such a layer is skipped
        t = X / i["scale"]
        edge = np.abs(t - np.floor(t) - 0.5) < 1e-4
        if edge.any() or np.abs(W / k["scale"]).max() > 4e3 or np.abs(B / b["scale"]).max() > 1e6:
            ctx.label("skipped layer")
            continue
        r = np.round(t)
        f = b["scale"]
        for l in range(s["u"]):
            o = fl[j][1][:, l]
            tk, tb = W[l] / k["scale"], B[l] / f
            # values on a code (within single precision) may be taken from either side
            opts = [sorted({np.floor(v - 1e-5 * max(1, abs(v))), np.floor(v + 1e-5 * max(1, abs(v)))}) for v in [*tk, tb]]
            near = np.array([len(a) > 1 for a in opts])
            if near.sum() > 4:
                continue
            S = np.array(list(itertools.product([0, 1], repeat=len(tk) + 1)), dtype=float)
            best, tables = [], []
            for base in itertools.product(*opts):
                base = np.array(base)
                y = f * (r @ (base[:-1] + S[:, :-1]).T + base[-1] + S[:, -1])
                e = ((o[:, None] - y) ** 2).mean(axis=0)
                best.append(e.min())
                tables.append(e)
            problems.append((j, l, tables, float((o**2).mean())))
            got = ((o - f * (r @ codes_k[l] + codes_b[l])) ** 2).mean()
            lo, hi = {"int8": (-128, 127), "int4": (-8, 7), "int3": (-4, 3)}[c["cfg"]["dense"]["kernel_dtype"]]
            if np.any(tk + 1 > hi) or np.any(tk < lo):
                # the optimization does not know about saturation: judge the policy instead of the saturated codes
                ctx.label("saturated")
                v = [int(t) for t in (*np.asarray(kn.rounding_policy)[l], np.asarray(bn.rounding_policy)[l])]
                at = int("".join(map(str, v)), 2)
                excess = min(e[at] - e.min() for e in tables)
                need(excess <= 1e-6 * (float((o**2).mean()) + max(best)) + 1e-12, "the policy of the neuron is the one of least error", layer=j, neuron=l, got=excess)
                continue
            tol = 1e-4 * float((o**2).mean()) * 1e-2 + 1e-6 * max(best) + 1e-12
            need(got <= max(best) + tol, "the weights and the bias of the neuron get the rounding of least error", layer=j, neuron=l, got=got, best=best)
            q = ((o - f * (r @ np.round(tk) + np.round(tb))) ** 2).mean()
            moved |= bool(got < q - tol)
    ctx.nontrivial(moved)
    ctx.label(c["how"])
    ctx.label("problems", bool(log))


def check_other(c, ctx):
    """layers that are not dense are left alone"""
    class Other:
        pass

    a = QUBOAnnealer()
    a.set_layer(Other())
    a.set_initial_neigh([np.zeros(c["n"], dtype=int)])
    a.set_input_data(np.zeros((2, 2)))
    best, cost = a.optimize()
    need(list(best) == [] and cost == 0.0, "nothing to round", got=(best, cost))
    ctx.nontrivial()


def subs():
    return [
        Sub("layer", layer_case(), check_layer, quick=800, thorough=8000),
        Sub("large layer", layer_case(large=True), check_layer, quick=36, thorough=400),
        Sub("network", qnet_case(), check_qnet, quick=900, thorough=9000),
        Sub("other layers", st.fixed_dictionaries({"n": st.integers(1, 4)}), check_other, quick=5, thorough=20),
    ]
