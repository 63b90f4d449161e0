"""Random quantized LSTM operators and an independent interval reference of the recurrence."""
import numpy as np
from hypothesis import strategies as st

from pbt.gen import bulk_ints, limits, zero_points
from pbt.model import node, op, tensor


@st.composite
def lstm_case(draw, max_units=5, max_steps=5, p2=None):
    F, U = draw(st.integers(1, 5)), draw(st.one_of(st.integers(1, 3), st.integers(1, max_units)))
    T, B = draw(st.integers(1, max_steps)), draw(st.integers(1, 3))
    if draw(st.integers(0, 9)) == 0:
        U, F = 17, 9
    in_dt = draw(st.sampled_from(["int8", "int8", "uint8", "int16"]))
    ra_dt = draw(st.sampled_from(["int8", "int8", "uint8", "int6", "int10"]))
    g_dt = draw(st.sampled_from(["int8", "int8", "uint8", "int16"]))  # gate outputs
    c_dt = draw(st.sampled_from(["int8", "int8", "int6", "uint8", "int12"]))
    h_dt = draw(st.sampled_from(["int8", "int8", "uint8", "int16"]))
    seed = draw(st.integers(0, 2**31 - 1))
    return {"F": F, "U": U, "T": T, "B": B, "in_dt": in_dt, "ra_dt": ra_dt, "g_dt": g_dt, "c_dt": c_dt, "h_dt": h_dt,
            "seed": seed, "p2": draw(st.booleans()) if p2 is None else p2,
            "far": draw(st.sampled_from([""] * 5 + ["c", "h", "ra", "b", "c h ra b"])), "zps": draw(st.sampled_from(["zero", "any", "any", "edge"])),
            "lut": draw(st.sampled_from(["act", "act", "random"])), "reduced": draw(st.integers(0, 3)),
            "seq": draw(st.booleans()), "x": draw(bulk_ints((B, T, F), *limits(in_dt))),
            "cont": draw(st.sampled_from(["native", "int64"])), "quiet": draw(st.integers(0, 9)), "name": draw(st.sampled_from(["LSTM", "lstm", "Lstm"]))}


def build(c):
    """Deterministic expansion of a case into an operator and its plain parameters."""
    rng = np.random.RandomState(c["seed"])
    F, U = c["F"], c["U"]

    def sc(lo, hi):
        s = 10.0 ** rng.uniform(np.log10(lo), np.log10(hi))
        return float(2.0 ** round(np.log2(s))) if c["p2"] else float(s)

    def zp(dt):
        lo, hi = limits(dt)
        if c["zps"] == "zero":
            return int(max(lo, min(hi, 0)))
        if c["zps"] == "edge":
            return int(rng.choice([lo, hi, max(lo, min(hi, 0))]))
        return int(np.clip(rng.randint(-60, 200), lo, hi)) if rng.rand() < 0.5 else int((lo + hi + 1) // 2)

    p = {"in_s": sc(1e-3, 0.1), "in_zp": zp(c["in_dt"]), "h_zp": zp(c["h_dt"]), "c_zp": zp(c["c_dt"])}
    p["h_s"] = sc(2 / 256, 2 / 100) if c["h_dt"] != "int16" else sc(2 / 65536, 2 / 30000)
    p["c_s"] = sc(0.01, 0.1)
    p["k"] = [rng.randint(-127, 128, size=(F, U)) for _ in range(4)]
    p["r"] = [rng.randint(-127, 128, size=(U, U)) for _ in range(4)]
    if rng.rand() < 0.3:
        p["k"] = [k // 16 for k in p["k"]]
    p["k_zp"] = [zp("int8") if rng.rand() < 0.3 else 0 for _ in range(4)]
    p["r_zp"] = [zp("int8") if rng.rand() < 0.3 else 0 for _ in range(4)]
    p["b"] = [rng.randint(-3000, 3001, size=U) for _ in range(4)]
    p["b_zp"] = [int(rng.randint(-5, 6)) if rng.rand() < 0.2 else 0 for _ in range(4)]
    p["k_s"] = [sc(1e-3, 2e-2) for _ in range(4)]
    p["r_s"] = [sc(1e-3, 2e-2) for _ in range(4)]
    if rng.rand() < 0.75:  # pre-activations of moderate size
        lo, hi = limits(c["in_dt"])

        def snap(v):
            return float(2.0 ** round(np.log2(v))) if c["p2"] else float(v)

        p["k_s"] = [snap(rng.uniform(0.3, 4) / (p["in_s"] * (hi - lo) * 0.3 * (1 + np.abs(k).mean()) * np.sqrt(F))) for k in p["k"]]
        p["r_s"] = [snap(rng.uniform(0.2, 2) / (p["h_s"] * 64 * 73 * np.sqrt(U))) for _ in range(4)]
    if c.get("quiet") == 1:  # a step at the zero point adds nothing
        p["b"] = [np.full(U, z) for z in p["b_zp"]]
    rlo, rhi = limits(c["ra_dt"])
    p["ra_s"] = [sc(4 / (rhi - rlo), 30 / (rhi - rlo)) for _ in range(4)]
    p["ra_zp"] = [zp(c["ra_dt"]) for _ in range(4)]
    glo, ghi = limits(c["g_dt"])
    clo, chi = limits(c["c_dt"])
    p["g_s"] = [sc(1 / (ghi - glo), 2 / (ghi - glo)) for _ in range(5)]
    p["g_zp"] = [zp(c["g_dt"]) for _ in range(4)] + [zp(c["c_dt"])]
    luts = []
    for g in range(5):
        lo, hi = (rlo, rhi) if g < 4 else (clo, chi)
        olo, ohi = (glo, ghi) if g < 4 else (clo, chi)
        n = hi - lo + 1
        if c["lut"] == "random":
            luts.append(rng.randint(olo, ohi + 1, size=n).tolist())
        else:
            s_in, z_in = (p["ra_s"][g], p["ra_zp"][g]) if g < 4 else (p["c_s"], p["c_zp"])
            v = (np.arange(lo, hi + 1) - z_in) * s_in
            y = np.tanh(v) if g in (2, 4) else 0.5 * (1 + np.tanh(v / 2))
            luts.append([int(q) for q in np.clip(np.floor(y / p["g_s"][g] + p["g_zp"][g] + 0.5), olo, ohi)])
    p["luts"] = luts
    # far outside the types before saturating: beyond 16 and 32 bits
    far = c.get("far", "").split()
    shrink = lambda s: float(s * 2.0 ** -rng.randint(8, 26))
    p["c_s"] = shrink(p["c_s"]) if "c" in far else p["c_s"]
    p["h_s"] = shrink(p["h_s"]) if "h" in far else p["h_s"]
    p["ra_s"] = [shrink(s) if "ra" in far else s for s in p["ra_s"]]
    if "b" in far and c.get("quiet") != 1:
        p["b"] = [rng.randint(-(2**31), 2**31, size=U) for _ in range(4)]
        if rng.randint(0, 2):  # at the ends of the type: the product with the input leaves it
            p["b"] = [np.where(b < 0, -(2**31), 2**31 - 1) for b in p["b"]]
    p["M1"] = [k * p["in_s"] / (p["h_s"] * r) for k, r in zip(p["k_s"], p["r_s"])]
    p["M2"] = [r * p["h_s"] / a for r, a in zip(p["r_s"], p["ra_s"])]
    p["M3"] = p["g_s"][1]
    p["M4"] = p["g_s"][0] * p["g_s"][2] / p["c_s"]
    p["M5"] = p["g_s"][3] * p["g_s"][4] / p["h_s"]
    return p


def operator(c, p):
    from itcl_quantization.quantization.lut import ReducedLUT

    def shape_only(dt):
        return {"tensor": None, "shape": [], "dtype": dt, "name": None}

    ins = [node(p["in_s"], p["in_zp"], shape_only(c["in_dt"]))]
    ins += [node(p["k_s"][g], p["k_zp"][g], tensor(p["k"][g].tolist(), "int8")) for g in range(4)]
    ins += [node(p["r_s"][g], p["r_zp"][g], tensor(p["r"][g].tolist(), "int8")) for g in range(4)]
    ins += [node(p["k_s"][g] * p["in_s"], p["b_zp"][g], tensor(p["b"][g].tolist(), "int32")) for g in range(4)]
    ins += [node(p["h_s"] * p["r_s"][g], 0, shape_only("int32")) for g in range(4)]
    ins += [node(p["ra_s"][g], p["ra_zp"][g], shape_only(c["ra_dt"])) for g in range(4)]
    ins += [node(p["c_s"], p["c_zp"], shape_only(c["c_dt"]))]
    for g in range(5):
        off = -limits(c["ra_dt"] if g < 4 else c["c_dt"])[0]
        red = None
        if c["reduced"] and (c["reduced"] + g) % 2:
            red = ReducedLUT(list(p["luts"][g]), 3, 0, False).serialize()
        ins.append({"scale": None, "zero_point": None, "tensor": None,
                    "LUT": {"LUT": [] if red and c["reduced"] == 3 else p["luts"][g], "offset": off, "reduced_LUT": red}})
        ins.append(node(p["g_s"][g], p["g_zp"][g], shape_only(c["g_dt"] if g < 4 else c["c_dt"])))
    out = [node(p["h_s"], p["h_zp"], shape_only(c["h_dt"]))]
    return op(c["name"], ins, out, attributes={"return_sequences": {"value": [c["seq"]], "dtype": "bool"}})


def _trunc(a, b, eps, dt):
    lo, hi = limits(dt)
    return (np.clip(np.trunc(a - eps), lo, hi).astype(np.int64), np.clip(np.trunc(b + eps), lo, hi).astype(np.int64))


def _mat(iv, w):
    """interval row vector(s) times matrix"""
    pos, neg = np.maximum(w, 0), np.minimum(w, 0)
    return iv[0] @ pos + iv[1] @ neg, iv[1] @ pos + iv[0] @ neg


def _mul(a, b):
    c = np.stack([a[0] * b[0], a[0] * b[1], a[1] * b[0], a[1] * b[1]])
    return c.min(0), c.max(0)


def _lookup(table, off, iv):
    t = np.array(table)
    lo, hi = t[iv[0] + off], t[iv[1] + off]
    a, b = np.minimum(lo, hi), np.maximum(lo, hi)
    for i in zip(*np.nonzero(iv[0] != iv[1])):
        s = t[iv[0][i] + off : iv[1][i] + off + 1]
        a[i], b[i] = s.min(), s.max()
    return a, b


def _eps(p2, *terms):
    if p2:
        return 0.0
    m = sum(np.abs(x) for x in terms)
    return m * 2.0**-45


def reference(c, p, x, trace=None):
    """Hidden state codes of every step, as an interval: array pair of shape (steps, batch, units)."""
    p2 = c["p2"]
    x = np.asarray(x).astype(np.int64) - p["in_zp"]
    B, T, _ = x.shape
    U = c["U"]
    k = [p["k"][g].astype(np.int64) - p["k_zp"][g] for g in range(4)]
    r = [p["r"][g].astype(np.int64) - p["r_zp"][g] for g in range(4)]
    b = [p["b"][g].astype(np.int64) - p["b_zp"][g] for g in range(4)]
    h = (np.full((B, U), p["h_zp"], dtype=np.int64),) * 2
    cs = (np.full((B, U), p["c_zp"], dtype=np.int64),) * 2
    off_g, off_c = -limits(c["ra_dt"])[0], -limits(c["c_dt"])[0]
    lo_all, hi_all = [], []
    for t in range(T):
        act, bas, ras = [], [], []
        for g in range(4):
            acc = x[:, t, :] @ k[g] + b[g]
            v = p["M1"][g] * acc
            e = _eps(p2, v)
            ba = np.trunc(v - e).astype(np.int64), np.trunc(v + e).astype(np.int64)
            m = _mat((h[0] - p["h_zp"], h[1] - p["h_zp"]), r[g])
            lo, hi = (m[0] + ba[0]) * p["M2"][g], (m[1] + ba[1]) * p["M2"][g]
            z = p["ra_zp"][g]
            e = _eps(p2, lo, hi) + (0 if p2 else (np.abs(lo) + np.abs(hi) > 0) * abs(z) * 2.0**-50)
            ra = _trunc(lo + z, hi + z, e, c["ra_dt"])
            bas.append(ba)
            ras.append(ra)
            act.append(_lookup(p["luts"][g], off_g, ra))
        i, f, g_, o = ((a[0] - p["g_zp"][n], a[1] - p["g_zp"][n]) for n, a in enumerate(act))
        m3 = _mul((f[0] * p["M3"], f[1] * p["M3"]), (cs[0] - p["c_zp"], cs[1] - p["c_zp"]))
        ig = _mul(i, g_)
        lo, hi = m3[0] + p["M4"] * ig[0], m3[1] + p["M4"] * ig[1]
        big = np.abs(m3[0]) + np.abs(m3[1]) + p["M4"] * (np.abs(ig[0]) + np.abs(ig[1]))
        e = 0.0 if p2 else big * 2.0**-45 + (big > 0) * abs(p["c_zp"]) * 2.0**-50
        cs = _trunc(lo + p["c_zp"], hi + p["c_zp"], e, c["c_dt"])
        ca = _lookup(p["luts"][4], off_c, cs)
        if trace is not None:
            trace.append({"bias_add": bas, "recurrent_add": ras, "acts": act, "cell": cs, "cell_act": ca})
        oc = _mul(o, (ca[0] - p["g_zp"][4], ca[1] - p["g_zp"][4]))
        lo, hi = p["M5"] * oc[0], p["M5"] * oc[1]
        big = np.abs(lo) + np.abs(hi)
        e = 0.0 if p2 else big * 2.0**-45 + (big > 0) * abs(p["h_zp"]) * 2.0**-50
        h = _trunc(lo + p["h_zp"], hi + p["h_zp"], e, c["h_dt"])
        lo_all.append(h[0])
        hi_all.append(h[1])
    return np.array(lo_all), np.array(hi_all)
