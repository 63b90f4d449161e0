"""Independent reference of one JSON operator applied to given codes or reals.

expect(op, engine, x) -> ("codes", lo, hi) interval of admissible codes, or ("real", y).
"""
import numpy as np

from pbt.gen import limits
from pbt.lstm_model import reference as lstm_reference
from pbt.model import fc_ref, feps, quantize_iv, round_even_iv, round_iv, sigmoid


def lut_lookup(nd, x):
    lut = nd["LUT"]
    table = lut["LUT"]
    if lut.get("reduced_LUT"):
        r = lut["reduced_LUT"]
        table = expand(r)
    return np.array(table)[np.asarray(x).astype(np.int64) + (lut.get("offset") or 0)]


def expand(r):
    """the full table described by the JSON of a reduced one"""
    from itcl_quantization.quantization.lut import ReducedLUT

    return list(ReducedLUT.deserialize(r))


def lstm_params(o):
    i = o["inputs"]
    arr = lambda n: np.array(n["tensor"]["tensor"], dtype=np.int64)  # noqa: E731
    zp = lambda n: n["zero_point"] or 0  # noqa: E731
    h = o["outputs"][0]
    p = {"in_zp": zp(i[0]), "h_zp": zp(h), "c_zp": zp(i[21])}
    p["k"], p["r"], p["b"] = [arr(n) for n in i[1:5]], [arr(n) for n in i[5:9]], [arr(n) for n in i[9:13]]
    p["k_zp"], p["r_zp"], p["b_zp"] = [zp(n) for n in i[1:5]], [zp(n) for n in i[5:9]], [zp(n) for n in i[9:13]]
    p["ra_zp"] = [zp(n) for n in i[17:21]]
    outs = [i[23], i[25], i[27], i[29], i[31]]
    p["g_zp"] = [zp(n) for n in outs]
    s = [n["scale"] for n in outs]
    p["luts"] = []
    for n in (i[22], i[24], i[26], i[28], i[30]):
        r = n["LUT"].get("reduced_LUT")
        p["luts"].append(expand(r) if r else n["LUT"]["LUT"])
    p["M1"] = [k["scale"] * i[0]["scale"] / (h["scale"] * r["scale"]) for k, r in zip(i[1:5], i[5:9])]
    p["M2"] = [r["scale"] * h["scale"] / a["scale"] for r, a in zip(i[5:9], i[17:21])]
    p["M3"], p["M4"], p["M5"] = s[1], s[0] * s[2] / i[21]["scale"], s[3] * s[4] / h["scale"]
    c = {"U": p["k"][0].shape[1], "ra_dt": i[17]["tensor"]["dtype"], "c_dt": i[31]["tensor"]["dtype"], "h_dt": h["tensor"]["dtype"], "p2": False}
    return c, p


def expect(o, engine, x):
    x = np.asarray(x)
    t = o["op_type"].upper()
    i, out = o["inputs"], o["outputs"]
    xi = x.astype(np.float64)
    if engine.upper() == "TFLITE":
        if t == "QUANTIZE":
            return ("codes",) + quantize_iv(xi, out[0]["scale"], out[0]["zero_point"], out[0]["tensor"]["dtype"])
        if t == "DEQUANTIZE":
            return "real", (xi - i[0]["zero_point"]) * i[0]["scale"]
        if "FULLY_CONN" in t:
            return ("codes",) + fc_ref(o, x)
        if t == "TANH":
            return ("codes",) + quantize_iv(np.tanh((xi - i[0]["zero_point"]) * i[0]["scale"]), 1 / 128, 0, "int8", 1e-14)
        if t == "LOGISTIC":
            return ("codes",) + quantize_iv(sigmoid((xi - i[0]["zero_point"]) * i[0]["scale"]), 1 / 256, -128, "int8", 1e-14)
        if t == "SOFTMAX":
            return "codes", x, x
        if t == "RELU":
            r = np.maximum(xi - i[0]["zero_point"], 0) * i[0]["scale"] / out[0]["scale"]
            return ("codes",) + round_iv(r + out[0]["zero_point"], feps(r, out[0]["zero_point"], 1), "int8")
        if t in ("TANHLUT", "SIGMOIDLUT"):
            v = lut_lookup(i[0], x)
            return "codes", v, v
        if t == "LSTM":
            c, p = lstm_params(o)
            lo, hi = lstm_reference(c, p, x)
            if o["attributes"]["return_sequences"]["value"][0]:
                return "codes", lo.swapaxes(0, 1), hi.swapaxes(0, 1)
            return "codes", lo[-1], hi[-1]
    else:
        if t == "QUANTIZELINEAR":
            return ("codes",) + quantize_iv(xi, i[0]["scale"], i[0]["zero_point"], "uint8")
        if t == "DEQUANTIZELINEAR":
            return "real", (xi - i[0]["zero_point"]) * i[0]["scale"]
        if t == "QLINEARSIGMOID":
            return ("codes",) + quantize_iv(sigmoid((xi - i[0]["zero_point"]) * i[0]["scale"]), i[1]["scale"], i[1]["zero_point"], "uint8", 1e-14)
        if t in ("TANHLUT", "SIGMOIDLUT"):
            v = lut_lookup(i[0], x)
            return "codes", v, v
        if t in ("QLINEARMATMUL", "QLINEARADD"):
            w = np.array(i[1]["tensor"]["tensor"], dtype=np.float64) - i[1]["zero_point"]
            if t == "QLINEARMATMUL":
                r = ((xi - i[0]["zero_point"]) @ w.T) * (i[0]["scale"] * i[1]["scale"] / i[2]["scale"])
                e = feps(r)
            else:
                a, b = i[0]["scale"] * (xi - i[0]["zero_point"]) / i[2]["scale"], i[1]["scale"] * w / i[2]["scale"]
                r, e = a + b, feps(a, b)
            lo, hi = round_even_iv(r, e, "int64")
            z = i[2]["zero_point"]
            return "codes", np.clip(lo + z, 0, 255), np.clip(hi + z, 0, 255)
        if t == "TANH":
            return "real", np.tanh(xi)
        if t == "SOFTMAX":
            e = np.exp(xi - xi.max(axis=-1, keepdims=True))
            return "real", e / e.sum(axis=-1, keepdims=True)
    raise NotImplementedError(t)
