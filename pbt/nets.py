"""Random sequential networks of the engine's operators (JSON) with matching inputs."""
import numpy as np
from hypothesis import strategies as st

from pbt.lstm_model import build as lstm_build, operator as lstm_operator
from pbt.model import fc_op, lut_node, network, node, op, tensor


def shp(dtype="int8"):
    return {"tensor": None, "shape": [], "dtype": dtype, "name": None}


@st.composite
def net_case(draw, engines=("TFLITE", "ONNX")):
    engine = draw(st.sampled_from(engines))
    acts = ["TANH", "LOGISTIC", "SOFTMAX", "RELU", "TANHLUT", "SIGMOIDLUT", "none"] if engine == "TFLITE" else ["SigmoidLUT", "TanhLUT", "QLinearSigmoid", "none"]
    kind = draw(st.sampled_from(["dense", "dense", "lstm"])) if engine == "TFLITE" else "dense"
    return {
        "engine": engine, "kind": kind, "seed": draw(st.integers(0, 2**31 - 1)),
        "acts": draw(st.lists(st.sampled_from(acts), min_size=1, max_size=4)),
        "dims": draw(st.lists(st.integers(1, 6), min_size=6, max_size=6)),
        "batch": draw(st.integers(1, 5)), "steps": draw(st.integers(1, 4)),
        "lead": draw(st.sampled_from(["2d", "2d", "1d"])),
        "quant": draw(st.sampled_from([True, True, True, False])), "dequant": draw(st.booleans()),
        "tail": draw(st.sampled_from(["Softmax", "Tanh", None])), "engine_case": draw(st.integers(0, 2)),
        "lstm": draw(st.integers(1, 2)),
        # scale of the real inputs: sensors deliver anything from nanoamperes to pascals
        "unit": draw(st.sampled_from([1.0, 1.0, 1.0, 1e-7, 1e-9, 3e-5, 2.0**20])),
    }


def build(c):
    """returns (schema, real input array)"""
    rng = np.random.RandomState(c["seed"])
    dims = c["dims"]
    unit = c.get("unit", 1.0)
    s0 = float(rng.choice([0.01, 0.02, 0.0078125])) * unit
    first = lambda: len(ops) <= 1 and not any("FULLY" in o["op_type"] or "LSTM" in o["op_type"] for o in ops)
    z0 = int(rng.randint(-20, 20))
    ops, in_node = [], node(s0, z0, shp())
    if c["engine"] == "TFLITE":
        if c["quant"]:
            ops.append(op("QUANTIZE", [node(1.0, 0)], [in_node], name=["quantize_0", "QUANTIZE", "tfl.quantize_3", "Quantize", "input_quantize"][c["seed"] % 5]))
        s, z, cur = s0, z0, dims[0]
        x = rng.normal(0, 0.6, size=(c["batch"], dims[0])) * unit
        if c["kind"] == "lstm":
            x = rng.normal(0, 0.6, size=(c["batch"], c["steps"], dims[0])) * unit
            for k in range(c["lstm"]):
                lc = {"F": cur, "U": dims[k + 1], "T": 1, "B": 1, "in_dt": "int8", "ra_dt": "int8", "g_dt": "int8", "c_dt": "int8",
                      "h_dt": "int8", "seed": int(rng.randint(1, 2**31 - 1)), "p2": False, "zps": "any", "lut": "act", "reduced": k,
                      "seq": k < c["lstm"] - 1, "name": "LSTM"}
                p = lstm_build(lc)
                p.update(in_s=s, in_zp=z)
                if first():
                    p["k_s"] = [v / unit for v in p["k_s"]]
                ops.append(lstm_operator(lc, p))
                s, z, cur = p["h_s"], p["h_zp"], dims[k + 1]
        for k, act in enumerate(c["acts"]):
            n = dims[(k + 3) % 6]
            w = rng.randint(-127, 128, size=(n, cur))
            b = rng.randint(-3000, 3001, size=n)
            w_s, o_s = float(rng.uniform(0.005, 0.02)), float(rng.uniform(0.02, 0.08))
            if first():
                w_s /= unit
            o_z = int(rng.randint(-20, 20))
            ops.append(fc_op(s, z, w.tolist(), w_s, 0, b.tolist(), o_s, o_z, "int8"))
            a_in, s2, z2 = node(o_s, o_z, shp()), o_s, o_z
            if act == "none":
                s, z, cur = s2, z2, n
                continue
            if act == "TANH":
                s2, z2 = 1 / 128, 0
            elif act == "LOGISTIC":
                s2, z2 = 1 / 256, -128
            elif act == "RELU":
                s2, z2 = float(o_s * rng.choice([0.5, 1.0, 0.7])), -128
            elif act.endswith("LUT"):
                v = (np.arange(-128, 128) - o_z) * o_s
                y = np.tanh(v) if act == "TANHLUT" else 0.5 * (1 + np.tanh(v / 2))
                s2, z2 = (1 / 128, 0) if act == "TANHLUT" else (1 / 256, -128)
                a_in = lut_node([int(q) for q in np.clip(np.floor(y / s2 + z2 + 0.5), -128, 127)], 128)
                a_in.update(scale=o_s, zero_point=o_z)
            ops.append(op(act, [a_in], [node(s2, z2, shp())], name=f"act_{k}"))
            s, z, cur = s2, z2, n
        if c["dequant"]:
            ops.append(op("DEQUANTIZE", [node(s, z, shp())], [node(1.0, 0)], name="dequantize_0"))
    else:
        s, z, cur = s0, z0 + 120, dims[0]
        x = rng.normal(0, 0.6, size=(c["batch"], dims[0])) * unit
        ops.append(op("QuantizeLinear", [node(s, z)], [node(s, z)], name="QuantizeLinear_0"))
        for k, act in enumerate(c["acts"]):
            n = dims[(k + 3) % 6]
            w, b = rng.randint(0, 256, size=(n, cur)), rng.randint(0, 256, size=n)
            w_s, m_s, b_s, o_s = (float(rng.uniform(*r)) for r in ((0.005, 0.02), (0.01, 0.05), (0.005, 0.02), (0.02, 0.06)))
            if first():
                w_s /= unit
            w_z, m_z, b_z, o_z = (int(v) for v in rng.randint(90, 160, size=4))
            ops.append(op("QLinearMatMul", [node(s, z), node(w_s, w_z, tensor(w.tolist(), "uint8")), node(m_s, m_z)], [node(m_s, m_z)]))
            ops.append(op("QLinearAdd", [node(m_s, m_z), node(b_s, b_z, tensor(b.tolist(), "uint8")), node(o_s, o_z)], [node(o_s, o_z)]))
            s, z, cur = o_s, o_z, n
            if act == "none":
                continue
            v = (np.arange(0, 256) - o_z) * o_s
            y = np.tanh(v) if act == "TanhLUT" else 0.5 * (1 + np.tanh(v / 2))
            s2, z2 = (1 / 128, 128) if act == "TanhLUT" else (1 / 256, 0)
            if act == "QLinearSigmoid":
                ops.append(op(act, [node(o_s, o_z), node(s2, z2)], [node(s2, z2)]))
            else:
                ops.append(op(act, [lut_node([int(q) for q in np.clip(np.floor(y / s2 + z2 + 0.5), 0, 255)], 0)], [node(s2, z2)]))
            s, z = s2, z2
        ops.append(op("DequantizeLinear", [node(s, z)], [node(1.0, 0)], name="DequantizeLinear_0"))
        if c["tail"]:
            ops.append(op(c["tail"], [], []))
    if c["lead"] == "1d" and c["kind"] == "dense":
        x = x[0]
    eng = [c["engine"], c["engine"].lower(), c["engine"].capitalize()][c["engine_case"]]
    return network(ops, eng, inp=in_node, out=node(s, z)), x


def build_layers(schema):
    from itcl_inference_engine.layers.onnx.build_operator import build_operator
    from itcl_inference_engine.layers.tflite.build_layer import build_layer

    f = build_layer if schema["engine"].upper() == "TFLITE" else build_operator
    return [f(o) for o in schema["graph"]]
