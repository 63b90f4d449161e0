"""C11 inference treats every row of a batch on its own and keeps shapes."""
import numpy as np
from hypothesis import strategies as st

from pbt import Sub, need
from pbt import pairs
from pbt.gen import vary
from pbt.nets import build, build_layers, net_case

from itcl_inference_engine.network.sequential import SequentialNetwork

RULE = (
    "A case is a random network (TFLITE dense, TFLITE LSTM + dense, ONNX) and a batch of 1 to 40 rows (up to 2050 in the large cases). The batch result is "
    "compared with row-by-row, permuted, repeated, split and concatenated batches, operator by operator and end to end. "
    "Non-trivial: at least two rows with different outputs."
) + pairs.RULE


@st.composite
def cases(draw):
    return {"net": draw(net_case()), "rows": draw(st.sampled_from([1, 2, 3, 5, 8, 33, 40])), "seed": draw(st.integers(0, 2**20)),
            "dup": draw(st.booleans())}


@st.composite
def big_cases(draw):
    c = {"net": draw(net_case()), "rows": draw(st.sampled_from([63, 64, 65, 100, 127, 128, 129, 255, 256, 257, 500, 512, 513, 1000, 1023, 1024, 1025, 2050])),
         "seed": draw(st.integers(0, 2**20)), "dup": draw(st.booleans())}
    if draw(st.integers(0, 4)) == 0:  # as many rows, inputs and outputs
        c["rows"] = draw(st.sampled_from([16, 63, 64, 65, 128]))
        c["net"]["dims"], c["net"]["kind"], c["net"]["lstm"] = [c["rows"]] * 6, "dense", 1
    c["net"]["lstm"] = 1  # the second LSTM looks its codes up one by one
    return c


def same(a, b, msg, **k):
    a, b = np.asarray(a), np.asarray(b)
    need(a.shape == b.shape, msg + ": shape", got=a.shape, want=b.shape, **k)
    if np.issubdtype(a.dtype, np.floating):
        # batched matrix products may differ in the last bits only where floats are involved
        need(np.allclose(a, b, rtol=1e-12, atol=1e-12), msg, got=a.ravel()[:6], want=b.ravel()[:6], **k)
    else:
        need(np.array_equal(a, b), msg, got=a.ravel()[:6], want=b.ravel()[:6], **k)


def check(c, ctx):
    schema, x0 = build(dict(c["net"], lead="2d"))
    rng = np.random.RandomState(c["seed"])
    n = c["rows"]
    x = rng.normal(0, 0.7, size=(n,) + x0.shape[1:]) * c["net"].get("unit", 1.0)
    if n > 4:  # rows that are close to each other
        x[2] = x[1] + schema["input"][0]["scale"]
    if c["dup"] and n > 1:
        x[-1] = x[0]
    x = vary(x)
    perm = rng.permutation(n)
    net = SequentialNetwork(schema)
    full = np.asarray(net.infer(x))
    need(full.shape[0] == n, "one output row per input row", got=full.shape)
    same(net.infer(x[perm]), full[perm], "permuting the batch permutes the outputs")
    i = int(perm[0])
    same(net.infer(x[i : i + 1]), full[i : i + 1], "a row alone gives its row of the batch", row=i)
    if c["dup"] and n > 1:
        same(full[-1], full[0], "equal rows have equal outputs")
    k = n // 2
    if k:
        same(np.concatenate([net.infer(x[:k]), net.infer(x[k:])]), full, "splitting the batch")
    if x.ndim == 2 and all("LSTM" not in o["op_type"] for o in schema["graph"]):
        same(net.infer(x[i]), full[i], "a vector gives the row of a batch")
    # every operator on its own, on the inputs it sees in the network
    cur = x
    if "QUANT" not in schema["graph"][0]["name"].upper():
        cur = np.clip(np.floor(x / schema["input"][0]["scale"] + schema["input"][0]["zero_point"] + 0.5), -128, 127).astype(np.int32)
    for o, layer in zip(schema["graph"], build_layers(schema)):
        out = np.asarray(layer.infer(cur))
        need(out.shape[0] == n, "operator keeps the batch", op=o["op_type"], got=out.shape)
        if o["op_type"].upper() not in ("FULLY_CONNECTED", "LSTM", "QLINEARMATMUL"):
            need(out.shape == cur.shape, "element-wise operator keeps the shape", op=o["op_type"], got=out.shape)
        same(layer.infer(cur[perm]), out[perm], "operator on the permuted batch", op=o["op_type"])
        same(layer.infer(cur[i : i + 1]), out[i : i + 1], "operator on one row", op=o["op_type"])
        cur = out
    same(cur, full, "operators composed")
    ctx.nontrivial(n > 1 and len({r.tobytes() for r in full}) > 1)
    ctx.label(c["net"]["engine"] + "/" + c["net"]["kind"])


def subs():
    return [pairs.two(cases(), check, quick=300, twist=lambda a: cases().map(lambda b: dict(b, net=dict(a["net"], seed=b["net"]["seed"])))),
            Sub("large", big_cases(), check, quick=300, thorough=4000), Sub("batch", cases(), check, quick=2500, thorough=30000)]
