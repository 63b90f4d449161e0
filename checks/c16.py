"""C16 quantized LSTM layer."""
import numpy as np
from hypothesis import strategies as st

from pbt import Sub, need
from pbt import pairs
from pbt.gen import limits, vary
from pbt.lstm_model import build, lstm_case, operator, reference
from pbt.model import within
from pbt.reuse import reuse

from itcl_inference_engine.layers.tflite.build_layer import build_layer

RULE = (
    "A case is an LSTM operator (1..5, sometimes 17 units; 1..9 features; large cases up to 129 units, features, steps or sequences; own scale and zero point for every one of the 4 "
    "gates' kernels, recurrent kernels, sums and activations; sigmoid/tanh or random tables, full or reduced), a batch of "
    "sequences, and whether sequences are returned. Output is compared with an interval reference of the recurrence, and with "
    "prefix, single-row and repeated runs. Non-trivial: the hidden state takes at least two values other than its zero point."
) + pairs.RULE
ASSUMPTIONS = ["values within float error of an integer admit both truncations (interval reference); none with power-of-two scales"]


def check_trace(kept, trace, steps, hidden):
    within(np.asarray(kept.hidden_state), hidden, need, "intermediate codes of the call: hidden states")
    gates = [kept.input_gate_act, kept.forget_gate_act, kept.cell_gate_act, kept.output_gate_act]
    need(all(len(v) == steps for v in [*gates, kept.bias_add, kept.recurrent_add, kept.cell_state, kept.cell_state_act]), "intermediate codes: one entry per step")
    for t, e in enumerate(trace):
        for g in range(4):
            within(np.asarray(kept.bias_add[t][g]), e["bias_add"][g], need, "intermediate codes: input products", gate=g, step=t)
            within(np.asarray(kept.recurrent_add[t][g]), e["recurrent_add"][g], need, "intermediate codes: sums", gate=g, step=t)
            within(np.asarray(gates[g][t]), e["acts"][g], need, "intermediate codes: gates", gate=g, step=t)
        within(np.asarray(kept.cell_state[t]), e["cell"], need, "intermediate codes: cell state", step=t)
        within(np.asarray(kept.cell_state_act[t]), e["cell_act"], need, "intermediate codes: cell activation", step=t)


def check(c, ctx):
    p = build(c)
    layer = build_layer(operator(c, p))
    x = np.array(c["x"])
    if c.get("quiet"):  # some steps at the zero point
        x[:, c["quiet"] % 2 :: c["quiet"] % 3 + 1] = p["in_zp"] if c["quiet"] < 4 else x[:, c["quiet"] % 2 :: c["quiet"] % 3 + 1]
    x = vary(x.astype(c["in_dt"] if c["cont"] == "native" else "int64"))
    keep = x.copy()
    got = np.asarray(layer.infer(x))
    trace = []
    lo, hi = reference(c, p, x, trace)
    if c["seq"]:
        iv = lo.swapaxes(0, 1), hi.swapaxes(0, 1)
    else:
        iv = lo[-1], hi[-1]
    within(got, iv, need, "hidden state codes")
    need(np.issubdtype(got.dtype, np.integer), "integer codes", got=got.dtype)
    need(np.array_equal(keep, x), "input mutated")
    check_trace(layer.intermediate_tensors, trace, c["T"], (lo, hi))
    need(np.array_equal(got, np.asarray(layer.infer(x))), "a second call starts from the initial state")
    reuse(layer.infer, x, iv)
    # prefix: what happened does not depend on later steps
    n = max(1, c["T"] // 2)
    pre = np.asarray(layer.infer(x[:, :n]))
    if c["seq"]:
        need(np.array_equal(pre, got[:, :n]), "outputs of a prefix do not depend on later steps")
    else:
        within(pre, (lo[n - 1], hi[n - 1]), need, "state after a prefix")
    # rows are independent
    b = c["seed"] % c["B"]
    one = np.asarray(layer.infer(x[b : b + 1]))
    need(np.array_equal(one[0], got[b]), "a sequence alone gives the same codes as in a batch")
    # the other output mode sees the same states
    other = dict(c, seq=not c["seq"])
    alt = np.asarray(build_layer(operator(other, p)).infer(x))
    last = (got if c["seq"] else alt)[:, -1]
    need(np.array_equal(last, alt if c["seq"] else got), "the last step of the sequence is the final state")
    ctx.nontrivial(len(set(np.ravel(hi).tolist()) - {p["h_zp"]}) >= 2)
    ctx.label("decided", bool(np.array_equal(lo, hi)))
    ctx.label("p2", c["p2"])


@st.composite
def big_case(draw):
    c = draw(lstm_case())
    wide, small = st.sampled_from([16, 31, 32, 33, 64, 65, 100, 128, 129]), st.integers(1, 4)
    kinds = [(wide, small, small, small), (small, wide, small, small), (small, small, wide, small), (small, small, small, wide), (st.sampled_from([12, 16, 20]),) * 4]
    c["F"], c["U"], c["T"], c["B"] = (draw(k) for k in draw(st.sampled_from(kinds)))
    del c["x"]
    c.update(xseed=draw(st.integers(0, 2**31 - 1)), reduced=0)
    return c


def check_big(c, ctx):
    lo, hi = limits(c["in_dt"])
    x = np.random.RandomState(c["xseed"]).randint(lo, hi + 1, size=(c["B"], c["T"], c["F"]))
    check(dict(c, x=x), ctx)


def subs():
    return [pairs.two(lstm_case(), check, quick=400, twist={"x": "reverse", "seed": st.integers(0, 2**31 - 1), "seq": st.booleans()}),
            Sub("large", big_case(), check_big, quick=300, thorough=4000), Sub("recurrence", lstm_case(), check, quick=3000, thorough=40000)]
