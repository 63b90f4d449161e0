# memoized energies, tiny terms, clipped values, trimming
S("C22-energy-memo", "C22", "a layer with two rounding policies (kernel and bias) of which only the second one changes", "the energy is remembered by the bytes of the first policy",
  [(ADA + "annealer.py", "        energy: float = self.energy_fn(self.state)\n        return energy\n",
    "        key = self.state[0].tobytes()\n        if key not in self._energies:\n            self._energies[key] = self.energy_fn(self.state)\n        energy: float = self._energies[key]\n        return energy\n"),
   (ADA + "annealer.py", "        self._max_retires = max_retries\n", "        self._max_retires = max_retries\n        self._energies: dict[bytes, float] = {}\n")],
  """
import contextlib, io, random
from itcl_quantizer.equalizers.adaround.annealer import RoundingAnnealer
random.seed(0)
seen = []
def loss(s):
    v = float(abs(s[0] - np.array([0, 1])).sum() + 10 * abs(s[1] - np.array([1, 0, 1])).sum())
    seen.append(v)
    return v
a = RoundingAnnealer(t_min=0.1, t_max=10, steps=30, updates=0, max_retries=60)
a.set_cost_fn(loss); a.set_initial_neigh([np.array([0, 0]), np.array([0, 0, 0])])
import simanneal
with contextlib.redirect_stdout(io.StringIO()):
    a.state = [np.array([0, 1]), np.array([1, 0, 1])]
    e = a.energy()
    a.state = [np.array([0, 1]), np.array([0, 1, 0])]
    e2 = a.energy()
expect((e, e2) == (0.0, 30.0), (e, e2))
""", stubs=QSTUBS)

S("C22-same-count", "C22", "a best policy with as many ones as the current policy", "the policy is only assigned when the number of ones changes",
  [(ADA + "adaround.py", "            tensor.rounding_policy = neigh\n",
    "            if np.sum(tensor.rounding_policy) != np.sum(neigh):\n                tensor.rounding_policy = neigh\n")],
  """
import types
from itcl_quantizer.equalizers.adaround.adaround import AdaRound
class T:
    def __init__(self, p): self.rounding_policy = np.array(p)
class Opt:
    def set_cost_fn(self, fn): self.fn = fn
    def set_layer(self, l): pass
    def set_input_data(self, d): pass
    def set_quant_results(self, r): pass
    def set_initial_neigh(self, n): self.n = n
    def optimize(self): return [np.array([0, 1, 1])], 0.0
t = T([1, 1, 0])
AdaRound(Opt(), lambda: 0.0, None, None, None).round([t])
expect(t.rounding_policy.tolist() == [0, 1, 1], t.rounding_policy.tolist())
""", stubs=QSTUBS)

S("C24-tiny-terms", "C24", "small scales, so that the terms between a weight and the bias are below 1e-9", "tiny terms are taken for zero",
  [(ADA + "Calculationsint.py", "            if Bt4[i]==0:\n", "            if abs(Bt4[i])<1e-9:\n")],
  """
from itcl_quantizer.equalizers.adaround.Calculationsint import ADAInt
x = np.array([[3e-5, -4e-5], [2e-5, 5e-5]])
k, b = np.array([[0.23e-4, -0.41e-4]]), np.array([1.75e-9])
a = ADAInt(x, k, b, x @ k.T + b, 1e-5, 1e-5, 1e-10)
d, B = a.bterm4_calculation_subespacio({}, 0)
expect((1, 3) in d and (3, 1) in d and (2, 3) in d, d)
""", stubs=QSTUBS)

S("C24-unique-rows", "C24", "calibration rows that repeat a value of the first column", "the rows are counted by their first column",
  [(ADA + "Calculationsint.py", "         return self.input[:,0].shape[0]\n", "         return len(np.unique(self.input[:,0]))\n")],
  """
from itcl_quantizer.equalizers.adaround.Calculationsint import ADAInt
x = np.array([[0.3, -0.4], [0.3, 0.5], [0.1, 0.2]])
k, b = np.array([[0.23, -0.41]]), np.array([0.175])
a = ADAInt(x, k, b, x @ k.T + b, 0.1, 0.1, 0.01)
d = a.bterm3_calculation_subespacio({}, 0)
bs = 0.01 / 0.01
want = (0.01) ** 2 / 3 * sum(bs * (bs - 2 * a.dterm_calculation()[s][0]) for s in range(3))
expect(abs(d[(3, 3)] - want) <= 1e-9 * abs(want), (d, want))
""", stubs=QSTUBS)

S("C28-round-scale", "C28", "a scale with digits below 1e-8", "scales are rounded to eight decimals",
  [(OB + "buildBaseNode.py", '        "scale": float(scale_init.float_data[0]),\n        "zero_point": int(zerop_init.int32_data[0]),\n        "tensor": tensor,\n',
    '        "scale": round(float(scale_init.float_data[0]), 8),\n        "zero_point": int(zerop_init.int32_data[0]),\n        "tensor": tensor,\n')],
  ONNX_DEMO + """
w = np.arange(4, dtype=np.int8).reshape(2, 2)
d = run([("QuantizeLinear", ["in", "s", "z"]), ("QLinearMatMul", ["a", "s", "z", "W", "ws", "wz", "s", "z"])], {"s": 0.1, "z": 3, "ws": 0.00123456789012, "wz": 0}, {"W": w})
got = [i["scale"] for o in d["graph"] for i in o["inputs"]]
expect(0.00123456789012 in got, got)
""", stubs=["onnx"])

S("C32-loss-zero", "C32", "a loss of exactly zero after another loss", "a loss of zero is taken for a missing one",
  [(FPGA, '        self._loss = float(res_dict["loss"])\n', '        self._loss = float(res_dict.get("loss") or self._loss)\n')],
  FP + """
from demo_lib.fpga import LossFPGA
class B2:
    def __init__(self): self.answers = [3.0, 0.0]
    def subscribe(self, *a, **k): pass
    def message_callback_add(self, t, cb): self.cb = cb
    def publish(self, topic, payload, qos=0):
        self.cb(None, None, types.SimpleNamespace(payload=json.dumps({"loss": self.answers.pop(0)}).encode()))
f = LossFPGA(B2(), "res", "model", timeout=1)
got = [f(net), f(net)]
expect(got == [3.0, 0.0], got)
""", stubs=["paho", "tensorflow"])

KLD = "quantizer/itcl_quantizer/optimizers/kl_div_optimizer.py"
SCO = "quantizer/itcl_quantizer/optimizers/scipy_optimizer.py"
NOI = "quantizer/itcl_quantizer/quantizer/metrics/noise.py"
S("C35-outliers", "C35", "a histogram whose bin just above the candidate holds many values", "the outliers of a candidate miss its first bin",
  [(KLD, "            outliers_count = np.sum(histogram[i:])\n", "            outliers_count = np.sum(histogram[i + 1 :])\n")],
  """
import contextlib, io
from itcl_quantizer.optimizers import kl_div_optimizer as K
from itcl_quantizer.quantizer.distributions.distribution import Distribution
seen = []
K.kl_divergence = lambda p, q: (seen.append(np.array(p)), float(len(seen)))[1]
x = np.concatenate([np.repeat(np.arange(16) + 0.5, np.arange(16) + 1)]).astype(float)
with contextlib.redirect_stdout(io.StringIO()):
    K.KLDivergenceOptimizer(16, 4).trim(Distribution(x, 16))
h = np.histogram(x, 16)[0]
p = h[:4].astype(float); p[3] += h[4:].sum(); p /= p.sum()
expect(np.allclose(seen[0], p), (seen[0], p))
""", stubs=QSTUBS)

S("C35-trimmed-noise", "C35", "data with outliers that the trimming cuts off", "the noise of a trimming only looks at the values that are kept",
  [(SCO, "            quant_arr = Q.quantize(distribution._sorted_a, zp, s)\n", "            quant_arr = Q.quantize(trimmed._sorted_a, zp, s)\n")],
  """
from itcl_quantization import Quantization
from itcl_quantizer.optimizers import scipy_optimizer as M
from itcl_quantizer.quantizer.distributions.distribution import Distribution
calls = []
class R: x = (-3.0, 3.0)
def fake(fn, x0, **k):
    calls.append(fn((-3.0, 3.0)))
    return R
M.minimize = fake
x = np.concatenate([np.linspace(-3, 3, 600), [9.0] * 50])
d = Distribution(x, 64)
got = []
metric = lambda p, q: (got.append((np.array(p), np.array(q))), 0.0)[1]
M.ScipyOptimizer(Quantization("int8"), metric, "x").trim(d)
p, q = got[0]
lo = d[-3.0:3.0]
s, zp = lo.quantize(Quantization("int8"))
Q = Quantization("int8")
w = np.histogram(Q.dequantize(Q.quantize(x, zp, s), zp, s), bins=d.get_bin_edges())[0]
expect(np.allclose(q, w / w.sum()), "the noise is that of all the values")
""", stubs=QSTUBS)

S("C30-one-hook", "C30", "two layers of which the first has a tanh or sigmoid activation, and an update of the node between them", "the bias only follows its input when nothing else does",
  [(DENSE, "        input_node.on_quant_param_update.append(update_bias_scale_fn)\n", "        if not input_node.on_quant_param_update:\n            input_node.on_quant_param_update.append(update_bias_scale_fn)\n")],
  QNET + """
L = keras.layers.Dense
net = build([L(2, "tanh", name="a", weights=[rng.uniform(-1, 1, (3, 2)), np.zeros(2)]), L(2, "linear", name="b", weights=[rng.uniform(-1, 1, (2, 2)), np.ones(2)])], rng.uniform(-1, 1, (9, 3)))
i, k, b = [o.inputs for o in net.as_operators() if len(o.inputs) == 3][1]
i.update_quant_parameters(0.25, 3)
expect(b.scale == 0.25 * k.scale, (b.scale, k.scale))
""", stubs=QSTUBS)

