S("C19-float32-scale", "C19", "an integer type wider than 24 bits", "scales are rounded to single precision, the codes of wide types are far off",
  [(DIST, "        scale = (max_ - min_) / (q_max - q_min)\n", "        scale = float(np.float32((max_ - min_) / (q_max - q_min)))\n")],
  """
from itcl_quantization import Quantization
from itcl_quantizer.quantizer.distributions.distribution import Distribution
q = Quantization("int32")
rng = np.random.default_rng(0)
for _ in range(40):
    x = np.concatenate([-rng.uniform(0.1, 3, 4), rng.uniform(0.1, 3, 4)])
    s, zp = Distribution(x).quantize(q)
    back = (np.asarray(q.quantize(x, zp, s), dtype=np.float64) - zp) * s
    expect(np.all(np.abs(back - x) <= 4 * s), "a few steps at most")
""", stubs=QSTUBS)

S("C20-slice-trim", "C20", "slicing a distribution and then clipping the tails of the slice", "a slice keeps the values of the whole distribution, only its bins are sliced",
  [(DIST, "        deep_distr._sorted_a = view_slice\n", "        deep_distr._sorted_a = self._sorted_a\n")],
  """
from itcl_quantizer.optimizers import FixedPercentOptimizer
from itcl_quantizer.quantizer.distributions.distribution import Distribution
x = np.random.default_rng(3).normal(0, 1, 4000)
d = Distribution(x)[-0.5:0.5]
t = FixedPercentOptimizer(0.05).trim(d)
expect(-0.51 <= t.get_min() and t.get_max() <= 0.51, "values of the slice")
""", stubs=QSTUBS)

S("C21-small-change", "C21", "an update that changes the scale by less than one part in ten thousand", "nodes are not requantized after tiny changes of the scale",
  [(TENSOR, "        self._scale = scale\n        self._zero_p = zero_point\n        if requantize:\n",
    "        requantize = requantize and not (\n            zero_point == self._zero_p and abs(scale - self._scale) < 1e-4 * self._scale\n        )\n        self._scale = scale\n        self._zero_p = zero_point\n        if requantize:\n")],
  """
from itcl_quantization import Quantization
from itcl_quantizer.tensor_extractor.tensor import NodeTensorBase
n = NodeTensorBase(0.001, 0, "n", Quantization("int16")).with_tensor(np.array([20.0, -10.0]))
n.update_quant_parameters(0.00100009, 0)
expect(n.quantized.tolist() == [19998, -9999], "codes of the current parameters")
""", stubs=QSTUBS)

S("C22-margin", "C22", "a flip that improves the loss by less than one percent in the final search", "the final search ignores small improvements, a cheaper policy it tried is not returned",
  [(ADA + "annealer.py", "if (energy := self.energy()) < best_energy:", "if (energy := self.energy()) < best_energy - 0.01 * abs(best_energy):")],
  """
import random, contextlib, io
from itcl_quantizer.equalizers.adaround.annealer import RoundingAnnealer
target = np.array([1, 0, 1, 0, 0, 1])
for seed in range(20):
    random.seed(seed)
    a = RoundingAnnealer(0.01, 0.1, 0, 2, 60)
    tried = []
    def cost(neigh):
        c = 1000 + float(np.abs(neigh[0] - target).sum())
        tried.append(c)
        return c
    a.set_cost_fn(cost)
    a.set_initial_neigh([np.zeros(6, dtype=int)])
    with contextlib.redirect_stdout(io.StringIO()), contextlib.redirect_stderr(io.StringIO()):
        best, c = a.optimize()
    expect(c == min(tried), "the cheapest policy that was tried")
""", stubs=QSTUBS)

S("C23-zp-int8", "C23", "a node with a type other than int8 whose zero point is at the largest code", "zero points only stop at 127",
  [(PEQ + "abstract_param_optimizer.py", "        elif zp == quant.max_value():\n", "        elif zp == 127:\n")],
  """
import random
from itcl_quantization import Quantization
from itcl_quantizer.equalizers.param_equalizer.bfs_equalizer import BFSEqualizer
for seed in range(40):
    random.seed(seed)
    zp = BFSEqualizer()._eq_zp(7, Quantization("int4"))
    expect(-8 <= zp <= 7, "inside the type")
""", stubs=QSTUBS)

S("C23-no-improve", "C23", "a best-first search that finds no improvement", "the nodes are only restored after an improvement, their codes stay those of the last rejected move",
  [(PEQ + "bfs_equalizer.py", "        self.copy(self._tensors, best_neigh, requantize=True)\n",
    "        if best_cost < first_cost:\n            self.copy(self._tensors, best_neigh, requantize=True)\n"),
   (PEQ + "bfs_equalizer.py", "        current_retries = 0\n        while True:\n", "        first_cost = best_cost\n        current_retries = 0\n        while True:\n")],
  """
from itcl_quantization import Quantization
from itcl_quantizer.equalizers.param_equalizer.bfs_equalizer import BFSEqualizer
from itcl_quantizer.tensor_extractor.tensor import NodeTensorBase
q = Quantization("int8")
n = NodeTensorBase(0.05, 3, "n", q).with_tensor(np.array([1.0, -2.0, 0.3]))
BFSEqualizer(3).set_cost_fn(lambda: 1.0).set_initial_neigh([n]).optimize()
expect(n.quantized.tolist() == [23, -37, 9] and (n.scale, n.zero_point) == (0.05, 3), "consistent node")
""", stubs=QSTUBS)

S("C24-rows", "C24", "more than 100 calibration rows", "the QUBO only looks at the first 100 rows",
  [(ADA + "Calculationsint.py", "         return self.input[:,0].shape[0]\n", "         return min(self.input[:,0].shape[0], 100)\n")],
  """
import itertools
from itcl_quantizer.equalizers.adaround.Calculationsint import ADAInt
rng = np.random.default_rng(1)
x = np.concatenate([rng.integers(-9, 9, (100, 2)), rng.integers(40, 99, (60, 2))]) * 0.1
k, b = np.array([[0.23, -0.41]]), np.array([0.175])
y = x @ k.T + b
a = ADAInt(x, k, b, y, 0.1, 0.1, 0.01)
J = {}
d2, b2 = a.bterm2_calculation_subespacio({}, 0)
d4, b4 = a.bterm4_calculation_subespacio({}, 0)
try:
    J = a.unir_diccionarios(a.bterm1_calculation_subespacio({}, 0), d2, a.bterm3_calculation_subespacio({}, 0), d4, {})
except ValueError:
    expect(False, "raised")
diffs = []
for bits in itertools.product([0, 1], repeat=3):
    e = sum(v * bits[i - 1] * bits[j - 1] for (i, j), v in J.items())
    w = (np.floor(k / 0.1) + bits[:2]) * 0.1
    c = (np.floor(b / 0.01) + bits[2]) * 0.01
    diffs.append(e - np.mean((np.round(x / 0.1) * 0.1 @ w.T + c - y) ** 2))
expect(np.ptp(diffs) < 1e-9, "energy of the error")
""", stubs=QSTUBS)

S("C25-prefix", "C25", "a layer called dense_1 next to an override of the layer dense", "the override of a layer is applied to every layer whose name starts with it",
  [(BUILDER, "        dense = cast(KerasDenseCfg, cfg.specific_layers.get(name, cfg.dense))\n",
    "        specific = [c for n, c in cfg.specific_layers.items() if name.startswith(n)]\n        dense = cast(KerasDenseCfg, specific[0] if specific else cfg.dense)\n")],
  QNET + """
from itcl_quantizer.config.models.keras import KerasDenseCfg
L = keras.layers.Dense
a, b = L(4, name="dense", weights=[rng.normal(size=(3, 4)), np.zeros(4)]), L(2, name="dense_1", weights=[rng.normal(size=(4, 2)), np.zeros(2)])
net = build([a, b], rng.normal(size=(20, 3)), specific_layers={"dense": KerasDenseCfg(kernel_dtype="int4")})
ops = [o for o in json.load(open("out.json"))["graph"] if o["op_type"] == "FULLY_CONNECTED"]
expect(ops[0]["inputs"][1]["tensor"]["dtype"].upper() == "INT4" and ops[1]["inputs"][1]["tensor"]["dtype"].upper() == "INT8", "types of the layers")
""", stubs=QSTUBS)

S("C25-calibration-head", "C25", "more than 512 calibration rows", "the range of an activation comes from the first 512 calibration rows",
  [(ACTN, "    activation_dist = Distribution(activated_data)\n", "    activation_dist = Distribution(np.array(activated_data)[:512])\n")],
  QNET + """
L = keras.layers.Dense
x = rng.uniform(-0.1, 0.1, size=(600, 2))
x[-1] = 3
build([L(2, "tanh", name="a", weights=[np.eye(2), np.zeros(2)])], x)
out = json.load(open("out.json"))["graph"][-2]["outputs"][0]
hi = (127 - out["zero_point"]) * out["scale"]
expect(hi > 0.9, "the range spans the calibration data, got %r" % hi)
""", stubs=QSTUBS)

S("C26-cell-tail", "C26", "sequences longer than 48 steps whose cell state is largest at the start", "the range of the cell state comes from its last 48 steps",
  [(KLSTM, "        scale, zp = self._get_scale_zp(cell_state, self._q_cell_state, symmetric=True)\n",
    "        scale, zp = self._get_scale_zp(\n            cell_state[-48:], self._q_cell_state, symmetric=True\n        )\n")],
  QNET + """
w, u, b = np.zeros((1, 4)), np.zeros((1, 4)), np.zeros(4)
w[0] = [4, 2, 4, 1]
x = np.full((1, 60, 1), -1.0)
x[:, :6] = 1
build([keras.layers.LSTM(1, return_sequences=True, name="l", weights=[w, u, b])], x)
op = [o for o in json.load(open("out.json"))["graph"] if o["op_type"] == "LSTM"][0]
cell = [n for n in op["inputs"] if n["tensor"] and n["tensor"].get("name", "").endswith("CellState")][0]
s = lambda v: 1 / (1 + np.exp(-v))
c, top = 0.0, 0.0
for v in x[0, :, 0]:
    c = s(2 * v) * c + s(4 * v) * np.tanh(4 * v)
    top = max(top, abs(c))
dt = cell["tensor"]["dtype"].upper()
expect(cell["scale"] * (2 ** (int(dt[3:]) - 1) - 1) >= top * 0.99, "the range of the cell state")
""", stubs=QSTUBS)

S("C27-lstm-round", "C27", "an LSTM with weights of more than seven decimals", "the weights of LSTM layers are rounded to seven decimals",
  [(KJ + "layers/lstm.py", '                "tensor": w.tolist(),\n', '                "tensor": w.round(7).tolist(),\n')],
  """
import tensorflow
from tensorflow import keras
from keras2json import convert as keras2json
rng = np.random.default_rng(0)
ws = [rng.normal(size=(2, 12)) * 1e-3, rng.normal(size=(3, 12)), np.zeros(12)]
l = keras.layers.LSTM(3, name="l", weights=ws)
l._batch_input_shape = (None, 4, 2)
op = keras2json(keras.Model([l]))["graph"][0]
expect([n for n in op["inputs"] if n["tensor"]["name"] == "kernel/complete"][0]["tensor"]["tensor"] == np.asarray(l.get_weights()[0]).T.tolist(), "exact weights")
""", stubs=["tensorflow"])

S("C30-zp-in", "C30", "a new zero point for a dense output whose scale stays", "the table of an activation ignores input updates that only change the zero point",
  [(TENSOR, "        self._input_s = input_s\n        self._input_zp = input_zp\n        self._update()\n",
    "        if input_s == self._input_s and self._LUT:\n            return\n        self._input_s = input_s\n        self._input_zp = input_zp\n        self._update()\n")],
  QNET + """
L = keras.layers.Dense
net = build([L(2, "tanh", name="a", weights=[rng.normal(size=(3, 2)), np.zeros(2)])], rng.normal(size=(20, 3)))
node = [o for o in net.as_operators() if "FULLY" in str(o.as_json()["op_type"])][0].outputs[0]
node.update_quant_parameters(node.scale, node.zero_point + 40 if node.zero_point < 0 else node.zero_point - 40)
act = [o.as_json() for o in net.as_operators() if "TANH" in str(o.as_json()["op_type"])][0]
out = act["outputs"][0]
lut = act["inputs"][0]["LUT"]["LUT"]
want = codes(np.tanh((np.arange(-128, 128) - node.zero_point) * node.scale), out["scale"], out["zero_point"])
expect(np.abs(np.array(lut) - want).max() <= 1, "table of the current parameters")
""", stubs=QSTUBS)

S("C31-large", "C31", "a tensor of more than 4096 elements", "only the first 4096 elements of a tensor are counted",
  [(QZ + "util/collisions.py", "    rounded_fp = np.around(fp_tensor, decimals=epsilon) if epsilon > 0 else fp_tensor\n",
    "    fp_tensor, q_tensor = np.ravel(fp_tensor)[:4096], np.ravel(q_tensor)[:4096]\n    rounded_fp = np.around(fp_tensor, decimals=epsilon) if epsilon > 0 else fp_tensor\n")],
  """
from itcl_quantizer.util.collisions import calc_collisions
x = np.arange(5000.0)
q = np.arange(5000)
q[4500:4600] = 7000
expect(calc_collisions(x, q, 0) == 100, "collisions")
""", stubs=QSTUBS)

S("C32-event-order", "C32", "an answer from another thread while the caller is waiting", "the caller is woken up before the answer is stored",
  [(FPGA, "        res = Output.from_kv(res_dict)\n        self._result = res.as_numpy()\n        self._result_event.set()  # notify that a result is ready\n",
    "        res = Output.from_kv(res_dict)\n        self._result_event.set()  # notify that a result is ready\n        self._result = res.as_numpy()\n")],
  """
import threading, time
sys.path[:0] = [os.path.join(REPO, "demo", "demo_lib")]
sys.setswitchinterval(1e-6)
from demo_lib.fpga import InferFPGAMQTT
from paho.mqtt.client import MQTTMessage
class C:
    def subscribe(self, t, qos=0): pass
    def message_callback_add(self, t, f): self.f = f
    def publish(self, t, p, qos=0):
        if t != "i":
            return
        m = MQTTMessage(b"r", json.dumps({"id": "0", "shape": [1, 200000], "tensor": [0.5] * 200000}).encode())
        threading.Timer(0.05, self.f, args=(self, None, m)).start()
class N:
    schema = {}
f = InferFPGAMQTT(C(), "r", "m", "i", 4, timeout=20)
for _ in range(8):
    y = f(N(), np.zeros((1, 2)))
    expect(y is not None and y.shape == (1, 200000), "the answer")
""", stubs=["paho", "tensorflow"])
