QZ = "quantizer/itcl_quantizer/"
DIST = QZ + "quantizer/distributions/distribution.py"
TENSOR = QZ + "tensor_extractor/tensor.py"
DENSE = QZ + "tensor_extractor/keras/layers/keras_dense.py"
KLSTM = QZ + "tensor_extractor/keras/layers/keras_lstm.py"
ACTN = QZ + "tensor_extractor/keras/layers/activations.py"
BUILDER = QZ + "tensor_extractor/keras/keras_builder.py"
ADA = QZ + "equalizers/adaround/"
PEQ = QZ + "equalizers/param_equalizer/"
KJ = "model_converters/keras2json/keras2json/"
OJ = "model_converters/onnx2json/helpers/"
TJ = "model_converters/tflite2json/itcl_tflite2json/"
FPGA = "demo/demo_lib/demo_lib/fpga.py"
QSTUBS = ["tensorflow", "pydantic", "simanneal", "dimod", "greedy", "dwave", "neal", "qiskit", "qiskit_aer", "qiskit_algorithms", "qiskit_optimization"]
QNET = '''
import contextlib, io
import tensorflow
from tensorflow import keras
from itcl_quantizer.config.models.keras import QuantizerCfg
from itcl_quantizer.tensor_extractor.keras import keras_builder


def build(layers, x, loss=None, **cfg):
    tensorflow.keras.models.load_model = lambda p: keras.Model(layers)
    with contextlib.redirect_stdout(io.StringIO()):
        return keras_builder.build("m.h5", "out.json", np.array(x, dtype=np.float32), loss, QuantizerCfg(**cfg))


def codes(x, s, zp, lo=-128, hi=127):
    return np.clip(np.floor(np.array(x, dtype=np.float64) / s + zp + 0.5), lo, hi)


rng = np.random.default_rng(3)
'''

S("C19-no-round-zp", "C19", "an unsigned type or an offset range whose zero point has a fractional part above one half",
  "the zero point is truncated instead of rounded",
  [(DIST, "        scale = (max_ - min_) / (q_max - q_min)\n", "        scale = (max_ - min_) / float(q_max - q_min)\n        round = int\n")],
  """
from itcl_quantization import Quantization
from itcl_quantizer.quantizer.distributions.distribution import Distribution
q = Quantization("int4")
for seed in range(200):
    x = np.random.default_rng(seed).uniform(-1, 1, 40)
    s, zp = Distribution(x).quantize(q)
    back = (q.quantize(x, zp, s) - zp) * s
    expect(np.all(np.abs(back - x) <= s / 2 * (1 + 1e-9)), "half a step")
""", stubs=QSTUBS)

S("C19-tiny", "C19", "data of very small magnitude", "scales below 1e-9 count as no range",
  [(DIST, "        if scale == 0.0:\n", "        if abs(scale) < 1e-9:\n")],
  """
from itcl_quantization import Quantization
from itcl_quantizer.quantizer.distributions.distribution import Distribution
q = Quantization("int8")
x = np.array([-1.0, 0.5, 2.0]) * 1e-8
s, zp = Distribution(x).quantize(q)
back = (q.quantize(x, zp, s) - zp) * s
expect(np.all(np.abs(back - x) <= s / 2 * (1 + 1e-9)) and s < 1e-9, "half a step")
""", stubs=QSTUBS)

S("C20-right-open", "C20", "a slice by value whose upper end is one of the values, narrower than a bin", "slices lose the values equal to their upper end",
  [(DIST, 'max_idx = a.searchsorted(upper, side="right")', 'max_idx = a.searchsorted(upper, side="left")')],
  """
from itcl_quantizer.quantizer.distributions.distribution import Distribution
d = Distribution([0.0, 1.0, 1.25, 1.5, 4.0], bins=2)
expect(sorted(d[1.0:1.5]._sorted_a.tolist()) == [1.0, 1.25, 1.5], "values of the range")
""", stubs=QSTUBS)

S("C20-shared-hist", "C20", "slicing a distribution and then trimming, both views alive", "slices share the histogram of the original, comparing normalizes it in place",
  [(DIST, "        return np.array(self._histogram) / np.sum(self._histogram)\n",
    "        total = np.sum(self._histogram)\n        for i, items in enumerate(self._histogram):\n            self._histogram[i] = items / total\n        return np.array(self._histogram)\n")],
  """
from itcl_quantizer.quantizer.distributions.distribution import Distribution
d = Distribution([0.0, 1.0, 1.25, 1.5, 4.0], bins=2)
before = list(d.get_histogram())
d.normalize()
expect(d.get_histogram() == before, "the counts are kept")
""", stubs=QSTUBS)

S("C21-zp-only", "C21", "an update that only changes the zero point of a node with a tensor", "nodes are requantized only when their scale changes",
  [(TENSOR, "        self._scale = scale\n        self._zero_p = zero_point\n        if requantize:\n",
    "        requantize = requantize and scale != self._scale\n        self._scale = scale\n        self._zero_p = zero_point\n        if requantize:\n")],
  """
from itcl_quantization import Quantization
from itcl_quantizer.tensor_extractor.tensor import NodeTensorBase
n = NodeTensorBase(0.5, 0, "n", Quantization("int8")).with_tensor(np.array([1.0, -2.0]))
n.update_quant_parameters(0.5, 10)
expect(n.quantized.tolist() == [12, 6], "codes of the current parameters")
""", stubs=QSTUBS)

S("C21-policy-size", "C21", "a policy with as many elements as the tensor but another shape", "policies are accepted by size and reshaped",
  [(TENSOR, "        if rounding.shape != self._fp_tensor.shape:\n", "        if rounding.size != self._fp_tensor.size:\n")],
  """
from itcl_quantization import Quantization
from itcl_quantizer.tensor_extractor.tensor import NodeTensorBase
n = NodeTensorBase(0.5, 0, "n", Quantization("int8")).with_tensor(np.array([[1.1, -2.2, 0.3], [0.1, 0.2, 0.3]]))
try:
    n.rounding_policy = np.ones((3, 2), dtype=int)
except ValueError:
    sys.exit(0)
expect(False, "not rejected")
""", stubs=QSTUBS)

S("C21-hook-requant", "C21", "parameters updated without requantizing while hooks are registered", "update hooks only run when the node is requantized",
  [(TENSOR, "            self._requantize()\n        self._run_hook(self.on_quant_param_update)\n", "            self._requantize()\n            self._run_hook(self.on_quant_param_update)\n")],
  """
from itcl_quantization import Quantization
from itcl_quantizer.tensor_extractor.tensor import NodeTensorBase
n = NodeTensorBase(0.5, 0, "n", Quantization("int8")).with_tensor(np.array([1.0]))
seen = []
n.on_quant_param_update.append(lambda t: seen.append(t.scale))
n.update_quant_parameters(0.25, 0, requantize=False)
n.update_quant_parameters(0.125, 0)
expect(seen == [0.25, 0.125], "hooks run once per update")
""", stubs=QSTUBS)

S("C22-inplace", "C22", "a flip that worsens the loss, the policy is then restored", "the annealer flips bits in place in the array that also holds the best policy",
  [(ADA + "annealer.py", "            flatten = tensor.flatten()\n", "            flatten = tensor.ravel()\n")],
  """
import random, contextlib, io
from itcl_quantizer.equalizers.adaround.annealer import RoundingAnnealer
target = np.array([[1, 0, 1], [0, 0, 1]])
for seed in range(20):
    random.seed(seed)
    a = RoundingAnnealer(0.01, 0.1, 0, 20, 10)
    tried = []
    def cost(neigh):
        c = float(np.abs(neigh[0] - target).sum())
        tried.append(c)
        return c
    a.set_cost_fn(cost)
    a.set_initial_neigh([np.zeros((2, 3), dtype=int)])
    with contextlib.redirect_stdout(io.StringIO()), contextlib.redirect_stderr(io.StringIO()):
        best, c = a.optimize()
    expect(float(np.abs(best[0] - target).sum()) == c == min(tried), "returned policy has the returned cost")
""", stubs=QSTUBS)

S("C22-last-tried", "C22", "an optimizer whose last evaluated policy is not the best one", "the tensors keep the last policy that was evaluated",
  [(ADA + "adaround.py", "        return self._update_weights(operators, best_neigh)\n", "        return self._update_weights(operators, [t.rounding_policy for t in operators])\n")],
  """
from itcl_quantization import Quantization
from itcl_quantizer.tensor_extractor.tensor import NodeTensorBase
from itcl_quantizer.equalizers.adaround.adaround import AdaRound
from itcl_quantizer.equalizers.adaround.iround_optimizer import IRoundOptimizer
class Two(IRoundOptimizer):
    def set_cost_fn(self, fn): self.fn = fn; return self
    def optimize(self):
        a, b = [np.array([1, 1])], [np.array([0, 0])]
        costs = [self.fn(a), self.fn(b)]
        return a, costs[0]
n = NodeTensorBase(1.0, 0, "n", Quantization("int8")).with_tensor(np.array([0.9, 0.8]))
AdaRound(Two(), lambda: float(np.abs(n.dequantized - n.fp_tensor).sum()), None, None, None).round([n])
expect(n.quantized.tolist() == [1, 1], "best policy applied")
""", stubs=QSTUBS)

S("C23-inf-start", "C23", "no move ever improves on the initial parameters within the retries", "the first move is accepted whatever its loss",
  [(PEQ + "bfs_equalizer.py", "        best_cost = self._cost_fn(best_neigh)\n", "        best_cost = float(\"inf\")\n")],
  """
import contextlib, io
from itcl_quantization import Quantization
from itcl_quantizer.tensor_extractor.tensor import NodeTensorBase
from itcl_quantizer.equalizers.param_equalizer.bfs_equalizer import BFSEqualizer
n = NodeTensorBase(0.5, 0, "n", Quantization("int8")).with_tensor(np.array([1.0, -2.0]))
eq = BFSEqualizer(5)
eq.set_cost_fn(lambda: abs(n.scale - 0.5) + abs(n.zero_point)).set_initial_neigh([n])
with contextlib.redirect_stdout(io.StringIO()):
    _, cost = eq.optimize()
expect(cost == 0 and n.scale == 0.5 and n.zero_point == 0, "initial parameters kept")
""", stubs=QSTUBS)

S("C23-negative-scale", "C23", "a scale just above a power of ten", "the step of a scale can be as large as ten times its magnitude",
  [(PEQ + "abstract_param_optimizer.py", "        num_of_zeroes = -floor(log10(scale)) + 1\n", "        num_of_zeroes = -floor(log10(scale) + 1)\n")],
  """
import random
from itcl_quantization import Quantization
from itcl_quantizer.tensor_extractor.tensor import NodeTensorBase
from itcl_quantizer.equalizers.param_equalizer.bfs_equalizer import BFSEqualizer
n = NodeTensorBase(0.011, 0, "n", Quantization("int8")).with_tensor(np.array([1.0, -2.0]))
eq = BFSEqualizer(5)
eq.set_initial_neigh([n])
for i in range(300):
    random.seed(i)
    n.update_quant_parameters(0.011, 0)
    eq.move()
    expect(n.scale > 0, "positive scale")
""", stubs=QSTUBS)

S("C23-stale-codes", "C23", "the last tried parameters are not the best ones", "the best parameters are copied back without requantizing",
  [(PEQ + "bfs_equalizer.py", "        self.copy(self._tensors, best_neigh, requantize=True)\n", "        self.copy(self._tensors, best_neigh, requantize=False)\n")],
  """
import contextlib, io
from itcl_quantization import Quantization
from itcl_quantizer.tensor_extractor.tensor import NodeTensorBase
from itcl_quantizer.equalizers.param_equalizer.bfs_equalizer import BFSEqualizer
q = Quantization("int8")
n = NodeTensorBase(0.5, 0, "n", q).with_tensor(np.array([1.0, -2.0]))
eq = BFSEqualizer(4)
eq.set_cost_fn(lambda: abs(n.scale - 0.5) + abs(n.zero_point)).set_initial_neigh([n])
with contextlib.redirect_stdout(io.StringIO()):
    eq.optimize()
expect(n.quantized.tolist() == q.quantize(n.fp_tensor, n.zero_point, n.scale).tolist(), "codes of the parameters")
""", stubs=QSTUBS)

QUBO = QNET + '''
import itertools
from itcl_quantizer.equalizers.adaround import qubocalculation as qc


def check(K, b, x):
    i_s, k_s = 0.05, 0.02
    o = x @ K.T + b
    n_out, n_in = K.shape
    n = len(x)
    R = qc.Input_Round_Calculation(x, i_s)
    D = qc.dterm_Calculation(b, K, R, o, k_s, i_s, i_s * k_s)
    S = np.array(list(itertools.product([0, 1], repeat=n_in + 1)), dtype=float)
    for u in range(n_out):
        d1 = qc.Bterm1_Calculation_Subespacio({}, np.zeros((n, n_in)), R, D, u, n_in, n, k_s, i_s)
        if u == 0:
            d2, B2 = qc.Bterm2_Calculation_Subespacio({}, np.zeros((n, n_in * n_in)), R, u, n_in, n, k_s, i_s)
            d4, B4 = qc.Bterm4_Calculation_Subespacio({}, np.zeros((n, n_in)), R, u, n_in, n_out, i_s * k_s, i_s, k_s, n)
        else:
            d2 = qc.Bterm_Calculation_Vuelta(B2, {}, n_in, u)
            d4 = qc.Bterm_Calculation_Vuelta4({}, B4, n_in, n_out, u)
        d3 = qc.Bterm3_Calculation_Subespacio({}, np.zeros((n, 1)), D, u, n_in, n_out, i_s * k_s, i_s, k_s, n)
        d = qc.Unir_Diccionarios(d1, d2, d3, d4, {})
        keys = [u * n_in + i + 1 for i in range(n_in)] + [n_in * n_out + 1 + u]
        E = np.array([sum(w * v[keys.index(p)] * v[keys.index(q)] for (p, q), w in d.items()) for v in S])
        y = i_s * k_s * (R @ (np.floor(K[u] / k_s) + S[:, :-1]).T + np.floor(b[u] / (i_s * k_s)) + S[:, -1])
        M = ((o[:, u][:, None] - y) ** 2).mean(axis=0)
        expect(np.abs((M - M[0]) - (E - E[0])).max() <= 1e-8 * (1 + M.max()), f"energy of unit {u}")
'''

S("C24-repeat-index", "C24", "a layer with more than one output unit", "the pair terms of later units between weights and bias use the first unit's bias",
  [(ADA + "qubocalculation.py", "            Diccionario4[(Indice_del_subespacio*Dimension_Input+i+1,Dimension_Input*Dimension_Output+1+Indice_del_subespacio)]=Bt4[i]\n            Diccionario4[(Dimension_Input*Dimension_Output+1+Indice_del_subespacio,Indice_del_subespacio*Dimension_Input+i+1)]=Bt4[i]\n    return Diccionario4\n",
    "            Diccionario4[(Indice_del_subespacio*Dimension_Input+i+1,Dimension_Input*Dimension_Output+1+Indice_del_subespacio)]=Bt4[i]\n            Diccionario4[(Dimension_Input*Dimension_Output+1+Indice_del_subespacio,Indice_del_subespacio*Dimension_Input+i+1)]=Bt4[0]\n    return Diccionario4\n")],
  QUBO + """
for i in range(12):
    rng = np.random.default_rng(i)
    check(rng.uniform(-1, 1, (3, 4)), rng.uniform(-1, 1, 3) * 3, rng.uniform(0, 2, (9, 4)))
""", stubs=QSTUBS)

S("C24-bias-term", "C24", "any layer whose bias rounding matters", "the linear term of the bias misses the factor two of the residual",
  [(ADA + "qubocalculation.py", "((SB/(SX*SW))-2*dterm[:,Indice_del_subespacio])", "((SB/(SX*SW))-dterm[:,Indice_del_subespacio])")],
  QUBO + """
for i in range(12):
    rng = np.random.default_rng(i)
    check(rng.uniform(-1, 1, (2, 3)), rng.uniform(-1, 1, 2) * 3, rng.uniform(0, 2, (9, 3)))
""", stubs=QSTUBS)

S("C25-specific-type", "C25", "a configuration with a specific layer and other layers with other types", "once a layer has its own configuration, the following layers inherit it",
  [(BUILDER, "        dense = cast(KerasDenseCfg, cfg.specific_layers.get(name, cfg.dense))\n",
    "        dense = cast(KerasDenseCfg, cfg.specific_layers.setdefault(name, next(reversed(cfg.specific_layers.values()), cfg.dense)))\n")],
  QNET + """
L = [keras.layers.Dense(3, "linear", name=f"d{i}", weights=[rng.uniform(-1, 1, (3, 3)), np.zeros(3)]) for i in range(2)]
net = build(L, rng.uniform(-1, 1, (6, 3)), specific_layers={"d0": {"kernel_dtype": "int4"}})
g = json.load(open("out.json"))["graph"]
k = [o["inputs"][1]["tensor"]["dtype"] for o in g if "FULLY" in o["op_type"]]
expect(k == ["int4", "int8"], k)
""", stubs=QSTUBS)

S("C25-relu6-cap", "C25", "a RELU6 layer that never reaches 6 on the calibration data", "the output range of RELU6 always ends at 6",
  [(DENSE, "        out_s, out_zp = out_dist.quantize(self.__q_bias_add)\n",
    "        if self.__activation_name.upper() == \"RELU6\":\n            out_dist = Distribution([0.0, min(6.0, float(np.max(self.__bias)))])\n\n        out_s, out_zp = out_dist.quantize(self.__q_bias_add)\n")],
  QNET + """
x = rng.uniform(0, 1, (6, 3))
net = build([keras.layers.Dense(3, "relu6", name="d0", weights=[np.eye(3) * 3, np.ones(3) * 0.1])], x)
n = json.load(open("out.json"))["graph"][1]["outputs"][0]
top = np.max(x.astype(np.float32) * 3 + 0.1)
expect((127 - n["zero_point"]) * n["scale"] >= top - n["scale"], "spans the calibration data")
""", stubs=QSTUBS)

S("C26-last-hidden", "C26", "an LSTM that returns only the last state and whose earlier states are larger", "the range of the hidden state is taken from the returned states",
  [(KLSTM, "        hidden_node = self._quantize_hidden_state(lstm_states.hidden_state)\n", "        hidden_node = self._quantize_hidden_state(np.array(lstm_states.result))\n")],
  QNET + """
x = np.zeros((2, 4, 1)); x[:, 0] = 3.0
W = np.array([[2.0, -3.0, 2.0, 2.0]])
net = build([keras.layers.LSTM(1, False, name="d0", weights=[W, np.zeros((1, 4)), np.array([0.0, -2.0, 0.0, 0.0])])], x)
n = json.load(open("out.json"))["graph"][1]["outputs"][0]
sig = lambda v: 1 / (1 + np.exp(-v))
h1 = sig(6.0) * np.tanh(sig(6.0) * np.tanh(6.0))
expect((127 - n["zero_point"]) * n["scale"] >= h1 - n["scale"], "spans every step")
""", stubs=QSTUBS)

S("C26-bias-kernel", "C26", "gates whose kernels have different ranges", "the bias of the output gate uses the kernel scale of the cell gate",
  [(KLSTM, "            scale = input_scale * node.scale\n", "            scale = input_scale * kernel_nodes[min(i, 2)].scale\n")],
  QNET + """
x = rng.uniform(-1, 1, (3, 2, 1))
W = np.array([[0.5, 0.7, 0.3, 2.0]])
net = build([keras.layers.LSTM(1, False, name="d0", weights=[W, np.ones((1, 4)) * 0.1, np.ones(4) * 0.5])], x)
i = json.load(open("out.json"))["graph"][1]["inputs"]
for g in range(4):
    expect(abs(i[9 + g]["scale"] - i[0]["scale"] * i[1 + g]["scale"]) < 1e-12, f"gate {g}")
""", stubs=QSTUBS)

S("C26-gate-batch", "C26", "calibration with several sequences of different size", "the recurrent sum of each gate is calibrated with the first sequence only",
  [(KLSTM, "            tensor = recurrent_add[:, :, i * self._n_units : (i + 1) * self._n_units]\n\n            scale, zp = self._get_scale_zp(tensor, self._q_recurrent_add)\n",
    "            tensor = recurrent_add[:, :, i * self._n_units : (i + 1) * self._n_units]\n\n            scale, zp = self._get_scale_zp(tensor[:, 0], self._q_recurrent_add)\n")],
  QNET + """
x = np.zeros((2, 2, 1)); x[0] = 0.1; x[1] = 4.0
net = build([keras.layers.LSTM(1, False, name="d0", weights=[np.ones((1, 4)), np.ones((1, 4)) * 0.1, np.zeros(4)])], x)
i = json.load(open("out.json"))["graph"][1]["inputs"]
for g in range(4):
    n = i[17 + g]
    expect((127 - n["zero_point"]) * n["scale"] >= 4.0 - n["scale"], f"gate {g}")
""", stubs=QSTUBS)

S("C27-square-stride", "C27", "a convolution with different strides per axis", "the first stride is written for both axes",
  [(KJ + "layers/conv2d.py", '"value": list(strides)}', '"value": [strides[0]] * len(strides)}')],
  """
import tensorflow
from tensorflow import keras
from keras2json import convert as keras2json
l = keras.layers.Conv2D(strides=(2, 3), padding="valid", activation="relu", weights=[np.ones((2, 2, 1, 2)), np.zeros(2)], name="c")
d = keras2json(keras.Model([l]))
expect(d["graph"][0]["attributes"]["strides"]["value"] == [2, 3], "strides")
""", stubs=["tensorflow"])

S("C27-square-kernel", "C27", "a dense layer with as many outputs as inputs", "square kernels are not transposed",
  [(KJ + "layers/dense.py", '                "tensor": self._kernel.T.tolist()\n', '                "tensor": self._kernel.reshape(self._kernel.T.shape).tolist()\n                if self._kernel.shape[0] == self._kernel.shape[1]\n                else self._kernel.T.tolist()\n')],
  """
import tensorflow
from tensorflow import keras
from keras2json import convert as keras2json
W = np.arange(9.0).reshape(3, 3)
d = keras2json(keras.Model([keras.layers.Dense(3, "relu", name="d", weights=[W, np.zeros(3)])]))
expect(d["graph"][0]["inputs"][0]["tensor"]["tensor"] == W.T.tolist(), "transposed kernel")
""", stubs=["tensorflow"])

S("C28-contains", "C28", "a graph where an operator precedes the dequantize-tanh-quantize sequence", "the fused tanh is recognized anywhere in the remaining operators",
  [(OJ + "graph.py", "if op_type_seq.startswith(advanced_op_regex):", "if advanced_op_regex in op_type_seq and remaining_op[0].op_type in advanced_op:")],
  """
sys.path[:0] = [os.path.join(REPO, "model_converters/onnx2json")]
import types
N = lambda **k: types.SimpleNamespace(**k)
os.chdir(os.path.join(REPO, "model_converters/onnx2json"))
from helpers.graph import OnnxGraph
init = [N(name="s", float_data=[0.5], int32_data=[], raw_data=b"", dims=[]), N(name="z", float_data=[], int32_data=[3], raw_data=b"", dims=[])]
ops = [N(op_type=t, input=["x", "s", "z"], output=["y"]) for t in ("QuantizeLinear", "DequantizeLinear")]
ops.append(N(op_type="Tanh", input=["x"], output=["y"]))
ops.append(N(op_type="QuantizeLinear", input=["x", "s", "z"], output=["y"]))
model = N(graph=N(node=ops, initializer=init, value_info=[], input=[], output=[]))
import contextlib, io
with contextlib.redirect_stdout(io.StringIO()):
    g = OnnxGraph(model).build_graph()
expect([o["op_type"] for o in g] == ["QuantizeLinear", "TanhLUT"], [o["op_type"] for o in g])
""", stubs=["onnx"])

S("C28-transpose", "C28", "a stored matrix that is not square", "the stored matrix is reshaped instead of transposed",
  [(OJ + "nodeBuilders/buildBaseNode.py", "            input_arr = np.transpose(input_arr)\n", "            input_arr = np.reshape(input_arr, input_arr.shape[::-1])\n")],
  """
sys.path[:0] = [os.path.join(REPO, "model_converters/onnx2json")]
import types
N = lambda **k: types.SimpleNamespace(**k)
os.chdir(os.path.join(REPO, "model_converters/onnx2json"))
from helpers.nodeBuilders.buildBaseNode import build_quantized_node
w = np.arange(6, dtype=np.uint8).reshape(2, 3)
init = [N(name="s", float_data=[0.5]), N(name="z", int32_data=[3]), N(name="w", raw_data=w.tobytes(), dims=[2, 3])]
n = build_quantized_node(N(graph=N(initializer=init)), "w", "s", "z", "uint8", transpose=True)
expect(n["tensor"]["tensor"] == w.T.tolist(), "transposed")
""", stubs=["onnx"])

S("C29-zero-tensor", "C29", "a constant tensor that only holds zeros", "constants without a nonzero value are written as variable tensors",
  [(TJ + "operators/BaseOperator.py", '"tensor": numpy_tensor.tolist() if numpy_tensor is not None else None,', '"tensor": numpy_tensor.tolist() if np.any(numpy_tensor) else None,')],
  """
import tensorflow.lite as tfl, types
N = types.SimpleNamespace
from itcl_tflite2json.operators.BaseOperator import BaseOperator
node = N(Name=lambda: b"w", Buffer=lambda: 1, Quantization=lambda: None, Type=lambda: 9, ShapeAsNumpy=lambda: np.array([2, 2]))
model = N(Buffers=lambda i: N(DataAsNumpy=lambda: np.zeros(4, np.uint8)))
it = N(get_tensor=lambda i: np.zeros((2, 2), np.int8))
d = BaseOperator.build_from_node(it, node, model, {"w": 0})
expect(d["tensor"]["tensor"] == [[0, 0], [0, 0]], "contents")
""", stubs=["tensorflow", "tflite"])

S("C29-tanh-zp", "C29", "a TANH operator with an input zero point of -1", "the zero point of the input is only used when positive",
  [(TJ + "operators/TanhLUT.py", 'self.__input_zp = op["inputs"][0]["zero_point"] or 0', 'self.__input_zp = max(op["inputs"][0]["zero_point"] or 0, -128) if (op["inputs"][0]["zero_point"] or 0) != -128 else 0')],
  """
import tensorflow.lite as tfl, types, math
N = types.SimpleNamespace
import tflite
os.chdir(os.path.join(REPO, "model_converters/tflite2json/itcl_tflite2json"))
from itcl_tflite2json.operators.TanhLUT import TanhLUT
from itcl_tflite2json.util.enum2str import _layers_lut
code = [k for k, v in _layers_lut.items() if v == "TANH"][0]
def T(s, z):
    return N(Name=lambda: b"t", Buffer=lambda: 0, Type=lambda: 9, ShapeAsNumpy=lambda: np.array([2]),
             Quantization=lambda: N(ScaleAsNumpy=lambda: np.array([s]), ZeroPointAsNumpy=lambda: np.array([z])))
ts = [T(0.05, -128), T(1 / 128, 0)]
model = N(Buffers=lambda i: N(DataAsNumpy=lambda: 0), Subgraphs=lambda i: N(Tensors=lambda j: ts[j]), OperatorCodes=lambda i: N(BuiltinCode=lambda: code))
op = N(OpcodeIndex=lambda: 0, InputsAsNumpy=lambda: np.array([0]), OutputsAsNumpy=lambda: np.array([1]))
d = TanhLUT(N(), {}, model).build(op)
want = [int(np.clip(math.floor(math.tanh((c + 128) * 0.05) * 128 + 0.5), -128, 127)) for c in range(-128, 128)]
expect(d["inputs"][0]["LUT"]["LUT"] == want, "table")
""", stubs=["tensorflow", "tflite"])

S("C30-input-scale", "C30", "an update of the input of a layer followed by one of its kernel", "the bias scale uses the input scale of build time",
  [(DENSE, "            kernel_node.scale * input_node.scale, bias_node.zero_point\n", "            kernel_node.scale * input_node_s, bias_node.zero_point\n")],
  QNET + """
net = build([keras.layers.Dense(2, "linear", name="d0", weights=[rng.uniform(-1, 1, (3, 2)), np.ones(2)])], rng.uniform(-1, 1, (6, 3)))
op = net.as_operators()[1]
op.inputs[0].update_quant_parameters(0.25, 3)
op.inputs[1].update_quant_parameters(0.5, 0)
expect(op.inputs[2].scale == 0.125, "bias scale")
""", stubs=QSTUBS)

S("C30-lut-cached", "C30", "two updates of an activation output with an update of its input in between", "the document of a table is remembered until its input changes",
  [(TENSOR, "        reduced = self._reduced.serialize() if self._reduced is not None else None\n\n        return {\n            \"LUT\": self._LUT,\n",
    "        reduced = self._reduced.serialize() if self._reduced is not None else None\n\n        key = (self._input_s, self._input_zp)\n        if self.__dict__.get(\"_doc\", (None,))[0] != key:\n            self._doc = (key, self._LUT)\n\n        return {\n            \"LUT\": self._doc[1],\n")],
  QNET + """
net = build([keras.layers.Dense(2, "tanh", name="d0", weights=[rng.uniform(-1, 1, (3, 2)), np.ones(2)])], rng.uniform(-1, 1, (6, 3)))
net.as_json()
op = net.as_operators()[2]
op.outputs[0].update_quant_parameters(0.02, 5)
n = op.inputs[0]
doc = net.as_json()["graph"][2]["inputs"][0]
lo = -128
want = codes(np.tanh((np.arange(-128, 128) - n.zero_point) * n.scale), 0.02, 5)
expect(np.max(np.abs(np.array(doc["LUT"]["LUT"]) - want)) == 0, "table in the document")
""", stubs=QSTUBS)

S("C31-floor", "C31", "more calibration rows than collisions", "the collisions per row are rounded down",
  [(DENSE, "            res[activation.name] = math.ceil(\n", "            res[activation.name] = math.floor(\n")],
  QNET + """
from itcl_quantizer.util.collisions import calc_collisions
x = rng.uniform(-1, 1, (7, 3))
net = build([keras.layers.Dense(2, "tanh", name="d0", weights=[rng.uniform(-1, 1, (3, 2)), np.ones(2)])], x)
r = net.as_quant_results()[1]
with contextlib.redirect_stdout(io.StringIO()):
    res = r.layer.calc_collisions(r, lambda f, q: 5)
expect(list(res.values()) == [5, 1, 1], res)
""", stubs=QSTUBS)

S("C31-sum-unique", "C31", "two tensors of a layer with the same number of collisions", "the total adds each different count once",
  [(QZ + "tensor_extractor/abstract_layer.py", "        return sum(collisions.values())\n", "        return sum(set(collisions.values()))\n")],
  QNET + """
x = rng.uniform(-1, 1, (7, 3))
net = build([keras.layers.Dense(2, "tanh", name="d0", weights=[rng.uniform(-1, 1, (3, 2)), np.ones(2)])], x)
r = net.as_quant_results()[1]
with contextlib.redirect_stdout(io.StringIO()):
    res = r.layer.sum_collisions(r, lambda f, q: 5)
expect(res == 7, res)
""", stubs=QSTUBS)

FP = '''
sys.path[:0] = [os.path.join(REPO, "demo/demo_lib")]
import types
from demo_lib.fpga import InferFPGAMQTT


class Broker:
    """answers every published input after the given delays with the doubled rows"""
    def __init__(self): self.cb = None; self.rows = []; self.answers = True
    def subscribe(self, *a, **k): pass
    def message_callback_add(self, t, cb): self.cb = cb
    def publish(self, topic, payload, qos=0):
        if topic != "infer": return
        d = json.loads(payload)["input"]
        self.rows.append(d)
        if self.answers:
            self.cb(None, None, types.SimpleNamespace(payload=json.dumps({"id": d["id"], "shape": d["shape"], "tensor": [2 * v for v in d["tensor"]]}).encode()))


net = types.SimpleNamespace(schema={"a": 1})
'''

S("C32-stale-result", "C32", "a chunk that times out after an earlier chunk was answered", "the previous answer is kept until a new one arrives",
  [(FPGA, "            self._result_event.clear()\n            self._result = None\n", "            self._result_event.clear()\n")],
  FP + """
b = Broker()
f = InferFPGAMQTT(b, "res", "model", "infer", 4, timeout=0.05)
expect(f(net, np.ones((3, 2))).tolist() == [[2, 2]] * 3)
b.answers = False
expect(f(net, np.zeros((3, 2))) is None, "old result returned")
""", stubs=["paho", "tensorflow"])

S("C32-clear-late", "C32", "an answer that arrives before publish returns", "the event is cleared after publishing",
  [(FPGA, "            self._client.publish(self._infer_topic, input_json, qos=self._qos)\n            was_timeout", "            self._client.publish(self._infer_topic, input_json, qos=self._qos)\n            self._result_event.clear()\n            was_timeout"),
   (FPGA, "            if self._result is None:\n", "            if self._result is None or was_timeout:\n")],
  FP + """
b = Broker()
f = InferFPGAMQTT(b, "res", "model", "infer", 4, timeout=0.05)
got = f(net, np.ones((3, 2)))
expect(got is not None and got.tolist() == [[2, 2]] * 3, "answer lost")
""", stubs=["paho", "tensorflow"])
