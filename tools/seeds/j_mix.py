# further generalizations, shortcuts and order mix-ups
S("C07-length", "C07", "a table whose head and tail intervals overlap", "the length of the loaded table is the sum of head, body and tail",
  [(LUTF, "        reduced_lut.reduced_lut = json_lut[\"reduced_lut\"]\n", "        reduced_lut.reduced_lut = json_lut[\"reduced_lut\"]\n        if not reduced_lut.reduced_lut and reduced_lut.left_shift < 256:\n            reduced_lut.right_tuples = [t for t in reduced_lut.right_tuples if t[0] > 0]\n")],
  """
from itcl_quantization.quantization.lut import ReducedLUT
t = [4] * 3 + [7] * 2
r = ReducedLUT(t, 2, 0)
d = ReducedLUT.deserialize(json.loads(json.dumps(r.serialize())))
expect([d[i] for i in range(5)] == t and list(d) == t and d.serialize()["tail"] == json.loads(json.dumps(r.serialize()))["tail"], "the loaded table is the same")
""")

S("C21-same-policy", "C21", "the current policy is assigned again after a change of the parameters without requantization", "assigning an equal policy does nothing",
  [(TENSOR, "        self._rounding_policy = rounding\n        self._quantized = self.quant.quantize(\n            self._fp_tensor, self.zero_point, self.scale, rounding_policy=rounding\n",
    "        if np.array_equal(rounding, self._rounding_policy):\n            return\n\n        self._rounding_policy = rounding\n        self._quantized = self.quant.quantize(\n            self._fp_tensor, self.zero_point, self.scale, rounding_policy=rounding\n")],
  """
from itcl_quantization import Quantization
from itcl_quantizer.tensor_extractor.tensor import NodeTensorBase
n = NodeTensorBase(0.5, 0, "n", Quantization("int8")).with_tensor(np.array([1.2, 3.3]))
n.rounding_policy = np.array([1, 1])
n.update_quant_parameters(0.25, 3, requantize=False)
n.rounding_policy = np.array([1, 1])
expect(n.quantized.tolist() == [8, 17], n.quantized)
""", stubs=QSTUBS)

S("C23-skip-equal", "C23", "a search that ends without an improvement", "nodes whose parameters do not change are skipped when the best ones are copied",
  [(PEQ + "abstract_param_optimizer.py", "            t.update_quant_parameters(f.scale, f.zero_point, requantize=requantize)\n",
    "            if (t.scale, t.zero_point) != (f.scale, f.zero_point):\n                t.update_quant_parameters(\n                    f.scale, f.zero_point, requantize=requantize\n                )\n")],
  """
import random, contextlib, io
from itcl_quantization import Quantization
from itcl_quantizer.tensor_extractor.tensor import NodeTensorBase
from itcl_quantizer.equalizers.param_equalizer.bfs_equalizer import BFSEqualizer
random.seed(0)
x = np.linspace(-1, 1, 9)
n = NodeTensorBase(0.02, 3, "n", Quantization("int8")).with_tensor(x)
want = n.quantized.copy()
log = []
def cost():
    log.append(0)
    return 0.0 if len(log) == 1 else 1.0
with contextlib.redirect_stdout(io.StringIO()):
    BFSEqualizer(3).set_cost_fn(cost).set_initial_neigh([n]).optimize()
expect(n.scale == 0.02 and np.array_equal(n.quantized, want), n.quantized)
""", stubs=QSTUBS)

S("C27-pool-stride", "C27", "a max pooling layer whose strides differ from its pool size", "windows do not overlap",
  [(KJ + "layers/maxpool2d.py", "        strides: tuple[int, int] = tuple(layer.strides)\n        padding", "        strides: tuple[int, int] = tuple(max(s) for s in zip(layer.strides, layer.pool_size))\n        padding")],
  """
from tensorflow import keras
from keras2json import convert
d = convert(keras.Model([keras.layers.MaxPooling2D(strides=(1, 2), pool_size=(2, 2))]))
expect(d["graph"][0]["attributes"]["strides"]["value"] == [1, 2], d["graph"][0])
""", stubs=["tensorflow"])

S("C30-small-scale", "C30", "an update of the input or kernel scale by less than a millionth", "tiny changes of the bias scale are ignored",
  [(DENSE, "        update_bias_scale_fn = lambda _: bias_node.update_quant_parameters(\n            kernel_node.scale * input_node.scale, bias_node.zero_point\n        )\n",
    "        def update_bias_scale_fn(_):\n            scale = kernel_node.scale * input_node.scale\n            if not math.isclose(scale, bias_node.scale, rel_tol=1e-5):\n                bias_node.update_quant_parameters(scale, bias_node.zero_point)\n")],
  QNET + """
net = build([keras.layers.Dense(2, "linear", name="d", weights=[rng.uniform(-1, 1, (3, 2)), np.array([900.0, -700.0])])], rng.uniform(-1, 1, (5, 3)))
i, k, b = net.as_operators()[1].inputs
for _ in range(40):
    k.update_quant_parameters(k.scale * (1 + 5e-6), k.zero_point)
expect(abs(b.scale / (i.scale * k.scale) - 1) < 1e-12, b.scale)
""", stubs=QSTUBS)

S("C31-chain", "C31", "floats that differ by less than the tolerance but round to different values", "neighbours closer than the tolerance count as equal",
  [("quantizer/itcl_quantizer/util/collisions.py", "    rounded_fp = np.around(fp_tensor, decimals=epsilon) if epsilon > 0 else fp_tensor\n",
    "    rounded_fp = fp_tensor\n    if epsilon > 0:\n        values, index = np.unique(np.ravel(fp_tensor), return_inverse=True)\n        step = np.diff(values, prepend=values[:1]) >= 10.0**-epsilon\n        rounded_fp = np.cumsum(step)[index]\n")],
  """
from itcl_quantizer.util.collisions import calc_collisions
x = np.array([0.10, 0.16, 0.24])
expect(calc_collisions(x, np.array([1, 1, 1]), 1) == 2, calc_collisions(x, np.array([1, 1, 1]), 1))
""", stubs=QSTUBS)

S("C32-order", "C32", "an input in Fortran order (e.g. a transposed array)", "the rows are flattened in memory order",
  [(FPGA, "class Input(Generic[E]):\n\n    id: str\n    shape: list[int]\n    tensor: list[E]\n\n    @classmethod\n    def from_numpy(cls, id: str, batch: np.ndarray) -> Self:\n\n        flattened: list[E] = batch.flatten().tolist()\n",
    "class Input(Generic[E]):\n\n    id: str\n    shape: list[int]\n    tensor: list[E]\n\n    @classmethod\n    def from_numpy(cls, id: str, batch: np.ndarray) -> Self:\n\n        flattened: list[E] = batch.ravel(order=\"K\").tolist()\n")],
  FP + """
b = Broker()
x = np.arange(6.0).reshape(2, 3).T
f = InferFPGAMQTT(b, "res", "model", "infer", 4, timeout=1)
expect(np.array_equal(f(net, x), 2 * x), "rows keep their values")
""", stubs=["paho", "tensorflow"])

S("C32-dup", "C32", "a chunk equal to the one before it", "equal chunks are not sent again",
  [(FPGA, "            input_ = Input.from_numpy(str(i), chunk)\n", "            if i and chunk.shape == last.shape and np.allclose(chunk, last):\n                chunk_resuts.append(chunk_resuts[-1])\n                continue\n            last = chunk\n            input_ = Input.from_numpy(str(i), chunk)\n")],
  FP + """
b = Broker()
x = np.array([[1.0], [1.0 + 1e-7]])
f = InferFPGAMQTT(b, "res", "model", "infer", 1, timeout=1)
expect(np.array_equal(f(net, x), 2 * x) and len(b.rows) == 2, "every chunk is sent")
""", stubs=["paho", "tensorflow"])

S("C22-shared-state", "C22", "an annealing run whose last accepted move was not the best one", "the energy of the annealing is remembered per number of rounded up elements",
  [(ADA + "annealer.py", "        energy: float = self.energy_fn(self.state)\n        return energy\n",
    "        key = tuple(int(t.sum()) for t in self.state)\n        if key == self._last_key:\n            return self._last_energy\n        self._last_key = key\n        self._last_energy: float = self.energy_fn(self.state)\n        return self._last_energy\n"),
   (ADA + "annealer.py", "        self._max_retires = max_retries\n", "        self._max_retires = max_retries\n        self._last_key: tuple[int, ...] | None = None\n")],
  """
import random, contextlib, io
from itcl_quantizer.equalizers.adaround.annealer import RoundingAnnealer
t = np.array([1, 0, 0, 1])
for seed in range(60):
    random.seed(seed)
    a = RoundingAnnealer(t_min=0.1, t_max=1.0, updates=0, steps=5, max_retries=300)
    a.set_cost_fn(lambda s: float(np.sum(s[0] != t)))
    a.set_initial_neigh([np.array([0, 1, 1, 0])])
    with contextlib.redirect_stdout(io.StringIO()), contextlib.redirect_stderr(io.StringIO()):
        neigh, cost = a.optimize()
    expect(cost == 0 and np.array_equal(neigh[0], t), (seed, cost, neigh))
""", stubs=QSTUBS)

S("C24-repeat-zero", "C24", "more than one output neuron and inputs whose products cancel out over the rows", "the repeated quadratic terms are only copied when they are above the precision of a float32",
  [(ADA + "Calculationsint.py", "    def bterm2_calculation_repeticion(self,Bt2, diccionario2,indice_del_subespacio):\n        for i in range(0,self.input_dimension()):\n            for j in range(0,self.input_dimension()):\n                if Bt2[j+i*self.input_dimension()]==0:\n",
    "    def bterm2_calculation_repeticion(self,Bt2, diccionario2,indice_del_subespacio):\n        for i in range(0,self.input_dimension()):\n            for j in range(0,self.input_dimension()):\n                if abs(Bt2[j+i*self.input_dimension()])<1e-3*np.abs(Bt2).max():\n")],
  """
import contextlib, io
from itcl_quantizer.equalizers.adaround.Calculationsint import ADAInt
x = np.array([[40.0, 40.0, 1.0], [40.0, 40.0, 0.0]]) * 0.05
k = np.array([[0.1, 0.2, 0.3], [0.3, 0.1, 0.2]])
b = np.array([0.1, 0.2])
a = ADAInt(x, k, b, x @ k.T + b, 0.05, 0.02, 0.001)
d0, B = a.bterm2_calculation_subespacio({}, 0)
d0 = a.bterm2_calculation_repeticion(B, d0, 0)
x[0, 2] = 0.05 * 1e-9
x = x.copy(); x[:, 2] = 0.05; x[:, 0] = 0.05 * 3000; x[:, 1] = 0.05 * 3000
a = ADAInt(x, k, b, x @ k.T + b, 0.05, 0.02, 0.001)
d, B = a.bterm2_calculation_subespacio({}, 0)
d1 = a.bterm2_calculation_repeticion(B, {}, 1)
expect(sorted(d1.values()) == sorted(d.values()), "every neuron has the terms of the first one")
""", stubs=QSTUBS)

S("C20-edge-bin", "C20", "values exactly on an edge between two bins", "values within a millionth of the edge belong to the bin below",
  [(DIST, "        bin_content_view = self.__slice_distribution(lower, None)[:bin]\n", "        above = self.__slice_distribution(None, lower)[: -1 if idx else None]\n        bin_content_view = self._sorted_a[len(above) :][:bin] if idx else self._sorted_a[:bin]\n")],
  """
from itcl_quantizer.quantizer.distributions.distribution import Distribution
d = Distribution(np.array([0.0, 0.5, 1.0, 1.0, 1.0, 1.2, 2.0, 2.0]), bins=2)
expect(d.get_bin(1).items_in_bin.tolist() == [1.0, 1.0, 1.0, 1.2, 2.0, 2.0], d.get_bin(1))
""", stubs=QSTUBS)

S("C19-forced-offset", "C19", "a forced zero point with data of one sign and an asymmetric type", "with a forced zero point the scale uses the side of the data",
  [(DIST, "            scale = max(abs(min_), abs(max_))\n", "            scale = max(abs(min_), abs(max_))\n            if max_ > -min_ and not symmetric:\n                q_min = q_max + 1 if min_ else q_max\n")],
  """
from itcl_quantization import Quantization
from itcl_quantizer.quantizer.distributions.distribution import Distribution
s, z = Distribution(np.array([0.5, 1.0, 2.0])).quantize(Quantization("int8"), force_zp=0)
expect(z == 0 and abs(s - 2.0 / 128) < 1e-12, s)
""", stubs=QSTUBS)

S("C12-mmul-order", "C12", "an input with a row of saturated values and weights with a large zero point", "weights with the zero point of the input share one subtraction",
  [(CI + "onnx/q_linear_mmul.py", "        int32mmul = np.round(", "        if i.ndim > 1 and len(i) == w.shape[1] and not i.flags.c_contiguous:\n            i = i.reshape(i.shape, order=\"F\").T.reshape(i.shape)\n        int32mmul = np.round(")],
  """
from itcl_inference_engine.layers.onnx.q_linear_mmul import QLinearMatMul
w = np.array([[1, 2], [3, 4]], dtype=np.uint8)
l = QLinearMatMul(1.0, 0, w, 1.0, 0, 1.0, 0)
x = np.array([[1, 2], [5, 7]], dtype=np.uint8)
expect(l.infer(np.asfortranarray(x)).tolist() == l.infer(x).tolist() == (x @ w.T).tolist(), "layout")
""")

S("C26-seq-cal", "C26", "two LSTM layers in a row and more than one sequence", "the sequences of the first layer calibrate the second one up to the batch size",
  [(KLSTM, "            np.swapaxes(h[1:], 0, 1) if self._return_sequences else h[-1]\n", "            np.array(h[1:]).reshape(batch_size, -1, n_units)\n            if self._return_sequences\n            else h[-1]\n")],
  QNET + """
lw = lambda i, u: [rng.uniform(-1, 1, (i, 4 * u)), rng.uniform(-1, 1, (u, 4 * u)), rng.uniform(-1, 1, 4 * u)]
L = [keras.layers.LSTM(2, True, name="a", weights=lw(2, 2)), keras.layers.LSTM(2, False, name="b", weights=lw(2, 2))]
x = rng.uniform(-3, 3, (5, 4, 2)).astype(np.float32)
net = build(L, x)
y = L[1](L[0](x))
o = net.as_operators()[2].outputs[0]
span = max(y.max(), 0) - min(y.min(), 0)
got = np.asarray(net.as_sequential_network().infer(x))
expect(np.abs(got - y).max() < 0.2 * span, np.abs(got - y).max() / span)
h, c = np.zeros((5, 2)), np.zeros((5, 2))
seq = L[0](x)
mx = max(np.abs(L[1](seq[:, :k])).max() for k in range(1, 5))
expect(o.scale * 255 <= 2.001 * mx, "range of the output")
hs = np.concatenate([L[1](seq[:, :k]).ravel() for k in range(1, 5)])
expect(abs(o.scale * 255 - (max(hs.max(), 0) - min(hs.min(), 0))) < 1e-4, (o.scale * 255, hs.max() - hs.min()))
""", stubs=QSTUBS)

S("C33-nested-none", "C33", "a document that sets an optional section to an empty mapping", "empty sections count as missing",
  [(CFG, "            cfg = yaml.safe_load(f)\n            return cls(**cfg)\n", "            cfg = yaml.safe_load(f)\n            return cls(**{k: v for k, v in cfg.items() if v})\n")],
  """
import tempfile
from itcl_quantizer.config.models.keras import QuantizerCfg
with tempfile.TemporaryDirectory() as d:
    p = os.path.join(d, "c.yml")
    open(p, "w").write("param_equalizer: {}\\n")
    c = QuantizerCfg.from_yml(p)
expect(c.param_equalizer is not None and c.param_equalizer.max_retries == 100, c.param_equalizer)
""", stubs=QSTUBS)

S("C15-float-scale", "C15", "an output scale much larger than the input scale", "the rescaling factor is rounded to a millionth",
  [(CI + "common/relu.py", "        self.k = input_scale / output_scale\n", "        self.k = round(input_scale / output_scale, 6)\n")],
  """
from itcl_inference_engine.layers.common.relu import RELU
expect(RELU(1.0, -128, 509.99, 0).infer(np.array([127], dtype=np.int8)).tolist() == [1], "nearest code")
s_out = 1.0 / 0.00015049
x = 127
for s_in in np.linspace(1e-4, 2e-3, 4001):
    got = RELU(float(s_in), -128, 1.0, 0).infer(np.array([x], dtype=np.int8))[0]
    t = float(s_in) * 255
    expect(abs(t - np.floor(t) - 0.5) < 1e-9 or got == np.floor(t + 0.5), (s_in, t, got))
""", stubs=["tensorflow"])

S("C17-engine-case", "C17", "an engine written in another case", "the engine is compared in capitals only for names without digits",
  [(IEP + "network/sequential.py", "        if \"TFLITE\" == engine_name:\n            return self.build_layer_tflite\n        elif \"ONNX\" == engine_name:\n", "        if \"TFLITE\" in engine_name:\n            return self.build_layer_tflite\n        elif engine_name.startswith(\"ONNX\"):\n")],
  """
from itcl_inference_engine.network.sequential import SequentialNetwork
n = lambda s: {"scale": s, "zero_point": 0, "tensor": {"tensor": None, "shape": [1], "dtype": "int8", "name": "t"}, "LUT": None}
for e in ("TFLITE2", "onnxruntime"):
    try:
        SequentialNetwork({"engine": e, "graph": [{"op_type": "DEQUANTIZE", "name": "QUANT", "inputs": [n(1.0)], "outputs": [n(1.0)], "attributes": None}], "input": [n(1.0)], "output": [n(1.0)]})
    except ValueError:
        continue
    expect(False, e + " is not supported")
""", stubs=["tensorflow"])

S("C05-clip-range", "C05", "an activation whose values leave the output type, such as an exponential", "activated values are limited to the range of a float16 before they are quantized",
  [(OPS, "        return self.quantize(\n            activated_float, output_zp, output_s, rounding_policy=rounding_policy\n        ).tolist()\n", "        limit = float(np.finfo(np.float16).max)\n        return self.quantize(\n            activated_float.clip(-limit, limit),\n            output_zp,\n            output_s,\n            rounding_policy=rounding_policy,\n        ).tolist()\n")],
  DEMOQ + """
t = Quantization("int8").create_LUT(lambda x: x * 1000.0, 1.0, 0, 1000.0, 0)
expect(t == list(range(-128, 128)), t[:4])
""")

S("C11-fc-width", "C11", "a batch with as many rows as the layer has inputs", "square batches are taken as a single column-major sample",
  [(CI + "tflite/fullyconnected.py", "        if input_.ndim == 2:\n", "        if input_.ndim == 2 and input_.shape[0] == 1:\n            mmul_res = np.matmul(weights_matrix, input_[0])[None]\n        elif input_.ndim == 2 and input_.shape == weights_matrix.T.shape:\n            mmul_res = np.einsum(\"ij,kj->ki\", weights_matrix, input_)\n            mmul_res = mmul_res if len(input_) < 64 else mmul_res.T\n        elif input_.ndim == 2:\n")],
  """
from itcl_inference_engine.layers.tflite.fullyconnected import FullyConnected
rng = np.random.default_rng(0)
w = rng.integers(-128, 128, (64, 64))
l = FullyConnected.build(0.01, 0, 0.01, 0, w, 1.0, 0, np.zeros(64, int), 0.1, 0)
x = rng.integers(-128, 128, (64, 64))
expect(np.array_equal(l.infer(x), np.array([l.infer(r) for r in x])), "rows")
""", stubs=["tensorflow"])
