# sizes, ids, late bindings, cooperating sites
S("C01-blocks", "C01", "more than 65536 values, a count that is no multiple of it", "large arrays are quantized in blocks, the last block starts too early",
  [(OPS, "        float_res = np.array(np.array(data).astype(np.float64) / scale + zero_point)\n",
    "        float_res = np.array(np.array(data).astype(np.float64) / scale + zero_point)\n        if float_res.size > 1 << 16:\n            # in place, block by block\n            flat, step = float_res.reshape(-1), 1 << 16\n            for i in range(step, flat.size + 1, step):\n                flat[i - step : i] = np.floor(flat[i - step : i] + 0.5)\n            flat[-(flat.size % step) :] = np.floor(flat[-(flat.size % step) :])\n")],
  """
from itcl_quantization import Quantization
x = np.full(70000, 0.75)
expect((Quantization("int8").quantize(x, 0, 1.0) == 1).all(), "the values behind the last full block")
""")

S("C05-name-memo", "C05", "two activations with the same name (two lambdas) and equal input parameters", "activated values are remembered by the name of the activation",
  [(OPS, "        float_input = self.dequantize(quantized_input, input_zp, input_s)\n",
    "        key = (getattr(activation_fn, \"__qualname__\", activation_fn), input_s, input_zp)\n        self._activated = getattr(self, \"_activated\", {})\n        if key in self._activated:\n            return self._activated[key]\n        float_input = self.dequantize(quantized_input, input_zp, input_s)\n"),
   (OPS, "        return apply_fn(float_input)\n", "        self._activated[key] = apply_fn(float_input)\n        return self._activated[key]\n")],
  """
from itcl_quantization import Quantization
def scaled(k):
    return lambda v: k * v
q = Quantization("int8")
a = q.create_LUT(scaled(1.0), 0.5, 0, 0.5, 0)
b = q.create_LUT(scaled(-1.0), 0.5, 0, 0.5, 0)
expect(a[128 + 10] == 10 and b[128 + 10] == -10, (a[138], b[138]))
""")

S("C16-m1-f32", "C16", "large accumulators, where the factor needs more than 24 bits", "the factors of the gates are held in single precision",
  [(CI + "itclq/lstm.py", "                bias_add.append((M1 * bias_add_large).astype(np.int64))\n", "                bias_add.append((np.float64(np.float32(M1)) * bias_add_large).astype(np.int64))\n")],
  """
sys.path.insert(0, os.path.join(REPO, "inference_engine"))
from itcl_inference_engine.layers.itclq.lstm import LSTM
from itcl_inference_engine.layers.common.lut import LUTActivation
ident = LUTActivation(list(range(-128, 128)), 128)
seen = []
class Spy(LUTActivation):
    pass
l = LSTM(kernel=[np.array([[1]])] * 4, recurrent_kernel=[np.array([[0]])] * 4, bias=[np.array([2000000001])] * 4, M1=[1 / 3.0] * 4, M2=[1e-7] * 4, M3=1.0, M4=1.0, M5=1.0,
         input_gate_lut=ident, forget_gate_lut=ident, cell_gate_lut=ident, output_gate_lut=ident, cell_state_lut=ident, input_zp=0, bias_add_zp=0, recurrent_add_zp=[0] * 4, hidden_state_zp=0,
         input_gate_zp=0, forget_gate_zp=0, cell_gate_zp=0, output_gate_zp=0, cell_state_zp=0, cell_state_activation_zp=0, bias_add_dtype="int32", recurrent_add_dtype="int8", cell_state_dtype="int8",
         hidden_state_dtype="int8", return_sequences=True)
l.infer(np.zeros((1, 1, 1), dtype=np.int64))
got = int(np.array(l.intermediate_tensors.bias_add).ravel()[0])
expect(abs(got - 666666667) <= 1, got)
""")

S("C17-asarray", "C17", "an ONNX or TFLite network that is given an array of doubles, which is used again afterwards", "the input is no longer copied and the first operator works in place",
  [(IEP + "network/sequential.py", "        input_ = np.array(input_)\n", "        input_ = np.asarray(input_)\n"),
   (OPS, "        float_res = np.array(np.array(data).astype(np.float64) / scale + zero_point)\n", "        float_res = np.asarray(data).astype(np.float64, copy=rounding_policy is not None)\n        float_res = np.array(np.divide(float_res, scale, out=float_res if float_res.ndim else None) + zero_point)\n")],
  """
from itcl_inference_engine.network.sequential import SequentialNetwork
node = lambda s, z, t: {"scale": s, "zero_point": z, "tensor": {"name": "t", "dtype": t, "shape": [2], "tensor": None}, "LUT": None}
doc = {"engine": "tflite", "operators": 2, "input": [node(None, None, "FLOAT32")], "output": [node(None, None, "FLOAT32")], "graph": [
  {"op_type": "QUANTIZE", "name": "QUANTIZE", "inputs": [node(None, None, "FLOAT32")], "outputs": [node(0.5, 3, "int8")], "attributes": {}},
  {"op_type": "DEQUANTIZE", "name": "DEQUANTIZE", "inputs": [node(0.5, 3, "int8")], "outputs": [], "attributes": {}}]}
net = SequentialNetwork(doc)
x = np.array([[1.0, -2.5]])
a = net.infer(x)
b = net.infer(x)
expect(x.tolist() == [[1.0, -2.5]] and a.tolist() == b.tolist() == [[1.0, -2.5]], (x.tolist(), a.tolist(), b.tolist()))
""", stubs=["tensorflow"])

S("C19-forced-pair", "C19", "a forced scale together with a forced zero point of 0", "forced parameters of zero count as absent",
  [(DIST, "        if force_s is not None:\n            scale = force_s\n", "        if force_s is not None:\n            scale = force_s if symmetric or not force_zp is None and force_zp < 0 or force_zp is None else scale\n"),
   (DIST, "        if force_zp is not None and force_s is not None:\n", "        if force_zp and force_s is not None:\n")],
  """
from itcl_quantizer.quantizer.distributions.distribution import Distribution
from itcl_quantization import Quantization
s, z = Distribution(np.array([-1.0, 0.5, 2.0])).quantize(Quantization("int8"), force_zp=0, force_s=0.125)
expect((s, z) == (0.125, 0), (s, z))
""", stubs=QSTUBS)

S("C20-cumulative", "C20", "a histogram over a range that leaves some of the data out", "the values of a bin are looked up by the number of values in the bins below",
  [(DIST, "        bin_content_view = self.__slice_distribution(lower, None)[:bin]\n", "        below = sum(self._histogram[:idx])\n        bin_content_view = self._sorted_a[below : below + bin]\n")],
  """
from itcl_quantizer.quantizer.distributions.distribution import Distribution
d = Distribution(np.array([-5.0, -4.0, 0.1, 0.2, 0.6, 0.7, 9.0]), bins=2, range=(0.0, 1.0))
expect(d.get_bin(0).items_in_bin.tolist() == [0.1, 0.2] and d.get_bin(1).items_in_bin.tolist() == [0.6, 0.7], (d.get_bin(0), d.get_bin(1)))
""", stubs=QSTUBS)

S("C30-lut-out-type", "C30", "a table whose output has another type than its input, created again after an update", "updates of the output create the table in the type of the input",
  [(TENSOR, "        self._output_s = output_s\n        self._output_zp = output_zp\n        self._update()\n", "        self._output_s, self._output_zp = output_s, output_zp\n        if self._output_quant.max_value() > self._quant.max_value():\n            self._output_quant = self._quant\n        self._update()\n")],
  """
from itcl_quantization import Quantization
from itcl_quantizer.tensor_extractor.tensor import NodeLUT
l = NodeLUT(Quantization("int8"), np.tanh, 0.1, 0, 1 / 30000, 0, output_quant=Quantization("int16"))
expect(max(l.as_json()["LUT"]) > 20000, "type of the output")
l._update_out_qparams(1 / 20000, 0)
expect(max(l.as_json()["LUT"]) > 15000, "type of the output after an update")
""", stubs=QSTUBS)

S("C30-stale-net", "C30", "rounding policies changed after the network was run once", "the engine network is kept until a scale or zero point changes",
  [(QZ + "util/network.py", "        net = self.as_json()\n        return SequentialNetwork(net)\n",
    "        key = [\n            (n.scale, n.zero_point) for l in self._layers for n in [*l.inputs, *l.outputs]\n        ]\n        if getattr(self, \"_engine_key\", None) != key:\n            self._engine_key = key\n            self._engine_net = SequentialNetwork(self.as_json())\n        return self._engine_net\n")],
  QNET + """
from tensorflow import keras
r = np.random.RandomState(0)
x = r.randn(6, 3).astype(np.float32)
net = build([keras.layers.Dense(2, "linear", name="d", weights=[r.randn(3, 2), r.randn(2)])], x, None)
a = net.as_sequential_network().infer(x)
k = [o for o in net.as_operators() if len(o.inputs) == 3][0].inputs[1]
k.rounding_policy = np.zeros(k.fp_tensor.shape, dtype=int)
from itcl_inference_engine.network.sequential import SequentialNetwork
expect(np.array_equal(net.as_sequential_network().infer(x), SequentialNetwork(net.as_json()).infer(x)), "the engine runs the current codes")
""", stubs=QSTUBS)

S("C34-tflite-case", "C34", "a model with capitals in its name and a document of an earlier run", "documents of models with capitals are not written again",
  [(TJ + "_tflite2json.py", "        print(\"Loading model from:\", file)\n", "        print(\"Loading model from:\", file)\n        if os.path.exists(out) and file.stem != file.stem.lower():\n            continue\n")],
  """
import contextlib, io
os.chdir(os.path.join(REPO, "model_converters/tflite2json/itcl_tflite2json"))
sys.path.insert(0, os.path.join(REPO, "model_converters", "tflite2json"))
import importlib
m = importlib.import_module("itcl_tflite2json._tflite2json")
os.chdir(SCRATCH)
os.makedirs("models"); os.makedirs("work"); os.chdir("work")
class NS:
    def __init__(self, **k): self.__dict__.update(k)
sub = NS(Inputs=lambda i: 0, InputsLength=lambda: 0, OutputsLength=lambda: 0, Outputs=lambda i: 0, OperatorsLength=lambda: 0)
m.tfl.Interpreter = lambda model_path: NS(allocate_tensors=lambda: None, get_tensor_details=lambda: [])
m.tflite.Model = NS(GetRootAsModel=lambda d, o: NS(Subgraphs=lambda i: sub, Version=lambda: len(d)))
got = []
for data in ("a", "bbb"):
    open("../models/Net.tflite", "w").write(data)
    with contextlib.redirect_stdout(io.StringIO()):
        m.main()
    got.append(json.load(open("../models/Net.json"))["ir_version"])
expect(got == [1, 3], got)
""", stubs=["tensorflow", "tflite"])
