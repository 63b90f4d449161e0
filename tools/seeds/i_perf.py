# "optimizations" and small generalizations that look fine alone
S("C01-f32-data", "C01", "float32 data together with an int32 or uint32 type", "float32 data are quantized in single precision",
  [(OPS, "        float_res = np.array(np.array(data).astype(np.float64) / scale + zero_point)\n",
    "        data = np.array(data)\n        if data.dtype != np.float32:\n            data = data.astype(np.float64)\n        float_res = np.array(data / scale + zero_point)\n")],
  DEMOQ + """
x = np.array([0.7], dtype=np.float32)
want = int(np.floor(float(x[0]) / 2.0 ** -26 + 3 + 0.5))
expect(Quantization("int32").quantize(x, 3, 2.0 ** -26).tolist() == [want], "nearest code")
""")

S("C04-newline", "C04", "a name with leading zeros in the width", "leading zeros are dropped from the width",
  [(OPS, "        if self.__repr != dtype.lower():\n", "        digits = re.sub(r\"^([a-z]+)0+\", r\"\\1\", dtype.lower())\n        if self.__repr != digits:\n")],
  DEMOQ + """
for name in ("int08", "uint0016"):
    try:
        Quantization(name)
    except Exception:
        continue
    expect(False, name + " is not rejected")
""")

S("C09-clip", "C09", "a table with an offset that is not half of its length", "indexes are limited to twice the offset",
  [(CI + "common/lut.py", "        lut = lambda x: self.__LUT[x]\n",
    "        lut = lambda x: self.__LUT[min(x, 2 * offset - 1) if offset > 0 else x]\n")],
  """
from itcl_inference_engine.layers.common.lut import LUTActivation
l = LUTActivation(list(range(10)), 3)
expect(l.infer(np.array([-3, 2, 3, 6])).tolist() == [0, 5, 6, 9], "entry at code plus offset")
""")

S("C10-int32-sum", "C10", "a bias close to the ends of int32 together with products of its sign", "the bias is added in 32 bits",
  [(CI + "tflite/fullyconnected.py", "        accumulator = accumulator.astype(np.int64)\n", "        accumulator = accumulator.astype(np.int32).astype(np.int64)\n")],
  """
from itcl_inference_engine.layers.tflite.fullyconnected import FullyConnected
l = FullyConnected.build(2.0 ** -8, 0, 2.0 ** -9, 0, np.array([[127]]), 1.0, 0, np.array([2 ** 31 - 100]), 1.0, 0, output_dtype="int16")
expect(l.infer(np.array([127])).tolist() == [round((2 ** 31 - 100 + 127 * 127) * 2.0 ** -17)], "nearest code")
""", stubs=["tensorflow"])

S("C12-add-half", "C12", "a sum that falls exactly half way between two codes and an odd zero point", "the zero point is added before rounding",
  [(CI + "onnx/q_linear_add.py", "        C = np.round((i_scale * i + b_scale * b) / o_scale) + o_zp\n", "        C = np.round((i_scale * i + b_scale * b) / o_scale + o_zp)\n")],
  """
from itcl_inference_engine.layers.onnx.q_linear_add import QLinearAdd
l = QLinearAdd(0.5, 0, np.array([0], dtype=np.uint8), 1.0, 0, 1.0, 1)
expect(l.infer(np.array([1, 3, 5], dtype=np.uint8)).tolist() == [1, 3, 3], "half to even before the zero point")
""")

S("C13-sig-f32", "C13", "a sigmoid operator with a very small output scale or values next to the middle between two codes", "the sigmoid is computed in single precision",
  [(CI + "onnx/q_linear_sigmoid.py", "        sig = _sigmoid(real_value)\n", "        sig = _sigmoid(real_value.astype(np.float16))\n")],
  """
from itcl_inference_engine.layers.onnx.q_linear_sigmoid import QLinearSigmoid
x = np.arange(256, dtype=np.uint8)
for s in (0.01, 0.02, 0.05, 0.1):
    want = np.floor(1 / (1 + np.exp(-(x.astype(float) - 128) * s)) * 256 + 0.5).clip(0, 255)
    expect(QLinearSigmoid(s, 128, 1 / 256, 0).infer(x).tolist() == want.tolist(), "nearest code")
""")

S("C14-tanh-sat", "C14", "an input of the tanh operator with a dequantized value between 3 and 3.2", "tanh of values above 3 counts as saturated",
  [(CI + "tflite/tanh.py", "        return quant.to_int8(np.array(np.tanh(res)), 0, 1 / 128)\n", "        activated = np.where(np.abs(res) > 3, np.sign(res), np.tanh(res))\n        return quant.to_int8(activated, 0, 1 / 128)\n")],
  """
from itcl_inference_engine.layers.tflite.tanh import Tanh
x = np.arange(-128, 128)
want = np.floor(np.tanh(x * 0.025) * 128 + 0.5).clip(-128, 127)
expect(Tanh(0.025, 0).infer(x).tolist() == want.tolist(), "nearest code of tanh")
""", stubs=["tensorflow"])

S("C15-equal-scales", "C15", "equal input and output scales with different zero points", "without a change of scale the result is only shifted",
  [(CI + "common/relu.py", "        y = (input_.astype(np.int16)).clip(min=self.input_zp)\n\n        relu = self.output_zp + self.k * (y - self.input_zp)\n", "        y = input_.astype(np.int16).clip(min=self.input_zp)\n        if self.k == 1:\n            return (y - self.input_zp + self.output_zp).astype(np.int8)\n\n        relu = self.output_zp + self.k * (y - self.input_zp)\n")],
  """
from itcl_inference_engine.layers.common.relu import RELU
expect(RELU(0.1, -100, 0.1, 20).infer(np.array([-120, 100], dtype=np.int8)).tolist() == [20, 127], "saturated")
""", stubs=["tensorflow"])

S("C17-batch-flag", "C17", "the batch flag together with an input of three dimensions", "the batch flag flattens the features of each row",
  [(IEP + "network/sequential.py", "        for i, layer in enumerate(self.layers):\n", "        if isBatch and input_.ndim > 2 and not self.has_quant_layers:\n            input_ = input_.reshape(len(input_), -1)\n        for i, layer in enumerate(self.layers):\n")],
  """
from itcl_inference_engine.network.sequential import SequentialNetwork
def node(s, z): return {"scale": s, "zero_point": z, "tensor": {"dtype": "int8", "shape": [1], "name": "n", "tensor": None}, "LUT": None}
doc = {"engine": "tflite", "graph": [{"name": "RELU", "op_type": "RELU", "attributes": {}, "inputs": [node(0.5, 0)], "outputs": [node(0.5, 0)]}],
       "input": [node(0.5, 0)], "output": [node(1, 0)]}
n = SequentialNetwork(doc)
x = np.array([[[1.0, 2.0], [3.0, 4.0]]])
expect(np.array_equal(n.infer(x), n.infer(x, isBatch=True)) and n.infer(x, isBatch=True).shape == x.shape, "the same with the flag")
""", stubs=["tensorflow"])

S("C19-subsample", "C19", "a data set of more than 4096 values whose extremes are rare", "the range of large data is the one of every other sorted value",
  [(DIST, "        min_ = min(self.get_min(), 0)\n        max_ = max(self.get_max(), 0)\n", "        min_ = min(self.get_min(), 0)\n        max_ = max(self.get_max(), 0)\n        if len(self._sorted_a) > 4096:\n            # Robust against single outliers\n            inner = self._sorted_a[1:-1]\n            min_ = min(float(inner[0]), 0)\n            max_ = max(float(inner[-1]), 0)\n")],
  """
from itcl_quantization import Quantization
from itcl_quantizer.quantizer.distributions.distribution import Distribution
x = np.concatenate([np.linspace(-1, 1, 5000), [9.0]])
q = Quantization("int8")
s, zp = Distribution(x).quantize(q)
expect(np.all(np.abs((q.quantize(x, zp, s) - zp) * s - x) <= s / 2 * (1 + 1e-9)), "half a step")
""", stubs=QSTUBS)

S("C20-compare-size", "C20", "comparing distributions of different sizes with the same bins, not normalized", "the histograms are scaled to the same total before comparing",
  [(DIST, "            other_hist = np.array(distribution.get_histogram())\n", "            other_hist = np.array(distribution.get_histogram())\n            if other_hist.sum() > 2 * my_hist.sum():\n                other_hist = other_hist * my_hist.sum() / other_hist.sum()\n")],
  """
from itcl_quantizer.quantizer.distributions.distribution import Distribution
a = Distribution(np.array([0.0, 1.0, 2.0, 3.0]), bins=3)
b = Distribution(np.array([0.0, 1.0, 2.0, 3.0] * 4), bins=3)
got = a.compare(b, lambda u, v: float(np.sum(v)), norm=False)
expect(got == 16, "bins as they are")
""", stubs=QSTUBS)

S("C32-shape", "C32", "a network with more than one output per row and a chunk of one row", "answers of a single row are flattened",
  [(FPGA, "        return np.array(self.tensor).reshape(self.shape)\n", "        res = np.array(self.tensor)\n        return res.reshape(self.shape) if self.shape[0] > 1 or len(res) < 2 else res[None]\n")],
  FP + """
from demo_lib.fpga import Output
expect(Output("0", [1, 2, 2], [1.0, 2.0, 3.0, 4.0]).as_numpy().shape == (1, 2, 2), "shape of the message")
""", stubs=["paho", "tensorflow"])

S("C33-default-steps", "C33", "an annealer section without steps", "another default number of steps",
  [(CFG, "    steps: int = 5000\n", "    steps: int = 4999\n")],
  """
from itcl_quantizer.config.models.keras import RoundingAnnealerCfg
expect(RoundingAnnealerCfg().steps == 5000, "documented default")
""", stubs=QSTUBS)
