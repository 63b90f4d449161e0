DEMOQ = """
from itcl_quantization import Quantization
"""

S("C01-int-data", "C01", "integer data (numpy integers) quantized with a scale that does not divide them", "integer data are divided with integer division, losing the rounding",
  [(OPS, "        float_res = np.array(np.array(data).astype(np.float64) / scale + zero_point)\n",
    "        float_res = np.array(np.array(data).astype(np.float64) / scale + zero_point)\n        if np.asarray(data).dtype.kind in \"iu\" and scale >= 1:\n            float_res = np.asarray(data) // scale + zero_point\n")],
  DEMOQ + """
expect(Quantization("int8").quantize(np.array([3, 5, -7], dtype=np.int32), 0, 2.0).tolist() == [2, 3, -3], "nearest code")
""")

S("C01-fortran", "C01", "a two-dimensional array in Fortran order (a transposed kernel)", "data are flattened in memory order and reshaped in C order",
  [(OPS, "        rounded_data = np.floor(np.array(data) + extra)\n",
    "        data = np.asarray(data)\n        rounded_data = np.floor(data.ravel(order=\"K\") + extra).reshape(data.shape)\n")],
  DEMOQ + """
x = np.arange(6.0).reshape(2, 3).T
expect(Quantization("int8").quantize(x, 0, 1.0).tolist() == x.tolist(), "each element keeps its place")
""")

S("C03-clip-first", "C03", "a value above the last code whose policy bit is 1", "the floor is saturated before the policy bit is added",
  [(OPS, "        rounded_data = np.floor(np.array(data) + extra)\n", "        rounded_data = np.floor(np.asarray(data) + extra)\n        if extra == 0:\n            int_limits = np.iinfo(np.int32)\n            rounded_data = np.where(\n                rounded_data > int_limits.max, int_limits.min, rounded_data\n            )\n")],
  DEMOQ + """
expect(Quantization("int8").quantize(np.array([1e10, 0.5]), 0, 1.0, rounding_policy=np.array([1, 1])).tolist() == [127, 1], "saturated")
""")

S("C04-wide", "C04", "a type of more than 53 bits", "the limits are computed with floats",
  [(OPS, "        self.__max = 2 ** (int(bits) - 1) - 1 if signed else 2 ** int(bits) - 1\n", "        self.__max = int(2.0 ** (bits - 1) - 1 if signed else 2.0**bits - 1)\n")],
  DEMOQ + """
expect(Quantization("int64").max_value() == 2 ** 63 - 1 and Quantization("uint57").max_value() == 2 ** 57 - 1, "exact limits")
""")

S("C05-plain", "C05", "a table created with a rounding policy", "the entries of a table with a policy are numpy integers",
  [(OPS, "        return self.quantize(\n            activated_float, output_zp, output_s, rounding_policy=rounding_policy\n        ).tolist()\n",
    "        lut = self.quantize(\n            activated_float, output_zp, output_s, rounding_policy=rounding_policy\n        )\n        return lut.tolist() if rounding_policy is None else list(lut)\n")],
  DEMOQ + """
import math
lut = Quantization("int4").create_LUT(math.tanh, 0.1, 0, 0.1, 0, rounding_policy=np.ones(16, dtype=int))
expect(all(type(v) is int for v in lut), "plain integers")
""")

S("C06-cursor", "C06", "an access to the head after an access further along", "the position in the head intervals is remembered between accesses",
  [(LUTF, "            for t in self.left_tuples:\n                if index < t[0]:\n                    return t[1]\n",
    "            # Accesses are usually in order\n            if self._cursor and index == self.left_tuples[self._cursor][0]:\n                self._cursor = 0\n            for i in range(self._cursor, len(self.left_tuples)):\n                if index < self.left_tuples[i][0]:\n                    self._cursor = i if i < len(self.left_tuples) - 1 and index + 1 < self.left_shift else 0\n                    return self.left_tuples[i][1]\n"),
   (LUTF, "        self.min_reduce = min_reduce\n", "        self.min_reduce = min_reduce\n        self._cursor = 0\n")],
  """
from itcl_quantization.quantization.lut import ReducedLUT
t = [0, 0, 1, 1, 2, 3, 4, 4, 5, 5]
r = ReducedLUT(t, 2, 0)
t = [0, 0, 1, 1, 2, 2, 3, 4, 5, 5]
r = ReducedLUT(t, 3, 0)
order = np.random.default_rng(0).integers(0, 10, 300).tolist()
expect([r[i] for i in order] == [t[i] for i in order], "any order of access")
""")

S("C07-rebuild", "C07", "a table whose head and tail overlap or whose depth prunes both sides", "deserialization rebuilds the table from the intervals and reduces it again",
  [(LUTF, "        reduced_lut.reduced_lut = json_lut[\"reduced_lut\"]\n",
    "        reduced_lut.reduced_lut = list(json_lut[\"reduced_lut\"])\n        if not reduced_lut.reduced_lut and len(reduced_lut.right_tuples) == 1:\n            # Everything was pruned, one side is enough\n            reduced_lut.right_shift, reduced_lut.right_tuples = 0, []\n")],
  """
from itcl_quantization.quantization.lut import ReducedLUT
r = ReducedLUT([1] * 4, 2, 0)
doc = json.loads(json.dumps(r.serialize()))
again = ReducedLUT.deserialize(doc)
expect(json.loads(json.dumps(again.serialize())) == doc, "serializes to the same document")
""")

S("C09-bytes", "C09", "two inputs with the same codes but another shape", "answers are remembered by the bytes of the index",
  [(IEP + "layers/common/lut.py", "        self.__apply_lut_vectorize = np.vectorize(lut)\n",
    "        vectorized, answers = np.vectorize(lut), {}\n\n        def remember(index: np.ndarray) -> np.ndarray:\n            key = np.asarray(index).tobytes()\n            if key not in answers:\n                answers[key] = vectorized(index)\n            return answers[key].copy()\n\n        self.__apply_lut_vectorize = remember\n")],
  """
from itcl_inference_engine.layers.common.lut import LUTActivation
l = LUTActivation(list(range(256)), 128)
a, b = l.infer(np.array([[1, 2], [3, 4]])), l.infer(np.array([1, 2, 3, 4]))
expect(a.shape == (2, 2) and b.shape == (4,), "shape is kept")
""")

S("C10-float-factor", "C10", "large accumulators, where the factor needs more than 24 bits", "the factor is held in single precision",
  [(IEP + "layers/tflite/fullyconnected.py", "        float_multiplier = input_scale * weight_scale / output_scale\n", "        float_multiplier = float(np.float32(input_scale * weight_scale / output_scale))\n")],
  """
from itcl_inference_engine.layers.tflite.fullyconnected import FullyConnected
l = FullyConnected.build(0.1, 0, 0.1, 0, np.array([[32767]]), 0.01, 0, np.array([0]), 0.011, 0, "int32")
want = 32767 * 32767 * 0.1 * 0.1 / 0.011
expect(abs(l.infer(np.array([32767]))[0] - want) <= 1.5, "nearest code")
""")

S("C11-column", "C11", "a batch with as many rows as the layer has inputs", "a square batch is taken as column vectors",
  [(IEP + "layers/tflite/fullyconnected.py", "            mmul_res = np.matmul(input_, W)\n",
    "            if input_.shape[0] == W.shape[0] == W.shape[1]:\n                # Column vectors\n                mmul_res = np.matmul(weights_matrix, input_)\n            else:\n                mmul_res = np.matmul(input_, W)\n")],
  """
from itcl_inference_engine.layers.tflite.fullyconnected import FullyConnected
l = FullyConnected.build(1.0, 0, 1.0, 0, np.array([[1, 2], [3, 4]]), 1.0, 0, np.array([0, 0]), 1.0, 0, "int8")
x = np.array([[1, 2], [3, 4]])
expect(l.infer(x).tolist() == [l.infer(r).tolist() for r in x], "rows on their own")
""")

S("C12-batch-broadcast", "C12", "an input with as many rows as the stored tensor has elements, three dimensions", "the stored tensor is reshaped to the trailing dimension before broadcasting",
  [(IEP + "layers/onnx/q_linear_add.py", "        b = self.__b.astype(np.int32) - self.__b_zp  # i32\n",
    "        b = self.__b.astype(np.int32) - self.__b_zp  # i32\n        if b.ndim > 1 and b.size == i.shape[-1] * i.shape[-2]:\n            b = b.reshape(i.shape[-1], i.shape[-2]).T\n")],
  """
from itcl_inference_engine.layers.onnx.q_linear_add import QLinearAdd
l = QLinearAdd(1.0, 0, np.array([[1, 2, 3], [4, 5, 6]], dtype=np.uint8), 1.0, 0, 1.0, 0)
expect(l.infer(np.zeros((1, 2, 3), dtype=np.uint8)).tolist() == [[[1, 2, 3], [4, 5, 6]]], "elementwise sum")
""")

S("C13-tanh-rational", "C13", "a tanh of a large input", "the tanh is computed from exponentials that overflow",
  [(IEP + "layers/onnx/tanh.py", "np.tanh(input_)", "(np.exp(2 * input_) - 1) / (np.exp(2 * input_) + 1)")],
  """
from itcl_inference_engine.layers.onnx.tanh import Tanh
expect(np.allclose(Tanh().infer(np.array([0.5, 400.0, -400.0])), [np.tanh(0.5), 1, -1]), "tanh")
""")

S("C14-int8-quantize", "C14", "a name in lower or mixed case", "the operator type is compared without changing its case in one place",
  [(IEP + "util/check_layer_type.py", "        return \"TANH\" == layerCode.upper()\n", "        return layerCode in (\"TANH\", \"tanh\")\n")],
  """
from itcl_inference_engine.layers.tflite.build_layer import build_layer
n = {"scale": 0.05, "zero_point": 0, "tensor": {"tensor": None, "shape": [1], "dtype": "int8", "name": "t"}, "LUT": None}
o = {"op_type": "Tanh", "name": "tanh_0", "inputs": [n], "outputs": [n], "description": None, "attributes": None}
expect(build_layer(o).infer(np.array([0], dtype=np.int8)).tolist() == [0], "case-insensitive")
""", stubs=["tensorflow"])

S("C16-int16-cell", "C16", "a cell state whose exact value leaves 16 bits before it saturates", "the cell state is narrowed to 16 bits before it is saturated",
  [(IEP + "layers/itclq/lstm.py", "                .astype(np.int64)\n                .clip(self._q_cell_state.min_value(), self._q_cell_state.max_value())\n",
    "                .astype(np.int64)\n                .astype(np.int16)\n                .clip(self._q_cell_state.min_value(), self._q_cell_state.max_value())\n")],
  """
from itcl_inference_engine.layers.itclq.lstm import LSTM
from itcl_inference_engine.layers.common.lut import LUTActivation
ident = lambda: LUTActivation(list(range(-128, 128)), 128)
l = LSTM(kernel=[np.ones((1, 1), int)] * 4, recurrent_kernel=[np.zeros((1, 1), int)] * 4, bias=[np.zeros(1, int)] * 4, M1=[1.0] * 4, M2=[1.0] * 4,
         M3=1.0, M4=2.5, M5=0.01, input_gate_lut=ident(), forget_gate_lut=ident(), cell_gate_lut=ident(), output_gate_lut=ident(), cell_state_lut=ident(),
         input_zp=0, bias_add_zp=0, recurrent_add_zp=[0] * 4, hidden_state_zp=0, input_gate_zp=0, forget_gate_zp=0, cell_gate_zp=0, output_gate_zp=0,
         cell_state_zp=0, cell_state_activation_zp=0, bias_add_dtype="int32", recurrent_add_dtype="int8", cell_state_dtype="int8",
         hidden_state_dtype="int8", return_sequences=True)
expect(l.infer(np.array([[[120]]])).ravel().tolist() == [127], "saturated")
""")

S("C17-ten", "C17", "a network of more than ten operators", "operators are ordered by their position as text",
  [(IEP + "network/sequential.py", "        for layer in schema[\"graph\"]:\n            logger.info(layer[\"name\"])\n            layers.append(build_layer(layer))\n\n        return layers\n",
    "        built: dict = {}\n        for i, layer in enumerate(schema[\"graph\"]):\n            logger.info(layer[\"name\"])\n            built[f\"{i}_{layer['op_type']}\"] = build_layer(layer)\n\n        return [built[k] for k in sorted(built)]\n")],
  """
from itcl_inference_engine.network.sequential import SequentialNetwork
def n(s): return {"scale": s, "zero_point": 0, "tensor": {"tensor": None, "shape": [1], "dtype": "int8", "name": "t"}, "LUT": None}
def op(t, a, b): return {"op_type": t, "name": t.lower(), "inputs": [n(a)], "outputs": [n(b)], "description": None, "attributes": None}
g = [op("QUANTIZE", 1.0, 1.0)] + [op("RELU", 1.0, 1.0) for _ in range(10)] + [op("DEQUANTIZE", 0.5, 1.0)]
net = SequentialNetwork({"engine": "TFLITE", "graph": g, "input": [n(1.0)], "output": [n(1.0)], "operators": 12, "ir_version": "1", "generated_at": None})
expect(net.infer(np.array([5.0])).tolist() == [2.5], "document order")
""", stubs=["tensorflow"])

S("C17-has-quant", "C17", "a network whose quantize operator has a name without QUANT, or the other way round", "the input is quantized again when the quantize operator is not the only one",
  [(IEP + "network/sequential.py", "        self.has_quant_layers = \"QUANT\" in self.schema[\"graph\"][0][\"name\"].upper()\n",
    "        self.has_quant_layers = any(\n            \"QUANT\" in op[\"name\"].upper() for op in self.schema[\"graph\"]\n        )\n")],
  """
from itcl_inference_engine.network.sequential import SequentialNetwork
def n(s): return {"scale": s, "zero_point": 0, "tensor": {"tensor": None, "shape": [1], "dtype": "int8", "name": "t"}, "LUT": None}
def op(t, a, b): return {"op_type": t, "name": t.lower(), "inputs": [n(a)], "outputs": [n(b)], "description": None, "attributes": None}
g = [op("RELU", 0.5, 0.5), op("DEQUANTIZE", 0.5, 1.0)]
net = SequentialNetwork({"engine": "TFLITE", "graph": g, "input": [n(0.5)], "output": [n(1.0)], "operators": 2, "ir_version": "1", "generated_at": None})
expect(net.infer(np.array([4.0])).tolist() == [4.0], "input is quantized first")
""", stubs=["tensorflow"])

