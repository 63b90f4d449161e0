OPS = "core/itcl_quantization/quantization/operators.py"
LUTF = "core/itcl_quantization/quantization/lut.py"
IEP = "inference_engine/itcl_inference_engine/"

S("C01-ties-away", "C01", "a negative value that falls exactly half way between two codes", "ties round away from zero instead of up",
  [(OPS, "rounded_data = np.floor(np.array(data) + extra)", "float_data = np.array(data)\n        rounded_data = np.where(\n            float_data < 0, np.ceil(float_data - 1 + extra), np.floor(float_data + extra)\n        )")],
  """
from itcl_quantization import Quantization
q = Quantization("int8")
expect(q.quantize(np.array([1.25, -1.75, 0.25, -2.0]), 0, 0.5).tolist() == [3, -3, 1, -4], "ties go up")
""")

S("C03-empty-policy", "C03", "a rounding policy that rounds every element down", "a policy without any element rounded up counts as no policy",
  [(OPS, "        if rounding_policy is not None:\n", "        if np.any(rounding_policy):\n")],
  """
from itcl_quantization import Quantization
q = Quantization("int8")
expect(q.quantize(np.array([[-1.3, 1.8]]), 0, 1.0, rounding_policy=np.array([[0, 0]])).tolist() == [[-2, 1]], "floor plus policy")
""")

S("C04-suffix", "C04", "a valid name followed by extra characters", "names with trailing characters are accepted",
  [(OPS, "if self.__repr != dtype.lower():", "if not dtype.lower().startswith(self.__repr):")],
  """
from itcl_quantization import Quantization
for name in ("int8_t", "uint16 "):
    try:
        Quantization(name)
    except Exception:
        continue
    expect(False, name + " is not rejected")
""")

S("C05-stale-activation", "C05", "two tables of different activations created with the same quantizer and input parameters",
  "the float activation is remembered per input scale and zero point, whatever the activation",
  [(OPS, "        self.dtype = GenericDtype(dtype)\n", "        self.dtype = GenericDtype(dtype)\n        self._activations: dict = {}\n"),
   (OPS, "        activated_float = self.float_activation(activation_fn, input_s, input_zp)\n",
    "        key = (input_s, input_zp)\n        if key not in self._activations:\n            self._activations[key] = self.float_activation(\n                activation_fn, input_s, input_zp\n            )\n        activated_float = self._activations[key]\n")],
  """
import math
from itcl_quantization import Quantization
q = Quantization("int8")
q.create_LUT(math.tanh, 0.05, 3, 1 / 128, 0)
got = q.create_LUT(lambda x: max(0.0, x), 0.05, 3, 0.05, -128)
want = Quantization("int8").create_LUT(lambda x: max(0.0, x), 0.05, 3, 0.05, -128)
expect(got == want, "second table is the table of the first activation")
""")

S("C06-overlap-iter", "C06", "a table whose head and tail intervals overlap (few distinct values, symmetric reduction)",
  "iteration assumes that head, body and tail are disjoint",
  [(LUTF, "        for i in range(len(self.lut)):\n            yield self[i]\n",
    "        n = self.left_shift + len(self.reduced_lut) + self.right_shift\n        for i in range(n):\n            yield self[i]\n")],
  """
from itcl_quantization.quantization.lut import ReducedLUT
t = [0] * 5 + [1] * 5
expect(list(ReducedLUT(t, 3, 0)) == t, "iteration yields the table")
""")

S("C07-swap", "C07", "a table serialized a second time after deserialization", "depth and minimum reduction are swapped when deserializing",
  [(LUTF, '            [], json_lut["depth"], json_lut["min_reduce"], json_lut["asymmetric"]\n', '            [], json_lut["min_reduce"], json_lut["depth"], json_lut["asymmetric"]\n')],
  """
from itcl_quantization.quantization.lut import ReducedLUT
a = json.loads(json.dumps(ReducedLUT([1, 1, 2, 3, 3, 4, 4], 2, 0).serialize()))
b = json.loads(json.dumps(ReducedLUT.deserialize(a).serialize()))
expect(a == b, "the document changes")
""")

S("C09-narrow-offset", "C09", "a table with 32768 entries or more",
  "the index is narrowed to 16 bits for the lookup",
  [(IEP + "layers/common/lut.py", "lut = lambda x: self.__LUT[x]", "lut = lambda x: self.__LUT[np.int16(x)]")],
  """
from itcl_inference_engine.layers.common.lut import LUTActivation
t = list(range(0, 40000))
expect(LUTActivation(t, 0).infer(np.array([0, 32767, 32768, 39999])).tolist() == [0, 32767, 32768, 39999], "entries")
""")

S("C10-int32-acc", "C10", "wide codes whose products accumulate beyond 32 bits", "the accumulation is done with 32 bits",
  [(IEP + "layers/tflite/fullyconnected.py", "weights_matrix = self.__weights.astype(np.int64)", "weights_matrix = self.__weights.astype(np.int32)"),
   (IEP + "layers/tflite/fullyconnected.py", "input_ = input_.astype(np.int64) - np.int64(z1)", "input_ = input_.astype(np.int32) - np.int32(z1)")],
  """
from itcl_inference_engine.layers.tflite.fullyconnected import FullyConnected
l = FullyConnected.build(1.0, 0, 1.0, 0, np.array([[32767, 32767, 32767]]), 1.0, 0, np.array([0]), 2.0 ** 17, 0, "int16")
expect(l.infer(np.array([32767, 32767, 32767], dtype=np.int16)).tolist() == [24575], "accumulator wraps")
""")

S("C11-block", "C11", "a batch of more than 32 rows whose size is not a multiple of 32", "large batches are multiplied in blocks and the last block is shifted",
  [(IEP + "layers/tflite/fullyconnected.py", "            mmul_res = np.matmul(input_, W)\n",
    "            if len(input_) <= 32:\n                mmul_res = np.matmul(input_, W)\n            else:\n"
    "                starts = [min(s, len(input_) - 32) for s in range(0, len(input_), 32)]\n"
    "                mmul_res = np.concatenate(\n                    [np.matmul(input_[s : s + 32], W) for s in starts]\n                )[: len(input_)]\n")],
  """
from itcl_inference_engine.layers.tflite.fullyconnected import FullyConnected
l = FullyConnected.build(1.0, 0, 1.0, 0, np.array([[1]]), 1.0, 0, np.array([0]), 1.0, 0, "int8")
x = np.arange(40).reshape(40, 1)
expect(l.infer(x).ravel().tolist() == list(range(40)), "rows of a large batch")
""")

S("C12-int16-bias", "C12", "stored addition codes beyond 16 bits", "the stored tensor is narrowed to 16 bits before the addition",
  [(IEP + "layers/onnx/q_linear_add.py", "b = self.__b.astype(np.int32) - self.__b_zp  # i32", "b = self.__b.astype(np.int16) - self.__b_zp  # i32")],
  """
from itcl_inference_engine.layers.onnx.q_linear_add import QLinearAdd
l = QLinearAdd(0.1, 0, np.array([70000], dtype=np.int32), 0.001, 0, 1.0, 0)
expect(l.infer(np.array([50], dtype=np.uint8)).tolist() == [75], "sum code")
""")

S("C13-sigmoid-clip", "C13", "a sigmoid whose real input is below -8 with a fine output scale", "the sigmoid saturates at 8 in magnitude",
  [(IEP + "layers/onnx/q_linear_sigmoid.py", "return 1 / (1 + np.exp(-arr))  # type: ignore", "return np.where(np.abs(arr) > 8, arr > 0, 1 / (1 + np.exp(-arr)))  # type: ignore")],
  """
from itcl_inference_engine.layers.onnx.q_linear_sigmoid import QLinearSigmoid
l = QLinearSigmoid(0.1, 100, 1e-5, 0)
expect(l.infer(np.array([15], dtype=np.uint8)).tolist() == [20], "sigmoid(-8.5)")
""")

S("C14-unsigned-dequant", "C14", "DEQUANTIZE or QUANTIZE of an unsigned or wide type", "the QUANTIZE operator saturates to int8 whatever the type of its output",
  [(IEP + "layers/tflite/quantize.py", "        return self.Q.quantize(input_, self.output_zp, self.output_scale)",
    "        if self.output_zp <= 0:\n            return to_int8(input_, self.output_zp, self.output_scale)\n        return self.Q.quantize(input_, self.output_zp, self.output_scale)")],
  """
from itcl_inference_engine.layers.tflite.quantize import Quantize
expect(Quantize(1.0, 0, "int16").infer(np.array([300.0])).tolist() == [300], "int16 code")
""")

S("C15-narrow-scale", "C15", "input and output scales that differ by less than 1%", "nearly equal scales are taken as equal",
  [(IEP + "layers/common/relu.py", "self.k = input_scale / output_scale", "self.k = input_scale / output_scale\n        if abs(self.k - 1) < 0.01:\n            self.k = 1.0")],
  """
from itcl_inference_engine.layers.common.relu import RELU
expect(RELU(1.008, -128, 1.0, -128).infer(np.array([0, 120], dtype=np.int8)).tolist() == [1, 122], "requantized")
""")

S("C16-first-zp", "C16", "recurrent sums of the four gates with different zero points", "the zero point of the first gate is used for all of them",
  [(IEP + "layers/itclq/lstm.py", "(recurrent_add_large * M2 + self._recurrent_add_zp[i])", "(recurrent_add_large * M2 + self._recurrent_add_zp[0])")],
  """
from itcl_inference_engine.layers.itclq.lstm import LSTM
from itcl_inference_engine.layers.common.lut import LUTActivation
ident = lambda: LUTActivation(list(range(-128, 128)), 128)
def run(zps):
    l = LSTM(kernel=[np.zeros((1, 1), int)] * 4, recurrent_kernel=[np.zeros((1, 1), int)] * 4, bias=[np.zeros(1, int)] * 4, M1=[1.0] * 4, M2=[1.0] * 4,
             M3=0.01, M4=0.1, M5=0.1, input_gate_lut=ident(), forget_gate_lut=ident(), cell_gate_lut=ident(), output_gate_lut=ident(), cell_state_lut=ident(),
             input_zp=0, bias_add_zp=0, recurrent_add_zp=zps, hidden_state_zp=0, input_gate_zp=0, forget_gate_zp=0, cell_gate_zp=0, output_gate_zp=0,
             cell_state_zp=0, cell_state_activation_zp=0, bias_add_dtype="int32", recurrent_add_dtype="int8", cell_state_dtype="int8",
             hidden_state_dtype="int8", return_sequences=False)
    return l.infer(np.zeros((1, 1, 1), int)).ravel().tolist()
expect(run([10, 0, 20, 50]) == [100], "hidden state")
""")

S("C17-memo", "C17", "two networks alive at once with operators of the same name", "built operators are remembered by operator name",
  [(IEP + "network/sequential.py", "        for layer in schema[\"graph\"]:\n            logger.info(layer[\"name\"])\n            layers.append(build_layer(layer))\n",
    "        for layer in schema[\"graph\"]:\n            logger.info(layer[\"name\"])\n            key = (layer[\"op_type\"], layer[\"name\"])\n            if key not in self._built:\n                self._built[key] = build_layer(layer)\n            layers.append(self._built[key])\n"),
   (IEP + "network/sequential.py", "    \"\"\"Network Class\"\"\"\n", "    \"\"\"Network Class\"\"\"\n\n    _built: dict = {}\n")],
  """
from itcl_inference_engine.network.sequential import SequentialNetwork
def net(s):
    n = {"scale": s, "zero_point": 0, "tensor": {"tensor": None, "shape": [1], "dtype": "int8", "name": "t"}, "LUT": None}
    o = {"op_type": "QUANTIZE", "name": "quantize_0", "inputs": [n], "outputs": [n], "description": None, "attributes": None}
    return SequentialNetwork({"engine": "TFLITE", "graph": [o], "input": [n], "output": [n], "operators": 1, "ir_version": "1", "generated_at": None})
a, b = net(1.0), net(0.5)
expect(a.infer(np.array([4.0])).tolist() == [4] and b.infer(np.array([4.0])).tolist() == [8], "networks share operators")
""", stubs=["tensorflow"])

S("C18-neg-round", "C18", "a negative operand of the integer-only multiplier", "negative products are truncated instead of rounded",
  [(IEP + "util/floating.py", "        res = other * self._q + self._round\n        return res >> self._shift  # type: ignore",
    "        res = other * self._q\n        return (res + self._round * (res >= 0)) >> self._shift  # type: ignore")],
  """
from itcl_inference_engine.util.floating import FloatingIntegerApprox
f = FloatingIntegerApprox(0.25)
expect((f * np.array([-5, 5, -7])).tolist() == [-1, 1, -2] and f * -5 == -1, "nearest")
""")

S("C02-int16-helper", "C02", "codes of the engine helper held in int8 with a zero point of the other sign", "the engine helper removes the zero point in the container of the codes",
  [(IEP + "util/quantization.py", "return int8_quantization.dequantize(int8_val, zero_point, scale)",
    "return (np.asarray(int8_val) - np.asarray(zero_point, dtype=np.asarray(int8_val).dtype)) * scale")],
  """
from itcl_inference_engine.util.quantization import from_int8
expect(from_int8(np.array([127, -128], dtype=np.int8), -100, 0.5).tolist() == [113.5, -14.0], "dequantized value")
""")
