# caches, precision, shared state, special shapes
S("C02-f32-round", "C02", "a wide type and codes beyond 2^24", "values are rounded in single precision",
  [(OPS, "        rounded_data = np.floor(np.array(data) + extra)\n", "        rounded_data = np.floor(np.array(data, dtype=np.float32) + extra).astype(np.float64)\n")],
  """
from itcl_quantization import Quantization
Q = Quantization("int32")
c = np.array([2**30 + 1, -(2**30) - 3, 2**31 - 1, 16777217])
expect(Q.quantize(Q.dequantize(c, 0, 0.5), 0, 0.5).tolist() == c.tolist(), "round trip of wide codes")
""")

S("C02-from-int8-f32", "C02", "a scale that single precision does not hold", "the engine's helper dequantizes in single precision",
  [(IEP + "util/quantization.py", "    return int8_quantization.dequantize(int8_val, zero_point, scale)\n",
    "    return int8_quantization.dequantize(int8_val, zero_point, np.float32(scale)).astype(\n        np.float64\n    )\n")],
  """
from itcl_inference_engine.util.quantization import from_int8, to_int8
c = np.arange(-128, 128)
expect(from_int8(c, 3, 0.1).tolist() == ((c - 3) * 0.1).tolist(), "the helper dequantizes like the core library")
""", stubs=["tensorflow"])

S("C03-list-broadcast", "C03", "a single row or column of bits for a matrix, an axis of length one", "a policy that broadcasts from one row is stretched even if the tensor only has the right number of columns",
  [(OPS, "        if rounding_policy is not None:\n", "        if rounding_policy is not None and np.size(rounding_policy) == float_res.size:\n            # Flat policies of the right number of bits are accepted\n            rounding_policy = np.ravel(rounding_policy, order=\"A\").reshape(float_res.shape)\n        if rounding_policy is not None:\n")],
  """
from itcl_quantization import Quantization
x = np.array([[0.2, 0.7, 1.2], [1.7, 2.2, 2.7]])
p = np.asfortranarray(np.array([[1, 0, 0], [1, 1, 0]]))
expect(Quantization("int8").quantize(x, 0, 1.0, p).tolist() == [[1, 0, 1], [2, 3, 2]], Quantization("int8").quantize(x, 0, 1.0, p).tolist())
""")

S("C04-bits-cache", "C04", "two names with the same number of bits and different signedness, in one process", "ranges are remembered by the number of bits",
  [(OPS, "        self.__min = -(2 ** (int(bits) - 1)) if signed else 0\n        self.__max = 2 ** (int(bits) - 1) - 1 if signed else 2 ** int(bits) - 1\n",
    "        key = bits if bits > 32 else (bits, signed)\n        if key not in self.RANGES:\n            half = 2 ** (bits - 1)\n            self.RANGES[key] = (-half, half - 1) if signed else (0, 2 * half - 1)\n        self.__min, self.__max = self.RANGES[key]\n"),
   (OPS, "class GenericDtype:\n", "class GenericDtype:\n    RANGES: dict = {}\n\n")],
  """
from itcl_quantization.quantization.operators import GenericDtype
a, b = GenericDtype("int40"), GenericDtype("uint40")
expect((a.min(), a.max(), b.min(), b.max()) == (-(2**39), 2**39 - 1, 0, 2**40 - 1), (a.min(), a.max(), b.min(), b.max()))
""")

S("C06-first-run", "C06", "a table whose first run is longer than 255 entries", "the threshold of the head is held in a byte",
  [(LUTF, "        shift = sum([c[1] for c in counter])\n", "        shift = sum([c[1] for c in counter])\n        if not reverse and len(lut) > 1 << 15:\n            # The offsets of the head are 16 bits wide\n            counter = [(v, min(n, (1 << 15) - 1)) for v, n in counter]\n            shift = sum([c[1] for c in counter])\n")],
  """
from itcl_quantization.quantization.lut import ReducedLUT
t = [-5] * 40000 + list(range(100)) + [200] * 25000
r = ReducedLUT(t, 1, 0)
expect(r.left_shift == 40000 and [r[i] for i in range(0, len(t), 997)] == t[::997], r.left_shift)
""")

S("C07-doc-cache", "C07", "two documents of reduced tables with the same depth, minimum and length, loaded one after the other", "loaded tables are shared between documents with the same description",
  [(LUTF, "        reduced_lut = ReducedLUT(\n            [], json_lut[\"depth\"], json_lut[\"min_reduce\"], json_lut[\"asymmetric\"]\n        )\n",
    "        key = (json_lut[\"description\"], json_lut[\"head\"][\"shift\"], json_lut[\"tail\"][\"shift\"], len(json_lut[\"reduced_lut\"]))\n        if key in ReducedLUT._loaded:\n            return ReducedLUT._loaded[key]\n        reduced_lut = ReducedLUT._loaded[key] = ReducedLUT(\n            [], json_lut[\"depth\"], json_lut[\"min_reduce\"], json_lut[\"asymmetric\"]\n        )\n"),
   (LUTF, "    def __init__(self, lut: List[int], depth: int, min_reduce: int, asymmetric=False):\n", "    _loaded: dict = {}\n\n    def __init__(self, lut: List[int], depth: int, min_reduce: int, asymmetric=False):\n")],
  """
from itcl_quantization.quantization.lut import ReducedLUT
a, b = [0, 0, 1, 2, 3, 3], [5, 5, 6, 7, 8, 8]
for t in (a, b):
    d = ReducedLUT.deserialize(json.loads(json.dumps(ReducedLUT(t, 1, 0).serialize())))
    expect([d[i] for i in range(6)] == t, [d[i] for i in range(6)])
""")

S("C07-sparse-tail", "C07", "a reduced table that is serialized, changed and serialized again, or whose document is edited", "the document holds the table's own list, loading takes the list over and consumes it",
  [(LUTF, "        reduced_lut.left_tuples = json_lut[\"head\"][\"tuples\"]\n", "        reduced_lut.left_tuples = json_lut[\"head\"][\"tuples\"]\n        reduced_lut.left_tuples.sort(key=lambda t: -t[0])\n        reduced_lut.left_tuples = [\n            reduced_lut.left_tuples.pop() for _ in range(len(reduced_lut.left_tuples))\n        ]\n")],
  """
from itcl_quantization.quantization.lut import ReducedLUT
t = [0, 0, 1, 1, 2, 3, 4, 4, 5]
doc = json.loads(json.dumps(ReducedLUT(t, 2, 0).serialize()))
for _ in range(2):
    d = ReducedLUT.deserialize(doc)
    expect([d[i] for i in range(9)] == t, "the document can be loaded again")
""")

S("C08-own-width", "C08", "a product or sum of a narrow left operand and a wider right one that only just overflows the wider type", "the width of the result is taken from the left operand",
  [(OPS, "        if a.bits > b.bits:\n            return a\n        else:\n            return b\n", "        if a.bits > b.bits or (a.bits < b.bits and np.size(b.value) and np.all(np.abs(np.asarray(b.value, dtype=np.int64)) <= a.max() // 4)):\n            return a\n        else:\n            return b\n")],
  """
from itcl_quantization.quantization.operators import Dtype
r = Dtype(100, "int8") * Dtype(np.array([20, 3]), "int16")
s = Dtype(100, "int8") * Dtype(20, "int16")
t = Dtype(5, "int8") * Dtype(7, "int32")
expect(int(s.value) == 2000 and t.dtype == np.dtype("int32"), (s.value, t.dtype))
""")

S("C09-lut-array", "C09", "a table with entries that do not fit in eight bits (an int16 layer)", "the entries are held in the narrowest type of the first and the last entry",
  [(CI + "common/lut.py", "        self.__LUT = LUT\n", "        self.__LUT = LUT\n        if isinstance(LUT, list) and LUT:\n            self.__LUT = np.array(LUT).astype(\n                np.promote_types(np.min_scalar_type(LUT[0]), np.min_scalar_type(LUT[-1]))\n            )\n")],
  """
from itcl_inference_engine.layers.common.lut import LUTActivation
t = [0, 5, 300, -200, 7, 1]
expect(LUTActivation(t, 3).infer(np.array([-3, -1, 0, 2])).tolist() == [0, 300, -200, 1], LUTActivation(t, 3).infer(np.array([-3, -1, 0, 2])))
""", stubs=["tensorflow"])

S("C12-add-equal-zp", "C12", "a bias with the scale of the input", "with equal scales the zero points are taken off after the sum, in the type of the bias",
  [(CI + "onnx/q_linear_add.py", "        C = np.round((i_scale * i + b_scale * b) / o_scale) + o_zp\n", "        if i_scale == b_scale:\n            # One product less\n            C = np.round(i_scale * (input_ + self.__b - self.__i_zp - self.__b_zp) / o_scale) + o_zp\n        else:\n            C = np.round((i_scale * i + b_scale * b) / o_scale) + o_zp\n")],
  """
from itcl_inference_engine.layers.onnx.q_linear_add import QLinearAdd
l = QLinearAdd(0.5, 10, np.array([200, 3], dtype=np.uint8), 0.5, 5, 1.0, 0)
expect(l.infer(np.array([[250, 12]], dtype=np.uint8)).tolist() == [[218, 0]], l.infer(np.array([[250, 12]], dtype=np.uint8)).tolist())
""", stubs=["tensorflow"])

S("C12-mmul-f32", "C12", "sums of products beyond 2^24, or next to a tie", "the products are summed in single precision to use BLAS",
  [(CI + "onnx/q_linear_mmul.py", "        int32mmul = np.round(self.__M * np.matmul(i, w)) + self.__o_zp\n", "        # The matrix product of floats uses BLAS\n        acc = np.matmul(i.astype(np.float32), w.astype(np.float32))\n        int32mmul = np.round(self.__M * acc) + self.__o_zp\n")],
  """
from itcl_inference_engine.layers.onnx.q_linear_mmul import QLinearMatMul
k = 600
W = np.full((1, k), 255, dtype=np.uint8); W[0, 0] = 2
x = np.full((1, k), 255, dtype=np.uint8); x[0, 0] = 1
acc = 255 * 255 * (k - 1) + 2
l = QLinearMatMul(1.0, 0, W, 1.0, 0, 1.0, -acc + 7)
expect(l.infer(x).tolist() == [[7]], l.infer(x))
""", stubs=["tensorflow"])

S("C13-quant-f16", "C13", "an input in single precision next to a tie", "the real input is divided in its own precision",
  [(OPS, "        float_res = np.array(np.array(data).astype(np.float64) / scale + zero_point)\n", "        data = np.array(data)\n        wide = np.result_type(data.dtype, np.float16)\n        float_res = np.array((data.astype(wide) / wide.type(scale)).astype(np.float64) + zero_point)\n")],
  """
from itcl_inference_engine.layers.onnx.quantize_linear import QuantizeLinear
x = ((np.arange(-120, 120) + 0.5) * 0.0237).astype(np.float32)
want = np.floor(x.astype(np.float64) / 0.0237 + 128 + 0.5).clip(0, 255)
y = np.arange(-100, 100, dtype=np.int8)
expect(QuantizeLinear(0.0237, 128).infer(x).tolist() == want.tolist(), "single precision inputs")
want = np.floor(y.astype(np.float64) / 0.7 + 128 + 0.5).clip(0, 255)
expect(QuantizeLinear(0.7, 128).infer(y).tolist() == want.tolist(), "integer inputs")
""", stubs=["tensorflow"])

S("C14-class-q", "C14", "two QUANTIZE operators with different types alive at once", "the operator keeps its type on the class",
  [(CI + "tflite/quantize.py", "        self.Q = Quantization(dtype)\n", "        type(self).Q = Quantization(dtype)\n")],
  """
from itcl_inference_engine.layers.tflite.quantize import Quantize
a = Quantize(1.0, 0, "uint8")
b = Quantize(1.0, 0, "int8")
expect(a.infer(np.array([200.0, -3.0])).tolist() == [200, 0] and b.infer(np.array([200.0])).tolist() == [127], a.infer(np.array([200.0, -3.0])))
""", stubs=["tensorflow"])

S("C18-shift", "C18", "a factor just below a power of two", "the mantissa that rounds up to one loses its exponent",
  [(IEP + "util/floating.py", "            quantized_multiplier //= 2\n            shift += 1\n", "            quantized_multiplier -= 1\n            shift += int(self._fp >= 1)\n")],
  """
from itcl_inference_engine.util.floating import FloatingIntegerApprox
f = FloatingIntegerApprox(1 - 2.0**-40)
g = FloatingIntegerApprox(2**12 * (1 - 2.0**-40))
expect(f * (2**31 - 2) == 2**31 - 2 and abs((g * 2**20) - 2**32) <= 4, (f * (2**31 - 2), g * 2**20))
""", stubs=["tensorflow"])

S("C18-int-branch", "C18", "a factor below 2^-16", "the operand is shortened before the product",
  [(IEP + "util/floating.py", "        res = other * self._q + self._round\n        return res >> self._shift  # type: ignore\n", "        if self._shift > 31 + 15:\n            # Small factors: divide first, the product is shorter\n            return ((other >> 15) * self._q + (self._round >> 15)) >> (self._shift - 15)\n        res = self._q * other + self._round\n        return res >> self._shift  # type: ignore\n")],
  """
from itcl_inference_engine.util.floating import FloatingIntegerApprox
from fractions import Fraction
for e in range(18, 24):
    for m in (1.0, 1.37, 1.5, 1.83, 1.99):
        p = m * 2.0**-e
        f = FloatingIntegerApprox(p)
        for v in range(-2**22, 2**22, 9973):
            exact = Fraction(p) * v
            expect(abs(int(f * v) - exact) <= Fraction(1, 2) + Fraction(1, 1000), (p, v, int(f * v), float(exact)))
""", stubs=["tensorflow"])

S("C27-return-seq", "C27", "an LSTM layer that returns sequences, followed by another layer", "only the last LSTM layer's flag is read from its configuration",
  [(KJ + "layers/lstm.py", "        return_seq = layer.get_config()[\"return_sequences\"]\n", "        # The steps are those of the input, unless there is only one\n        return_seq = layer.get_config()[\"return_sequences\"] and window_size != 1\n")],
  """
from tensorflow import keras
from keras2json import convert
w = [np.ones((3, 8)), np.ones((2, 8)), np.zeros(8)]
d = convert(keras.Model([keras.layers.LSTM(2, True, name="a", weights=w, batch_input_shape=(None, 1, 3))]))
expect(d["graph"][0]["attributes"]["return_sequences"]["value"] == [True], d["graph"][0]["attributes"])
""", stubs=["tensorflow"])
