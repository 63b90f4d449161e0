# objects that remember something between calls
CI = "inference_engine/itcl_inference_engine/layers/"

S("C01-close-scale", "C01", "the same object called with two scales that differ by less than one part in 10000, on a wide type", "the reciprocal of the scale is kept when the next scale is close to the last one",
  [(OPS, "        float_res = np.array(np.array(data).astype(np.float64) / scale + zero_point)\n",
    "        last = getattr(self, \"_last_scale\", None)\n        if last is None or abs(last - scale) > 1e-4 * abs(scale):\n            last = self._last_scale = scale\n        float_res = np.array(np.array(data).astype(np.float64) / last + zero_point)\n")],
  DEMOQ + """
Q = Quantization("int16")
Q.quantize(np.array([1.0]), 0, 0.001)
expect(Q.quantize(np.array([30.0]), 0, 0.00100005).tolist() == [29999], "scale of the call")
""")

S("C03-bad-policy-sticks", "C03", "a policy of a wrong shape, then a valid policy on the same object", "after an invalid policy the object ignores policies",
  [(OPS, "        if rounding_policy is not None:\n", "        if rounding_policy is not None and not getattr(self, \"_no_policy\", False):\n"),
   (OPS, "                logging.warning(\n", "                self._no_policy = True\n                logging.warning(\n")],
  DEMOQ + """
Q = Quantization("int8")
x = np.array([0.2, 0.8, 0.3])
Q.quantize(x, 0, 1.0, rounding_policy=np.array([1, 1]))
expect(Q.quantize(x, 0, 1.0, rounding_policy=np.array([1, 0, 1])).tolist() == [1, 0, 1], "policy of the call")
""")

S("C09-mru", "C09", "an input whose first code repeats at a later call where the rest differs", "the result of the last call is reused when both ends of the index are the same",
  [(CI + "common/lut.py", "        self.__apply_lut_vectorize = np.vectorize(lut)\n",
    "        vectorized, last = np.vectorize(lut), []\n\n        def lookup(index: np.ndarray) -> np.ndarray:\n            key = (index.shape, index.ravel()[[0, -1]].tolist(), int(index.sum()))\n            if last[:1] != [key]:\n                last[:] = [key, vectorized(index)]\n            return last[1].copy()\n\n        self.__apply_lut_vectorize = lookup\n")],
  """
from itcl_inference_engine.layers.common.lut import LUTActivation
l = LUTActivation([5, 6, 7, 8], 0)
l.infer(np.array([0, 1, 2, 0]))
expect(l.infer(np.array([0, 2, 1, 0])).tolist() == [5, 7, 6, 5], "entries of the codes")
""")

S("C10-transposed", "C10", "a vector inferred after a batch, by a layer with as many neurons as inputs", "the weights stay transposed after a batch",
  [(CI + "tflite/fullyconnected.py", "            W = weights_matrix.T\n", "            if not getattr(self, \"_batched\", False):\n                self.__weights = self.__weights.T\n                self._batched = True\n            W = self.__weights.astype(np.int64)\n")],
  """
from itcl_inference_engine.layers.tflite.fullyconnected import FullyConnected
l = FullyConnected.build(1.0, 0, 1.0, 0, np.array([[1, 2], [3, 4]]), 1.0, 0, np.array([0, 0]), 1.0, 0)
a = l.infer(np.array([[1, 0]]))
expect(a.tolist() == [[1, 3]] and l.infer(np.array([1, 0])).tolist() == [1, 3], "a vector after a batch")
""")

S("C12-bias-drift", "C12", "a stored int32 tensor with a zero point other than 0, inferred twice", "the zero point is subtracted from the stored tensor in place",
  [(CI + "onnx/q_linear_add.py", "        b = self.__b.astype(np.int32) - self.__b_zp  # i32\n", "        b = self.__b.astype(np.int32, copy=False)\n        b -= np.int32(self.__b_zp)  # i32\n")],
  """
from itcl_inference_engine.layers.onnx.q_linear_add import QLinearAdd
l = QLinearAdd(1.0, 0, np.array([10, 20], dtype=np.int32), 1.0, 5, 1.0, 0)
x = np.array([1, 1], dtype=np.uint8)
expect(l.infer(x).tolist() == [6, 16] and l.infer(x).tolist() == [6, 16], "the same sum twice")
""")

S("C12-out-buffer", "C12", "two batches of the same shape one after the other, the first result used afterwards", "the product is written in a buffer kept by the operator",
  [(CI + "onnx/q_linear_mmul.py", "        return np.clip(int32mmul, 0, 255).astype(np.uint8)\n", "        if getattr(self, \"_out\", None) is None or self._out.shape != int32mmul.shape:\n            self._out = np.empty(int32mmul.shape, dtype=np.uint8)\n        self._out[...] = np.clip(int32mmul, 0, 255)\n        return self._out\n")],
  """
from itcl_inference_engine.layers.onnx.q_linear_mmul import QLinearMatMul
l = QLinearMatMul(1.0, 0, np.array([[1, 2]], dtype=np.uint8), 1.0, 0, 1.0, 0)
a = l.infer(np.array([[1, 1]], dtype=np.uint8))
l.infer(np.array([[4, 4]], dtype=np.uint8))
expect(a.tolist() == [[3]], "an earlier result stays")
""")

S("C15-int16-inplace", "C15", "codes held in an int16 array", "the codes of the caller are clipped in place",
  [(CI + "common/relu.py", "        y = (input_.astype(np.int16)).clip(min=self.input_zp)\n", "        y = input_.astype(np.int16, copy=False)\n        np.maximum(y, self.input_zp, out=y)\n")],
  """
from itcl_inference_engine.layers.common.relu import RELU
x = np.array([-5, 5], dtype=np.int16)
RELU(1.0, 0, 1.0, 0).infer(x)
expect(x.tolist() == [-5, 5], "the codes of the caller stay")
""")

S("C17-last-batch", "C17", "a batch of the same shape and the same first row as the last one", "a run whose first row equals that of the last run is not computed again",
  [("inference_engine/itcl_inference_engine/network/sequential.py", "        self._intermediate_results = []\n        input_ = np.array(input_)\n",
    "        self._intermediate_results = []\n        input_ = np.array(input_)\n        seen = (input_.shape, input_[:1].tobytes(), input_[-1:].tobytes())\n        if getattr(self, \"_seen\", None) == seen and input_.ndim > 1:\n            return self._answer.copy()\n        self._seen = seen\n"),
   ("inference_engine/itcl_inference_engine/network/sequential.py", "        return input_\n\n    def get_engine", "        self._answer = input_\n        return input_\n\n    def get_engine")],
  """
from itcl_inference_engine.network.sequential import SequentialNetwork
net = SequentialNetwork.from_json_file(os.path.join(REPO, "models/mnist/uint8/mnist_relu_uint8.json"))
w = np.array(next(o for o in net.schema["graph"] if "UANTIZE" not in o["op_type"].upper())["inputs"][1]["tensor"]["tensor"])
x = np.random.RandomState(0).uniform(size=(3, w.shape[1]))
a = np.array(net.infer(x))
x[1] = x[0]
b = np.array(net.infer(x))
expect(np.array_equal(b[1], b[0]), "the row in the middle is computed")
""", stubs=["tensorflow"])
