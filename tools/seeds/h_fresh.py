# written from the statements alone
S("C05-odd", "C05", "an activation that is odd close to zero but saturates at different magnitudes on both sides, with a zero point of 0", "tables of odd activations are evaluated on the positive half only",
  [(OPS, "        float_input = self.dequantize(quantized_input, input_zp, input_s)\n",
    "        float_input = self.dequantize(quantized_input, input_zp, input_s)\n        if input_zp == 0 and self.min_value() < 0:\n            probe = float_input[float_input > 0][0]\n            if activation_fn(0.0) == 0 and activation_fn(-probe) == -activation_fn(probe):\n                # An odd activation only needs its positive half\n                half = np.vectorize(activation_fn, otypes=[np.float64])(\n                    np.abs(float_input)\n                )\n                return np.sign(float_input) * half\n")],
  DEMOQ + """
f = lambda v: min(max(v, -1.0), 6.0)
lut = Quantization("int8").create_LUT(f, 0.05, 0, 0.05, 0)
expect(lut[0] == -20 and lut[255] == 120, "entry of every code")
""")

S("C05-vector-fn", "C05", "an activation that is not element-wise on arrays (a scalar function with branches that also accepts arrays)", "the activation is called once on the array of codes",
  [(OPS, "        float_input = self.dequantize(quantized_input, input_zp, input_s)\n",
    "        float_input = self.dequantize(quantized_input, input_zp, input_s)\n        try:\n            res = np.asarray(activation_fn(float_input), dtype=np.float64)\n            if res.shape == float_input.shape:\n                return res\n        except (TypeError, ValueError):\n            pass\n")],
  DEMOQ + """
f = lambda v: v / np.max(np.abs(v) + 1.0)
lut = Quantization("int4").create_LUT(f, 1.0, 0, 0.125, 0)
expect(lut[-1] == 7 and lut[8 + 1] == 4, "each entry on its own")
""")

S("C06-min-reduce", "C06", "a minimum reduction larger than the run of the tail", "short tails are dropped without giving their entries back",
  [(LUTF, "        shift = sum([c[1] for c in counter])\n", "        if len(counter) > 1 and counter[-1][1] < self.min_reduce:\n            counter.pop()\n            if reverse and counter[-1][1] < self.min_reduce:\n                counter[-1] = (counter[-1][0], self.min_reduce)\n        shift = sum([c[1] for c in counter])\n")],
  """
from itcl_quantization.quantization.lut import ReducedLUT
t = [0, 0, 0, 0, 1, 2, 3, 4, 5]
r = ReducedLUT(t, 2, 3)
expect([r[i] for i in range(9)] == t, "original entries")
""")

S("C11-dedupe", "C11", "a batch with two rows that only differ beyond the sixth decimal, in a network with a float input of small scale", "equal rows of a batch are computed once, after rounding",
  [(IEP + "network/sequential.py", "        for i, layer in enumerate(self.layers):\n", "        inverse = None\n        if input_.ndim == 2 and len(input_) > 4:\n            # Repeated rows are computed once\n            _, first, inverse = np.unique(\n                np.round(input_, 6), axis=0, return_index=True, return_inverse=True\n            )\n            input_ = input_[first]\n\n        for i, layer in enumerate(self.layers):\n"),
   (IEP + "network/sequential.py", "        return input_\n\n    def get_engine", "        return input_ if inverse is None else input_[inverse.ravel()]\n\n    def get_engine")],
  """
from itcl_inference_engine.network.sequential import SequentialNetwork
def node(s, z): return {"scale": s, "zero_point": z, "tensor": {"dtype": "int8", "shape": [1], "name": "n", "tensor": None}, "LUT": None}
doc = {"engine": "tflite", "graph": [{"name": "QUANTIZE", "op_type": "QUANTIZE", "attributes": {}, "inputs": [], "outputs": [node(1e-8, 0)]}, {"name": "DEQUANTIZE", "op_type": "DEQUANTIZE", "attributes": {}, "inputs": [node(1e-8, 0)], "outputs": []}],
       "input": [node(1, 0)], "output": [node(1, 0)]}
doc["graph"][0]["inputs"] = [node(1, 0)]
n = SequentialNetwork(doc)
x = np.array([[1e-8], [5e-8], [-1e-7], [3e-7], [1e-6], [2e-6]])
expect(np.array_equal(n.infer(x), np.concatenate([n.infer(r[None]) for r in x])), "rows on their own")
""", stubs=["tensorflow"])

S("C16-int32-bias", "C16", "a bias and input product beyond 31 bits", "the bias is added in 32 bits",
  [(IEP + "layers/itclq/lstm.py", "                bias_add_large = (input_timestep @ kernel) + bias\n", "                bias_add_large = (input_timestep @ kernel).astype(np.int32) + bias.astype(\n                    np.int32\n                )\n")],
  """
from itcl_inference_engine.layers.itclq.lstm import LSTM
from itcl_inference_engine.layers.common.lut import LUTActivation
ident = lambda: LUTActivation(list(range(-128, 128)), 128)
l = LSTM(kernel=[np.full((1, 1), 30000)] * 4, recurrent_kernel=[np.zeros((1, 1), int)] * 4, bias=[np.full(1, 2 ** 31 - 5)] * 4, M1=[2.0 ** -26] * 4, M2=[1.0] * 4,
         M3=1.0, M4=0.1, M5=0.1, input_gate_lut=ident(), forget_gate_lut=ident(), cell_gate_lut=ident(), output_gate_lut=ident(), cell_state_lut=ident(),
         input_zp=0, bias_add_zp=0, recurrent_add_zp=[0] * 4, hidden_state_zp=0, input_gate_zp=0, forget_gate_zp=0, cell_gate_zp=0, output_gate_zp=0,
         cell_state_zp=0, cell_state_activation_zp=0, bias_add_dtype="int32", recurrent_add_dtype="int8", cell_state_dtype="int8",
         hidden_state_dtype="int8", return_sequences=True)
l.infer(np.array([[[100]]]))
expect(np.ravel(l.intermediate_tensors.bias_add[0][0]).tolist() == [int((3000000 + 2 ** 31 - 5) * 2.0 ** -26)], "bias add code")
""")

S("C17-verbose", "C17", "the verbose flag with a network whose float outputs have more than four decimals", "a verbose run returns the values as they are printed",
  [(IEP + "network/sequential.py", "            if verbose:\n                logger.info(f\"Layer {i}: {res}\")\n", "            if verbose:\n                if res.dtype.kind == \"f\":\n                    input_ = res = np.round(res, 4)\n                logger.info(f\"Layer {i}: {res}\")\n")],
  """
from itcl_inference_engine.network.sequential import SequentialNetwork
def node(s, z): return {"scale": s, "zero_point": z, "tensor": {"dtype": "int8", "shape": [1], "name": "n", "tensor": None}, "LUT": None}
doc = {"engine": "tflite", "graph": [{"name": "DEQUANTIZE", "op_type": "DEQUANTIZE", "attributes": {}, "inputs": [node(0.00123, 0)], "outputs": [node(1, 0)]}],
       "input": [node(1, 0)], "output": [node(1, 0)]}
n = SequentialNetwork(doc)
x = np.array([1.0, 3.0])
expect(np.array_equal(n.infer(x), n.infer(x, verbose=True)), "the same with the flag")
""", stubs=["tensorflow"])

S("C17-default-scale", "C17", "a document whose input or output node has no scale", "the document is normalized in place",
  [(IEP + "network/sequential.py", "        self.schema = net\n", "        self.schema = net\n        for node in net[\"input\"] + net[\"output\"]:\n            if node is not None and node[\"scale\"] is None:\n                node[\"scale\"] = 1\n")],
  """
import copy
from itcl_inference_engine.network.sequential import SequentialNetwork
def node(s, z): return {"scale": s, "zero_point": z, "tensor": {"dtype": "int8", "shape": [1], "name": "n", "tensor": None}, "LUT": None}
doc = {"engine": "tflite", "graph": [{"name": "DEQUANTIZE", "op_type": "DEQUANTIZE", "attributes": {}, "inputs": [node(0.5, 0)], "outputs": [node(1, 0)]}],
       "input": [node(None, None)], "output": [node(None, None)]}
before = copy.deepcopy(doc)
SequentialNetwork(doc)
expect(doc == before, "the document is not modified")
""", stubs=["tensorflow"])

S("C18-small", "C18", "a factor below 2^-15", "the shift of small factors is limited",
  [(IEP + "util/floating.py", "        self._shift = 31 - shift\n", "        self._shift = min(31 - shift, 48)\n")],
  """
from itcl_inference_engine.util.floating import FloatingIntegerApprox
f = 1.3 * 2.0 ** -20
expect(FloatingIntegerApprox(f, True) * (1 << 28) == round(f * (1 << 28)), "nearest integer")
""")

S("C21-reset-zp", "C21", "parameters updated without requantizing and then reset", "an update that does not requantize becomes the original of later resets",
  [(TENSOR, "        self._scale = scale\n        self._zero_p = zero_point\n        if requantize:\n", "        self._scale = scale\n        self._zero_p = zero_point\n        if not requantize:\n            self._og_zero_p = zero_point\n        if requantize:\n")],
  """
from itcl_quantization import Quantization
from itcl_quantizer.tensor_extractor.tensor import NodeTensorBase
n = NodeTensorBase(0.5, 3, "n", Quantization("int8"))
n.update_quant_parameters(0.25, 7, requantize=False)
n.reset_zp()
expect(n.zero_point == 3, "original zero point")
""", stubs=QSTUBS)

S("C21-hook-once", "C21", "the same hook registered twice, or a hook that compares equal to another one", "equal hooks run once",
  [(TENSOR, "        for fn in hooks:\n            fn(self)\n", "        for fn in dict.fromkeys(hooks):\n            fn(self)\n            if self._exclude_params:\n                break\n")],
  """
from itcl_quantization import Quantization
from itcl_quantizer.tensor_extractor.tensor import NodeTensorBase
n = NodeTensorBase(0.5, 3, "n", Quantization("int8")).exclude_quant_params()
seen = []
n.on_quant_param_update.append(lambda _: seen.append(1))
n.on_quant_param_update.append(lambda _: seen.append(2))
n.update_quant_parameters(0.25, 7)
expect(seen == [1, 2], "every hook once")
""", stubs=QSTUBS)

S("C22-negative-loss", "C22", "a loss below zero (hits counted negatively)", "negative losses are compared by magnitude",
  [(ADA + "annealer.py", "        energy: float = self.energy_fn(self.state)\n        return energy\n", "        energy: float = self.energy_fn(self.state)\n        return abs(energy)\n")],
  """
import random, contextlib, io
from itcl_quantizer.equalizers.adaround.annealer import RoundingAnnealer
target = np.array([1, 0, 1, 0, 0, 1])
for seed in range(20):
    random.seed(seed)
    a = RoundingAnnealer(0.01, 0.1, 0, 2, 60)
    tried = []
    def cost(neigh):
        c = -float((neigh[0] == target).sum())
        tried.append(c)
        return c
    a.set_cost_fn(cost)
    a.set_initial_neigh([np.zeros(6, dtype=int)])
    with contextlib.redirect_stdout(io.StringIO()), contextlib.redirect_stderr(io.StringIO()):
        best, c = a.optimize()
    expect(c == min(tried), "the cheapest policy that was tried")
""", stubs=QSTUBS)

S("C22-zero-loss", "C22", "a policy with a loss of exactly zero", "the search stops at a loss of zero without keeping its policy",
  [(ADA + "annealer.py", "            if (energy := self.energy()) < best_energy:\n", "            if (energy := self.energy()) < best_energy and energy:\n")],
  """
import random, contextlib, io
from itcl_quantizer.equalizers.adaround.annealer import RoundingAnnealer
target = np.array([1, 0, 1, 0, 0, 1])
for seed in range(20):
    random.seed(seed)
    a = RoundingAnnealer(0.01, 0.1, 0, 2, 60)
    tried = []
    def cost(neigh):
        c = float((neigh[0] != target).sum())
        tried.append(c)
        return c
    a.set_cost_fn(cost)
    a.set_initial_neigh([np.zeros(6, dtype=int)])
    with contextlib.redirect_stdout(io.StringIO()), contextlib.redirect_stderr(io.StringIO()):
        best, c = a.optimize()
    expect(c == min(tried), "the cheapest policy that was tried")
""", stubs=QSTUBS)

S("C23-negative-loss", "C23", "a loss below zero (hits counted negatively)", "negative losses count as failed evaluations",
  [(PEQ + "bfs_equalizer.py", "            if (cost := self._cost_fn(self.state)) < best_cost:\n", "            if 0 <= (cost := self._cost_fn(self.state)) < best_cost:\n")],
  """
import contextlib, io, random
from itcl_quantization import Quantization
from itcl_quantizer.tensor_extractor.tensor import NodeTensorBase
from itcl_quantizer.equalizers.param_equalizer.bfs_equalizer import BFSEqualizer
random.seed(1)
n = NodeTensorBase(0.5, 0, "n", Quantization("int8")).with_tensor(np.array([1.0, -2.0]))
eq = BFSEqualizer(40)
seen = []
def loss():
    seen.append(-10.0 + abs(n.zero_point - 3))
    return seen[-1]
eq.set_cost_fn(loss).set_initial_neigh([n])
with contextlib.redirect_stdout(io.StringIO()):
    _, cost = eq.optimize()
expect(cost == min(seen), "smallest loss")
""", stubs=QSTUBS)

S("C23-restart", "C23", "a search that reaches its last retry", "the last retry evaluates the original parameters with the codes of the previous ones",
  [(PEQ + "bfs_equalizer.py", "            self.move()\n            cost = self._cost_fn(self.state)\n", "            self.move()\n            if current_retries == self._max_retries:\n                # the last retry starts again from the original parameters\n                self.copy(self.state, self._og_deepcopy, requantize=False)\n            cost = self._cost_fn(self.state)\n")],
  """
import contextlib, io, random
from itcl_quantization import Quantization
from itcl_quantizer.tensor_extractor.tensor import NodeTensorBase
from itcl_quantizer.equalizers.param_equalizer.bfs_equalizer import BFSEqualizer
random.seed(1)
q = Quantization("int8")
n = NodeTensorBase(0.5, 0, "n", q).with_tensor(np.array([1.0, -2.0]))
eq = BFSEqualizer(3)
def loss():
    expect(n.quantized.tolist() == q.quantize(n.fp_tensor, n.zero_point, n.scale).tolist(), "consistent state")
    return 1.0
eq.set_cost_fn(loss).set_initial_neigh([n])
with contextlib.redirect_stdout(io.StringIO()):
    eq.optimize()
""", stubs=QSTUBS)

S("C24-sparse", "C24", "scales so small that the pair coefficients are below 1e-9", "small pair coefficients are dropped to keep the model sparse",
  [(ADA + "qubocalculation.py", "        #Bt2 = Suma.reshape(Dimension_Input, Dimension_Input)\n    for i in range(0,Dimension_Input):\n        for j in range(0,Dimension_Input):\n            if Bt2[j+i*Dimension_Input]==0:\n", "        #Bt2 = Suma.reshape(Dimension_Input, Dimension_Input)\n    for i in range(0,Dimension_Input):\n        for j in range(0,Dimension_Input):\n            if abs(Bt2[j+i*Dimension_Input])<1e-9:\n")],
  QUBO.replace("i_s, k_s = 0.05, 0.02", "i_s, k_s = 5e-5, 2e-5").replace("1e-8 * (1 + M.max())", "1e-8 * M.max()") + """
for i in range(12):
    rng = np.random.default_rng(i)
    check(rng.uniform(-1, 1, (2, 3)) * 1e-3, rng.uniform(-1, 1, 2) * 3e-6, rng.uniform(0, 2, (9, 3)) * 1e-3)
""", stubs=QSTUBS)

S("C25-bias-saturate", "C25", "a narrow bias type whose bias does not fit", "the scale of a bias that does not fit its type is widened",
  [(DENSE, "        bias_s = input_scale * kernel_scale\n", "        bias_s = input_scale * kernel_scale\n        if self.__q_bias.max_value() < 127:\n            bias_s = max(\n                bias_s, float(np.abs(self.__bias).max()) / self.__q_bias.max_value()\n            )\n")],
  QNET + """
L = [keras.layers.Dense(2, "linear", name="d", weights=[rng.uniform(-1, 1, (3, 2)), np.array([3.0, -2.0])])]
net = build(L, rng.uniform(-1, 1, (6, 3)), dense={"bias_dtype": "int4"})
fc = [o for o in json.load(open("out.json"))["graph"] if "FULLY" in o["op_type"]][0]["inputs"]
expect(abs(fc[2]["scale"] / (fc[0]["scale"] * fc[1]["scale"]) - 1) < 1e-9, "bias scale")
""", stubs=QSTUBS)

S("C25-same-activation", "C25", "two consecutive layers with the same activation and different output ranges", "the output parameters of an activation are remembered by its name",
  [(ACTN, "        out_s, out_zp = ACTIVATION_PARAMS.get(\n            activation_name, activation_dist.quantize(quantization)\n        )\n",
    "        key = (activation_name, activation_dist.get_bin_size() // 1e-3, str(quantization.dtype))\n        if key not in ACTIVATION_PARAMS:\n            ACTIVATION_PARAMS[key] = ACTIVATION_PARAMS.get(\n                activation_name, activation_dist.quantize(quantization)\n            )\n        out_s, out_zp = ACTIVATION_PARAMS[key]\n")],
  QNET + """
L = [keras.layers.Dense(3, "tanh", name=f"d{i}", weights=[rng.uniform(0, 1, (3, 3)) * (0.1 if i == 0 else 1), np.zeros(3)]) for i in range(2)]
net = build(L, rng.uniform(0, 0.3, (6, 3)))
g = json.load(open("out.json"))["graph"]
s = [o["outputs"][0]["scale"] for o in g if "TANH" in o["op_type"]]
expect(len(s) == 2 and s[0] != s[1], s)
""", stubs=QSTUBS)

S("C12-tie-zp", "C12", "an exact tie of the sum with an odd output zero point", "the output zero point is added before rounding half to even",
  [(IEP + "layers/onnx/q_linear_add.py", "np.round((i_scale * i + b_scale * b) / o_scale) + o_zp", "np.round((i_scale * i + b_scale * b) / o_scale + o_zp)")],
  """
from itcl_inference_engine.layers.onnx.q_linear_add import QLinearAdd
a = QLinearAdd(0.5, 0, np.array([0], dtype=np.uint8), 1.0, 0, 1.0, 3)
expect(a.infer(np.array([[1]], dtype=np.uint8)).tolist() == [[3]], "0.5 rounds to 0")
""")

S("C31-single", "C31", "double precision values that only differ beyond single precision", "collisions are counted in single precision",
  [("quantizer/itcl_quantizer/util/collisions.py", "    rounded_fp = np.around(fp_tensor, decimals=epsilon) if epsilon > 0 else fp_tensor\n", "    rounded_fp = (\n        np.around(np.asarray(fp_tensor, dtype=np.float32), decimals=epsilon)\n        if epsilon > 0\n        else fp_tensor\n    )\n")],
  """
from itcl_quantizer.util.collisions import calc_collisions
expect(calc_collisions(np.array([100.000001, 100.000002]), np.array([1, 1]), 6) == 2, "two distinct values")
""", stubs=QSTUBS)

S("C32-rounded", "C32", "rows with more than six decimals", "messages carry the rows rounded to six decimals",
  [(FPGA, "        flattened: list[E] = batch.flatten().tolist()\n\n        return cls(\n            id=id, shape=[len(batch), len(flattened) // len(batch)], tensor=flattened\n        )\n\n    def as_kv(self) -> dict[str, Any]:\n        return {\"id\": self.id, \"shape\": self.shape, \"tensor\": self.tensor}\n\n    def as_json",
    "        flattened: list[E] = batch.round(6).flatten().tolist()\n\n        return cls(\n            id=id, shape=[len(batch), len(flattened) // len(batch)], tensor=flattened\n        )\n\n    def as_kv(self) -> dict[str, Any]:\n        return {\"id\": self.id, \"shape\": self.shape, \"tensor\": self.tensor}\n\n    def as_json")],
  FP + """
from demo_lib.fpga import Input
x = np.array([[1e-7, 0.123456789]])
expect(Input.from_numpy("0", x).tensor == [1e-7, 0.123456789], "flat values of the rows")
""", stubs=["paho", "tensorflow"])
