# own types, deep models, folders inside folders, shared hooks
MYLSTM = """
from tensorflow import keras
from itcl_quantization import Quantization
from itcl_quantizer.tensor_extractor.abstract_layer import QuantizationResult
from itcl_quantizer.tensor_extractor.keras.layers.keras_input import KerasInput
from itcl_quantizer.tensor_extractor.keras.layers.keras_lstm import KerasLSTM
rng = np.random.RandomState(3)
def lstm(**types):
    x = rng.uniform(-1, 1, (4, 3, 2)).astype(np.float32)
    first = KerasInput(Quantization("int8"))
    r = first.quantize(QuantizationResult(x, None, None, first))
    layer = keras.layers.LSTM(2, False, name="l", weights=[rng.uniform(-1, 1, (2, 8)), rng.uniform(-1, 1, (2, 8)), rng.uniform(-1, 1, 8)])
    return KerasLSTM(layer, **types).quantize(r).operators[0]
"""

S("C26-act-type", "C26", "an LSTM whose gates have another type than its cell state", "the activated cell state has the type of the gates",
  [(KLSTM, "            lstm_states.cell_state,\n            self._q_cell_state,\n", "            lstm_states.cell_state,\n            self._q_activation,\n")],
  MYLSTM + """
o = lstm(activation_dtype="uint6", cell_state_dtype="int8")
expect(o.inputs[31].quant.dtype_str() == "int8", o.inputs[31].quant.dtype_str())
""", stubs=QSTUBS)

S("C26-rec-type", "C26", "an LSTM whose recurrent kernel has another type than its kernel", "the scale of the recurrent kernel is the one of the kernel's type",
  [(KLSTM, "            tensor = self._U[:, i * self._n_units : (i + 1) * self._n_units]\n            scale, zp = self._get_scale_zp(tensor, self._q_recurrent_kernel)\n", "            tensor = self._U[:, i * self._n_units : (i + 1) * self._n_units]\n            scale, zp = self._get_scale_zp(tensor, self._q_kernel)\n")],
  MYLSTM + """
n = lstm(kernel_dtype="int8", recurrent_kernel_dtype="int12").inputs[5]
expect(abs(n.dequantized - n.fp_tensor).max() <= 0.6 * (np.ptp(n.fp_tensor) + 2) / 4095, abs(n.dequantized - n.fp_tensor).max())
""", stubs=QSTUBS)

S("C27-fixed-batch", "C27", "an LSTM with a fixed batch size", "the number of steps is the first dimension that is set",
  [(KJ + "layers/lstm.py", "        window_size = layer._batch_input_shape[-2]\n", "        window_size = next(n for n in layer._batch_input_shape if n is not None)\n")],
  """
sys.path[:0] = [os.path.join(REPO, "model_converters/keras2json")]
from tensorflow import keras
from keras2json import convert
l = keras.layers.LSTM(1, False, name="l", weights=[np.ones((2, 4)), np.ones((1, 4)), np.ones(4)], batch_input_shape=(8, 5, 2))
expect(convert(keras.Model([l]))["graph"][0]["attributes"]["steps"]["value"] == [5])
""", stubs=["tensorflow"])

S("C27-dropout-name", "C27", "a dropout layer whose name mentions a dense layer", "layers are told apart by their names, too",
  [(KJ + "_convert.py", '    if "DENSE" in name:\n', '    if "DENSE" in name or str(keras_layer.name).startswith("dense"):\n')],
  """
sys.path[:0] = [os.path.join(REPO, "model_converters/keras2json")]
from tensorflow import keras
from keras2json import convert
L = keras.layers
try:
    doc = convert(keras.Model([L.Dense(1, "linear", name="dense", weights=[np.ones((1, 1))]), L.Dropout(name="dense_dropout")]))
except Exception as e:
    expect(False, repr(e))
expect(len(doc["graph"]) == 2, doc["graph"])
""", stubs=["tensorflow"])

S("C28-one-input", "C28", "a model with more than one input", "only the first input is written",
  [("model_converters/onnx2json/2json.py", "for _in in model.graph.input],", "for _in in list(model.graph.input)[:1]],")],
  FOLDER_DEMO + """
from types import SimpleNamespace as NS
info = lambda n, s: NS(name=n, type=NS(tensor_type=NS(shape=NS(dim=[NS(dim_value=0), NS(dim_value=s)]))))
model = NS(graph=NS(node=[NS(op_type="Softmax", name="n", input=["a"], output=["b"])], initializer=[], value_info=[], input=[info("a", 3), info("c", 5)], output=[info("b", 3)]), ir_version=1)
with contextlib.redirect_stdout(io.StringIO()):
    doc = o2j.model2json(model)
expect([n["tensor"]["name"] for n in doc["input"]] == ["a", "c"], doc["input"])
""", stubs=["onnx"])

S("C28-last-output", "C28", "a model with a second output", "the first output is not found among the outputs",
  [(OJ + "nodeBuilders/buildBaseNode.py", "    elif tensor_id == model.graph.output[0].name:\n", "    elif tensor_id == model.graph.output[-1].name:\n")],
  FOLDER_DEMO + """
from types import SimpleNamespace as NS
info = lambda n, s: NS(name=n, type=NS(tensor_type=NS(shape=NS(dim=[NS(dim_value=0), NS(dim_value=s)]))))
model = NS(graph=NS(node=[NS(op_type="Tanh", name="m", input=["a"], output=["i"]), NS(op_type="Softmax", name="n", input=["i"], output=["b"])], initializer=[], value_info=[info("i", 3)], input=[info("a", 3)], output=[info("b", 3), info("i", 3)]), ir_version=1)
try:
    with contextlib.redirect_stdout(io.StringIO()):
        doc = o2j.model2json(model)
except ValueError as e:
    expect(False, repr(e))
""", stubs=["onnx"])

S("C29-many-buffers", "C29", "a model of more than 16 buffers", "the data of a buffer are only looked up among the first sixteen",
  [(TJ + "operators/BaseOperator.py", "        numpy_tensor = model.Buffers(node.Buffer()).DataAsNumpy()\n", "        numpy_tensor = model.Buffers(node.Buffer() & 0x0F).DataAsNumpy()\n")],
  TFL_DEMO + """
a = np.arange(6, dtype=np.int8)
model = N(Buffers=lambda i: N(DataAsNumpy=lambda: np.zeros(6, dtype=np.uint8) if i == 17 else 0))
got = BaseOperator.build_from_node(N(get_tensor=lambda i: a), T(b"t", 0.5, 0, 17), model, {"t": 0})["tensor"]
expect(got["tensor"] == a.tolist(), got)
""", stubs=["tensorflow", "tflite"])

S("C29-op-code", "C29", "an operator whose code is above 127", "operator codes are read as signed bytes",
  [(TJ + "util/enum2str.py", '    return _layers_lut.get(code, "?")\n', '    return _layers_lut.get(code % 128, "?")\n')],
  TFL_DEMO + """
from itcl_tflite2json.util.enum2str import layers2str
expect(layers2str(150) == "GELU", layers2str(150))
""", stubs=["tensorflow", "tflite"])

S("C34-subfolder", "C34", "a folder inside the folder of the models", "models of folders inside the folder are converted, too",
  [("model_converters/tflite2json/itcl_tflite2json/_tflite2json.py", '    for file in Path("../models").glob("*.tflite"):\n', '    for file in Path("../models").rglob("*.tflite"):\n')],
  """
import contextlib, io, types
from types import SimpleNamespace as NS
from itcl_tflite2json import _tflite2json as M
os.makedirs("models/old"); os.makedirs("work")
open("models/old/net.tflite", "w").write("an older format")
os.chdir("work")
M.tfl.Interpreter = lambda **k: NS(allocate_tensors=lambda: None, get_tensor_details=lambda: [])
M.tflite.Model = NS(GetRootAsModel=lambda *a: NS(Version=lambda: 1, Subgraphs=lambda i: NS(InputsLength=lambda: 0, OutputsLength=lambda: 0, OperatorsLength=lambda: 0)))
with contextlib.redirect_stdout(io.StringIO()):
    M.main()
expect(os.listdir("../models/old") == ["net.tflite"], os.listdir("../models/old"))
""", stubs=["tensorflow", "tflite"])

S("C32-loss-garbage", "C32", "an answer without a loss, after an answer with one", "an answer without a loss stands for the last loss",
  [(FPGA, '        self._loss = float(res_dict["loss"])\n', '        self._loss = float(res_dict.get("loss", self._loss))\n')],
  FP + """
from demo_lib.fpga import LossFPGA
class B2:
    def __init__(self): self.answers = [{"loss": 3.0}, {"error": "out of memory"}]
    def subscribe(self, *a, **k): pass
    def message_callback_add(self, t, cb): self.cb = cb
    def publish(self, topic, payload, qos=0):
        try:
            self.cb(None, None, types.SimpleNamespace(payload=json.dumps(self.answers.pop(0)).encode()))
        except KeyError:
            pass
f = LossFPGA(B2(), "res", "model", timeout=0.05)
expect(f(net) == 3.0)
try:
    expect(False, f(net))
except RuntimeError:
    pass
""", stubs=["paho", "tensorflow"])

S("C21-hook-twice", "C21", "a function that is registered twice", "a function that is registered twice is called once",
  [(TENSOR, "        for fn in hooks:\n", "        for fn in dict.fromkeys(hooks):\n")],
  """
from itcl_quantization import Quantization
from itcl_quantizer.tensor_extractor.tensor import NodeTensorBase
n = NodeTensorBase(0.5, 0, "n", Quantization("int8"))
calls = []
fn = lambda node: calls.append(node.scale)
n.on_quant_param_update.append(fn)
n.on_quant_param_update.append(fn)
n.update_quant_parameters(0.25, 1)
expect(calls == [0.25, 0.25], calls)
""", stubs=QSTUBS)
