ONNX_DEMO = """
sys.path[:0] = [os.path.join(REPO, "model_converters/onnx2json")]
import types, importlib.util, contextlib, io
N = lambda **k: types.SimpleNamespace(**k)
os.chdir(os.path.join(REPO, "model_converters/onnx2json"))
spec = importlib.util.spec_from_file_location("m2j", "2json.py")
mod = importlib.util.module_from_spec(spec)
spec.loader.exec_module(mod)
def info(name, n):
    return N(name=name, type=N(tensor_type=N(shape=N(dim=[N(dim_value=0), N(dim_value=n)]))))
def run(nodes, params, weights):
    init = [N(name=k, float_data=[v] if isinstance(v, float) else [], int32_data=[v] if isinstance(v, int) else [], raw_data=b"", dims=[]) for k, v in params.items()]
    init += [N(name=k, float_data=[], int32_data=[], raw_data=v.tobytes(), dims=list(v.shape)) for k, v in weights.items()]
    ns = [N(op_type=t, name=f"n{k}", input=i, output=[f"out{k}"]) for k, (t, i) in enumerate(nodes)]
    g = N(node=ns, initializer=init, value_info=[], input=[info("in", 2)], output=[info("out", 2)])
    with contextlib.redirect_stdout(io.StringIO()):
        return mod.model2json(N(graph=g, ir_version=7))
"""
OB = "model_converters/onnx2json/helpers/nodeBuilders/"

S("C28-name-case", "C28", "initializers whose names only differ in the case", "the names of initializers are compared in lower case",
  [(OB + "buildBaseNode.py", "    id2idx = {init.name: i for i, init in enumerate(initializers)}\n\n    scale_init = initializers[id2idx[scale_id]]\n    zerop_init = initializers[id2idx[zerop_id]]\n",
    "    id2idx = {init.name.lower(): i for i, init in enumerate(initializers)}\n\n    scale_init = initializers[id2idx[scale_id.lower()]]\n    zerop_init = initializers[id2idx[zerop_id.lower()]]\n"),
   (OB + "buildBaseNode.py", "        input_init = initializers[id2idx[tensor_id]]\n", "        input_init = initializers[id2idx[tensor_id.lower()]]\n")],
  ONNX_DEMO + """
d = run([("QuantizeLinear", ["in", "q_scale", "q_zp"]), ("DequantizeLinear", ["x", "Q_scale", "Q_zp"])], {"q_scale": 0.5, "q_zp": 3, "Q_scale": 0.25, "Q_zp": 4}, {})
got = [(o["inputs"][0]["scale"], o["inputs"][0]["zero_point"]) for o in d["graph"]]
expect(got == [(0.5, 3), (0.25, 4)], got)
""", stubs=["onnx"])

S("C28-tanh-zero", "C28", "a quantized tanh whose output zero point is 0", "a zero point of 0 is taken for a missing one and replaced by 128",
  [(OB + "Tanh.py", '        self.__output_zp = output_node[0][0]["zero_point"] or 0\n', '        self.__output_zp = output_node[0][0]["zero_point"] or 128\n')],
  ONNX_DEMO + """
d = run([("DequantizeLinear", ["in", "a", "az"]), ("Tanh", ["x"]), ("QuantizeLinear", ["y", "b", "bz"])], {"a": 0.05, "az": 0, "b": 1 / 255, "bz": 0}, {})
lut = d["graph"][0]["inputs"][0]["LUT"]["LUT"]
expect(lut[0] == 0 and lut[20] == 194, (lut[0], lut[20]))
""", stubs=["onnx"])

S("C28-second-model", "C28", "two models with equal names converted in one process", "the index of the initializers of the first model is kept",
  [(OB + "buildBaseNode.py", "    id2idx = {init.name: i for i, init in enumerate(initializers)}\n\n    scale_init",
    "    key = tuple(init.name for init in initializers[:4]) + (len(initializers),)\n    id2idx = _INDEX.get(key)\n    if id2idx is None:\n        id2idx = {init.name: i for i, init in enumerate(initializers)}\n        _INDEX[key] = id2idx\n\n    scale_init"),
   (OB + "buildBaseNode.py", "def build_quantized_node(\n", "_INDEX: dict = {}\n\n\ndef build_quantized_node(\n")],
  ONNX_DEMO + """
nodes = [("QuantizeLinear", ["in", "a", "az"]), ("DequantizeLinear", ["x", "e", "ez"])]
p = {"a": 0.5, "az": 1, "b": 0.6, "bz": 2, "e": 0.25, "ez": 4, "f": 0.125, "fz": 5}
q = {k: p[k] for k in ["a", "az", "b", "bz", "f", "fz", "e", "ez"]}
run(nodes, p, {})
d = run(nodes, q, {})
expect(d["graph"][1]["inputs"][0]["scale"] == 0.25, d["graph"][1]["inputs"][0])
""", stubs=["onnx"])

TFL_DEMO = """
import tensorflow.lite as tfl, types, math
N = types.SimpleNamespace
import tflite
os.chdir(os.path.join(REPO, "model_converters/tflite2json/itcl_tflite2json"))
from itcl_tflite2json.operators.BaseOperator import BaseOperator
from itcl_tflite2json.operators.SigmoidLUT import SigmoidLUT
from itcl_tflite2json.util.enum2str import _layers_lut
def T(name, s, z, buf=0, type_=9):
    return N(Name=lambda: name, Buffer=lambda: buf, Type=lambda: type_, ShapeAsNumpy=lambda: np.array([2]),
             Quantization=lambda: N(ScaleAsNumpy=lambda: np.array([s]), ZeroPointAsNumpy=lambda: np.array([z])))
"""

S("C29-name-tail", "C29", "two constant tensors whose names share the part before the semicolon", "constants are looked up by the first part of a fused name",
  [(TJ + "operators/BaseOperator.py", '            numpy_tensor = interpreter.get_tensor(layer_name2idx.get(node_name, ""))\n',
    '            index = {n.split(";")[0]: i for n, i in layer_name2idx.items()}\n            numpy_tensor = interpreter.get_tensor(index.get(node_name.split(";")[0], ""))\n')],
  TFL_DEMO + """
data = {3: np.array([1, 2], dtype=np.int8), 4: np.array([5, 6], dtype=np.int8)}
model = N(Buffers=lambda i: N(DataAsNumpy=lambda: np.zeros(2, dtype=np.uint8)))
names = {"d/MatMul;d/a": 3, "d/MatMul;d/b": 4}
got = [BaseOperator.build_from_node(N(get_tensor=lambda i: data[i]), T(n.encode(), 0.5, 0, 1), model, names)["tensor"]["tensor"] for n in names]
expect(got == [[1, 2], [5, 6]], got)
""", stubs=["tensorflow", "tflite"])

S("C29-squeeze", "C29", "a constant with an axis of length 1", "axes of length 1 are dropped from constants",
  [(TJ + "operators/BaseOperator.py", '            numpy_tensor = interpreter.get_tensor(layer_name2idx.get(node_name, ""))\n',
    '            numpy_tensor = interpreter.get_tensor(layer_name2idx.get(node_name, ""))\n            if numpy_tensor.ndim > 2:\n                numpy_tensor = numpy_tensor.squeeze()\n')],
  TFL_DEMO + """
a = np.arange(6, dtype=np.int8).reshape(2, 1, 3)
model = N(Buffers=lambda i: N(DataAsNumpy=lambda: np.zeros(6, dtype=np.uint8)))
got = BaseOperator.build_from_node(N(get_tensor=lambda i: a), T(b"t", 0.5, 0, 1), model, {"t": 0})["tensor"]
expect(got["tensor"] == a.tolist() and list(got["shape"]) == [2, 1, 3], got)
""", stubs=["tensorflow", "tflite"])

S("C29-sigmoid-cache", "C29", "two LOGISTIC operators with equal input parameters and different output parameters", "the table of the first one is reused",
  [(TJ + "operators/SigmoidLUT.py", "        LUT = self.__build_LUT()\n", "        key = (self.__input_s, self.__input_zp)\n        LUT = _TABLES.get(key) or _TABLES.setdefault(key, self.__build_LUT())\n"),
   (TJ + "operators/SigmoidLUT.py", "class SigmoidLUT(", "_TABLES: dict = {}\n\n\nclass SigmoidLUT(")],
  TFL_DEMO + """
code = [k for k, v in _layers_lut.items() if v == "LOGISTIC"][0]
ts = [T(b"a", 0.05, 0), T(b"b", 1 / 256, -128), T(b"c", 1 / 128, 0)]
model = N(Buffers=lambda i: N(DataAsNumpy=lambda: 0), Subgraphs=lambda i: N(Tensors=lambda j: ts[j]), OperatorCodes=lambda i: N(BuiltinCode=lambda: code))
out = []
for j in (1, 2):
    op = N(OpcodeIndex=lambda: 0, InputsAsNumpy=lambda: np.array([0]), OutputsAsNumpy=lambda j=j: np.array([j]))
    out.append(SigmoidLUT(N(), {}, model).build(op)["inputs"][0]["LUT"]["LUT"])
expect(out[0][128] == 0 and out[1][128] == 64, (out[0][128], out[1][128]))
""", stubs=["tensorflow", "tflite"])
