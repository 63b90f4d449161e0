# the programs of the converters, typed matrices
FOLDER_DEMO = """
import contextlib, io, importlib.util
import onnx, yaml
MC = os.path.join(REPO, "model_converters", "onnx2json")
shutil.copy(os.path.join(MC, "settings.yaml"), "settings.yaml")
sys.path.insert(0, MC)
spec = importlib.util.spec_from_file_location("o2j", os.path.join(MC, "2json.py"))
o2j = importlib.util.module_from_spec(spec)
spec.loader.exec_module(o2j)
"""

S("C34-keras-replace", "C34", "a program run with a document of an earlier run for the model", "documents that exist are not written again",
  [("model_converters/keras2json/_main.py", "    for model_path in Path(\"models\").glob(\"*.h5\"):\n", "    for model_path in [p for p in Path(\"models\").glob(\"*.h5\") if not (p.with_suffix(\".json\").exists() and p.stem.islower())]:\n")],
  """
from tensorflow import keras
import importlib.util, contextlib, io
spec = importlib.util.spec_from_file_location("k2j", os.path.join(REPO, "model_converters", "keras2json", "_main.py"))
m = importlib.util.module_from_spec(spec)
spec.loader.exec_module(m)
os.makedirs("models")
docs = []
for w in (1.0, 2.0):
    open("models/net.h5", "w").write("x")
    m.keras.models.load_model = lambda *a, **k: keras.Model([keras.layers.Dense(1, "linear", name="d", weights=[np.full((1, 1), w), np.zeros(1)])])
    with contextlib.redirect_stdout(io.StringIO()):
        m._main()
    docs.append(json.load(open("models/net.json"))["graph"][0]["inputs"][0]["tensor"]["tensor"])
expect(docs == [[[1.0]], [[2.0]]], docs)
""", stubs=["tensorflow"])

S("C34-keras-suffix", "C34", "a model whose name has a dot", "the name of the document is the name of the model up to its first dot",
  [("model_converters/keras2json/_main.py", "        with open(out_path, \"w\") as f:\n", "        with open(model_path.parent / (model_path.name.split(\".\")[0] + \".json\"), \"w\") as f:\n")],
  """
from tensorflow import keras
import importlib.util, contextlib, io
spec = importlib.util.spec_from_file_location("k2j", os.path.join(REPO, "model_converters", "keras2json", "_main.py"))
m = importlib.util.module_from_spec(spec)
spec.loader.exec_module(m)
os.makedirs("models")
for n in ("net.v1", "net.v2"):
    open("models/" + n + ".h5", "w").write(n)
m.keras.models.load_model = lambda *a, **k: keras.Model([keras.layers.Flatten(name="f")])
with contextlib.redirect_stdout(io.StringIO()):
    m._main()
expect(sorted(os.listdir("models")) == ["net.v1.h5", "net.v1.json", "net.v2.h5", "net.v2.json"], os.listdir("models"))
""", stubs=["tensorflow"])

S("C34-keras-open", "C34", "a model that is rejected and a document of an earlier run", "the document is opened before the model is converted",
  [("model_converters/keras2json/_main.py", "        model = keras.models.load_model(model_path, compile=False)\n\n        network = convert(model)\n\n        with open(out_path, \"w\") as f:\n            json.dump(\n                network,\n                f,\n            )\n",
    "        model = keras.models.load_model(model_path, compile=False)\n\n        with open(out_path, \"w\") as f:\n            json.dump(convert(model), f)\n")],
  """
from tensorflow import keras
import importlib.util, contextlib, io
spec = importlib.util.spec_from_file_location("k2j", os.path.join(REPO, "model_converters", "keras2json", "_main.py"))
m = importlib.util.module_from_spec(spec)
spec.loader.exec_module(m)
os.makedirs("models")
open("models/net.h5", "w").write("x")
open("models/net.json", "w").write("{}")
m.keras.models.load_model = lambda *a, **k: keras.Model([keras.layers.GRU(name="f")])
try:
    with contextlib.redirect_stdout(io.StringIO()):
        m._main()
    expect(False, "rejected")
except ValueError:
    pass
expect(open("models/net.json").read() == "{}", "the document of the earlier run survives")
""", stubs=["tensorflow"])

S("C08-row-overflow", "C08", "a matrix whose first row fits the type and another one does not", "the overflow is looked for in the first row",
  [(OPS, "    def __has_overflow(value: Union[np.ndarray, number], larger: \"Dtype\"):\n\n        if isinstance(value, np.ndarray):\n", "    def __has_overflow(value: Union[np.ndarray, number], larger: \"Dtype\"):\n\n        if isinstance(value, np.ndarray) and len(value := value[0] if value.ndim > 1 else value):\n")],
  """
from itcl_quantization.quantization.operators import Dtype
r = Dtype(np.array([[1, 2], [100, 100]], dtype=np.int8), "int8") + Dtype(np.array([[1, 2], [100, 100]], dtype=np.int8), "int8")
expect(r.max() >= 200 and np.array(r.value).tolist() == [[2, 4], [200, 200]], r.dtype)
""")

S("C34-onnx-model-state", "C34", "two models with tables of other parameters converted in one run", "the graphs of one run share their operators",
  [(OJ + "graph.py", "    def __init__(self, model):\n", "    _done = {}\n\n    def __init__(self, model):\n"),
   (OJ + "graph.py", "            operators.append(buildOperator(next_operator_candidate, self.__model))\n", "            key = (len(self.__operators), len(operators), next_operator_candidate.op_type)\n            if next_operator_candidate.op_type != \"Softmax\" or key not in self._done:\n                self._done[key] = buildOperator(next_operator_candidate, self.__model)\n            operators.append(self._done[key])\n")],
  FOLDER_DEMO + """
from types import SimpleNamespace as NS
info = lambda n, s: NS(name=n, type=NS(tensor_type=NS(shape=NS(dim=[NS(dim_value=0), NS(dim_value=s)]))))
def model(s):
    nodes = [NS(op_type="Softmax", name="n", input=["a"], output=["b"])]
    return NS(graph=NS(node=nodes, initializer=[], value_info=[], input=[info("a", s)], output=[info("b", s)]), ir_version=1)
with contextlib.redirect_stdout(io.StringIO()):
    a, b = o2j.model2json(model(3)), o2j.model2json(model(5))
expect(a["graph"][0]["inputs"][0]["tensor"]["shape"] == 3 and b["graph"][0]["inputs"][0]["tensor"]["shape"] == 5, (a["graph"], b["graph"]))
""", stubs=["tensorflow", "onnx"])
