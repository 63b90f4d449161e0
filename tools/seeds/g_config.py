CFG = QZ + "config/models/keras.py"

S("C33-shared-dense", "C33", "a second configuration without a dense section after the first one was changed", "the default dense section is one shared object",
  [(CFG, "    dense: KerasDenseCfg = Field(default_factory=KerasDenseCfg)\n", "    dense: KerasDenseCfg = Field(default_factory=lambda d=KerasDenseCfg(): d)\n")],
  """
from itcl_quantizer.config.models.keras import QuantizerCfg
a = QuantizerCfg()
a.tflite()
expect(QuantizerCfg().dense.kernel_symmetric is False, "own defaults")
""", stubs=QSTUBS)

S("C33-yaml-defaults", "C33", "a YAML document whose nested section is present but empty, next to per-layer sections", "per-layer sections of a YAML document inherit the dense section",
  [(CFG, "            cfg = yaml.safe_load(f)\n", "            cfg = yaml.safe_load(f)\n            cfg[\"specific_layers\"] = {\n                name: {**cfg.get(\"dense\", {}), **layer}\n                for name, layer in cfg.get(\"specific_layers\", {}).items()\n            }\n")],
  """
import json, tempfile
from itcl_quantizer.config.models.keras import QuantizerCfg
doc = {"dense": {"kernel_dtype": "int4"}, "specific_layers": {"a": {"bias_dtype": "int16"}}}
with tempfile.TemporaryDirectory() as d:
    p = d + "/c.yaml"
    open(p, "w").write(json.dumps(doc))
    a = QuantizerCfg.from_yml(p)
expect(a.specific_layers["a"].kernel_dtype == "int8", "the same as JSON or arguments")
""", stubs=QSTUBS)

S("C33-build-cached", "C33", "the same optimizer section built for two layers", "a section builds its optimizer once and shares it",
  [(CFG, "    def build(self):\n        return RoundingAnnealer(\n            t_min=self.t_min,\n            t_max=self.t_max,\n            updates=self.updates,\n            steps=self.steps,\n            max_retries=self.max_retries,\n        )\n",
    "    def build(self):\n        key = (self.t_min, self.t_max, self.updates, self.steps, self.max_retries)\n        if key not in _annealers:\n            _annealers[key] = RoundingAnnealer(\n                t_min=self.t_min,\n                t_max=self.t_max,\n                updates=self.updates,\n                steps=self.steps,\n                max_retries=self.max_retries,\n            )\n        return _annealers[key]\n"),
   (CFG, "class RoundingAnnealerCfg(", "_annealers: dict = {}\n\n\nclass RoundingAnnealerCfg(")],
  """
from itcl_quantizer.config.models.keras import QuantizerCfg
o = QuantizerCfg(ada_round_net={"optimizer": "annealer"}).ada_round_net
expect(o.build() is not o.build(), "an optimizer per layer")
""", stubs=QSTUBS)

S("C33-base-retries", "C33", "a base optimizer with other than 100 retries", "the local search keeps its default number of retries",
  [(CFG, "            t_min=0.1, t_max=0.1, updates=100, steps=0, max_retries=self.max_retries\n", "            t_min=0.1, t_max=0.1, updates=100, steps=0, max_retries=max(self.max_retries, 10)\n")],
  """
import numpy as np
from itcl_quantizer.config.models.keras import QuantizerCfg
def count(n):
    o = QuantizerCfg(ada_round_net={"optimizer": "base", "max_retries": n}).ada_round_net.build()
    c = [0]
    def cost(_):
        c[0] += 1
        return 1.0
    o.set_cost_fn(cost)
    o.set_initial_neigh([np.zeros(4, dtype=int)])
    o.optimize()
    return c[0]
expect(count(9) - count(2) == 7, "retries of the section")
""", stubs=QSTUBS)

S("C33-preset-layer-rounding", "C33", "the preset of a configuration whose dense section has its own optimizer", "the preset also removes the rounding of the dense section",
  [(CFG, "        if opt := self.adaround_optimizer:\n            opt.tflite()\n", "        if self.adaround_optimizer:\n            self.adaround_optimizer = None\n")],
  """
from itcl_quantizer.config.models.keras import QuantizerCfg
c = QuantizerCfg(dense={"adaround_optimizer": {"optimizer": "base", "max_retries": 3}})
c.tflite()
expect(c.dense.adaround_optimizer is not None, "only the kernel symmetry of the dense section changes")
""", stubs=QSTUBS)

S("C33-optimizer-union", "C33", "an optimizer section that names annealer but sets only max_retries", "the optimizer kind is inferred from the fields when steps are not given",
  [(CFG, "class RoundingMinimaCfg(BaseModel, IBuildable):\n    optimizer: Literal[\"base\"] = \"base\"\n", "class RoundingMinimaCfg(BaseModel, IBuildable):\n    optimizer: Literal[\"base\", \"minima\"] = \"base\"\n")],
  """
from itcl_quantizer.config.models.keras import QuantizerCfg
try:
    QuantizerCfg(ada_round_net={"optimizer": "minima"})
except ValueError:
    pass
else:
    expect(False, "unknown optimizer rejected")
""", stubs=QSTUBS)

S("C33-optional-equalizer", "C33", "an empty equalizer section", "an empty equalizer section counts as absent",
  [(CFG, "            cfg = json.load(f)\n            return cls(**cfg)\n", "            cfg = json.load(f)\n            return cls(**{k: v for k, v in cfg.items() if v})\n")],
  """
import json, tempfile
from itcl_quantizer.config.models.keras import QuantizerCfg
with tempfile.TemporaryDirectory() as d:
    p = d + "/c.json"
    open(p, "w").write(json.dumps({"param_equalizer": {}}))
    expect(QuantizerCfg.from_json(p).param_equalizer is not None, "an equalizer with default settings")
""", stubs=QSTUBS)
