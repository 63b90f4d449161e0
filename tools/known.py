#!/opt/venv/bin/python
"""Regenerates /verif/known_findings.json: repaired defects (with their commits) and recorded ones."""
import json
import os
import subprocess

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
# property, subject of the fix commit (without "fix: "), what failed
FIXED = [
    ("C01", "quantize and dequantize 32 bit data types without int32 overflow", "quantizing to int32/uint32 wrapped around for large values and zero points (e.g. int32, scale 1e-7, value 300)"),
    ("C02", "quantize and dequantize 32 bit data types without int32 overflow", "dequantizing the first/last code of int32/uint32 (or a narrow native container minus the zero point) overflowed"),
    ("C05", "do not truncate a LUT whose activation returns an integer first", "the table of an activation whose first value is an integer was truncated to integers (numpy vectorize otype)"),
    ("C06", "tail thresholds of an asymmetric reduced LUT", "an asymmetric ReducedLUT answered entries of the wrong tail"),
    ("C07", "iterate over a deserialized reduced LUT", "iterating over a deserialized ReducedLUT raised"),
    ("C08", "keep the result of uint32 scalar arithmetic an integer", "uint32 scalar sums became floats"),
    ("C13", "normalize each row of the ONNX Softmax without overflowing", "Softmax of a batch normalized over the whole array, and large logits gave NaN"),
    ("C15", "rescale the quantized RELU from the input zero point and saturate", "RELU with different input/output scales ignored the scales and wrapped around int8"),
    ("C16", "take into account the zero point of the LSTM states", "LSTM layers with non-zero state zero points computed with shifted states"),
    ("C16", "widen the LSTM input before removing its zero point", "int8 input minus a zero point wrapped around int8"),
]
KNOWN = []
exec(open(os.path.join(ROOT, "tools", "known_more.py")).read()) if os.path.exists(os.path.join(ROOT, "tools", "known_more.py")) else None

log = subprocess.run(["git", "-C", "/repo", "log", "--format=%h%x09%s"], capture_output=True, text=True).stdout
by_subject = {line.split("\t", 1)[1]: line.split("\t", 1)[0] for line in log.splitlines()}
out = []
for prop, subject, what in FIXED:
    commit = by_subject["fix: " + subject]
    out.append({"property": prop, "status": "fixed", "commit": commit, "what": f"fixed: property={prop} {commit} {what}"})
for prop, ident, what in KNOWN:
    out.append({"property": prop, "status": "known", "id": ident, "what": what})
with open(os.path.join(ROOT, "known_findings.json"), "w") as f:
    json.dump({"findings": out}, f, indent=1)
    f.write("\n")
