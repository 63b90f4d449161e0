#!/opt/venv/bin/python
"""Regenerates /verif/properties.jsonl and /verif/MANIFEST.json from the table below."""
import json
import os

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
CORE = "core/itcl_quantization/quantization"
IE = "inference_engine/itcl_inference_engine"
QZ = "quantizer/itcl_quantizer"
MC = "model_converters"

P = []


def prop(pid, title, statement, text, why, files, mech, over=("inputs",), note="", technique="", trusted=""):
    P.append(dict(pid=pid, title=title, statement=statement, text=text, why=why, files=files, mech=mech,
                  over=list(over), note=note, technique=technique))


exec(open(os.path.join(ROOT, "tools", "properties_meta.py")).read())


def main():
    with open(os.path.join(ROOT, "properties.jsonl"), "w") as f:
        for p in P:
            f.write(json.dumps({
                "id": p["pid"], "title": p["title"], "statement": p["statement"],
                "quantifier": {"over": p["over"], "text": p["text"]},
                "why_tests_cant": p["why"],
                "anchors": {"files": p["files"],
                            "mechanism": [{"name": n, "where": w} for n, w in p["mech"]]},
            }) + "\n")
    checks, na = [], []
    for p in P:
        if os.path.exists(os.path.join(ROOT, "checks", p["pid"].lower() + ".py")):
            cmd = f"/opt/venv/bin/python run.py {p['pid']} --tier "
            checks.append({
                "property": p["pid"], "quick_cmd": cmd + "quick", "thorough_cmd": cmd + "thorough",
                "technique": p["technique"], "level": "exploration", "level_note": p["note"],
            })
        else:
            na.append({"property": p["pid"], "reason": "the check of this property is not built yet"})
    na += NOT_APPLICABLE
    with open(os.path.join(ROOT, "MANIFEST.json"), "w") as f:
        json.dump({
            "version": 1,
            "setup_cmd": "/opt/venv/bin/python -c \"import sys; sys.path.insert(0, '.'); import verif_env; verif_env.setup(True); import hypothesis, numpy\"",
            "checks": checks, "not_applicable": na,
            "notes": "Every check imports the code under test from /repo's working tree (nothing to build) and runs "
                     "generated cases against an explicit oracle; see DESIGN.md. Third-party packages that the sandbox "
                     "lacks (tensorflow, pydantic, dimod, ...) are stood in for by /verif/stubs.",
        }, f, indent=1)
        f.write("\n")


main()
