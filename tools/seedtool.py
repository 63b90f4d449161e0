#!/opt/venv/bin/python
"""Planted bugs: generation from tools/seeds/*.py and verification.

seedtool.py make            write seeded/<id>/{patch.diff,demo.sh,demo.py,meta.json} from the specs
seedtool.py verify [ids]    build, stable tests, demo on clean and patched scratch copies, and the property's check
A spec is S(id, property, needs, what, [(file, old, new), ...], demo_body).
"""
import difflib
import json
import os
import re
import shutil
import subprocess
import sys
import glob
import tempfile
from concurrent.futures import ThreadPoolExecutor

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = "/repo"
SPECS = []
ONLY = set(sys.argv[2:])

PRE = '''"""Run in the root of the repository: exits 0 when the property holds."""
import json, os, sys, shutil, tempfile, warnings, logging
sys.dont_write_bytecode = True
warnings.simplefilter("ignore")
logging.disable(logging.CRITICAL)
os.environ["MPLBACKEND"] = "Agg"
os.environ["LOGLEVEL"] = "CRITICAL"
HERE = os.path.dirname(os.path.abspath(__file__))
REPO = os.getcwd()
sys.path[:0] = [os.path.join(REPO, p) for p in ("core", "inference_engine", "quantizer", "model_converters/keras2json", "model_converters/tflite2json")]
sys.path.append(os.path.join(HERE, "stubs"))
sys.path.append("/opt/veriftools/pyvenv/lib/python3.12/site-packages")
SCRATCH = tempfile.mkdtemp()
os.chdir(SCRATCH)
import atexit
atexit.register(lambda: (os.chdir("/"), shutil.rmtree(SCRATCH, ignore_errors=True)))
import numpy as np


def expect(cond, msg=""):
    if not bool(cond):
        print("PROPERTY BROKEN:", msg)
        sys.stdout.flush()
        sys.exit(1)


'''


def S(id, prop, needs, what, edits, demo, stubs=()):
    SPECS.append(dict(id=id, prop=prop, needs=needs, what=what, edits=edits, demo=demo, stubs=stubs))


for f in sorted(glob.glob(os.path.join(ROOT, "tools", "seeds", "*.py"))):
    exec(compile(open(f).read(), f, "exec"))


def make():
    for s in SPECS:
        if ONLY and s["id"] not in ONLY:
            continue
        d = os.path.join(ROOT, "seeded", s["id"])
        shutil.rmtree(d, ignore_errors=True)
        os.makedirs(d)
        by_file = {}
        for f, old, new in s["edits"]:
            text = by_file.setdefault(f, open(os.path.join(REPO, f)).read())
            if text.count(old) != 1:
                raise SystemExit(f"{s['id']}: {text.count(old)} matches in {f} of:\n{old}")
            by_file[f] = text.replace(old, new)
        patch = ""
        for f, new in by_file.items():
            a = open(os.path.join(REPO, f)).read()
            patch += "".join(
                line if line.endswith("\n") else line + "\n\\ No newline at end of file\n"
                for line in difflib.unified_diff(a.splitlines(True), new.splitlines(True), "a/" + f, "b/" + f))
        open(os.path.join(d, "patch.diff"), "w").write(patch)
        open(os.path.join(d, "demo.py"), "w").write(PRE + s["demo"].strip() + "\n")
        if s["stubs"]:
            for name in s["stubs"]:
                src = os.path.join(ROOT, "stubs", name)
                dst = os.path.join(d, "stubs", name)
                if os.path.isdir(src):
                    shutil.copytree(src, dst, ignore=shutil.ignore_patterns("__pycache__"))
                else:
                    os.makedirs(os.path.dirname(dst), exist_ok=True)
                    shutil.copy(src + ".py", dst + ".py")
        sh = os.path.join(d, "demo.sh")
        open(sh, "w").write('#!/bin/sh\nexec /opt/venv/bin/python "$(dirname "$0")/demo.py"\n')
        os.chmod(sh, 0o755)
        json.dump({"property": s["prop"], "needs": s["needs"], "what_it_breaks": s["what"]}, open(os.path.join(d, "meta.json"), "w"), indent=1)
        open(os.path.join(d, "meta.json"), "a").write("\n")


STABLE = json.load(open("/opt/vp/BASELINE.json"))["stable"]


def tests(copy):
    env = dict(os.environ, PYTHONDONTWRITEBYTECODE="1", MPLBACKEND="Agg", PYTHONPATH=f"{copy}/core:{copy}/inference_engine", PYTHONHASHSEED="0")
    passed = 0
    for proj, args in (("core", ["tests"]), ("inference_engine", ["test", "--ignore=test/layers_/test_tflite/test_Logistic.py", "--ignore=test/model"])):
        r = subprocess.run(["/opt/venv/bin/python", "-m", "pytest", "-q", "-p", "no:cacheprovider", *args], cwd=f"{copy}/{proj}", env=env,
                           capture_output=True, text=True)
        m = re.search(r"(\d+) passed", r.stdout)
        passed += int(m.group(1)) if m else 0
    return passed


def verify_one(sid):
    prop = json.load(open(f"{ROOT}/seeded/{sid}/meta.json"))["property"]
    tmp = tempfile.mkdtemp(prefix="seedv_")
    copy = os.path.join(tmp, "repo")
    try:
        subprocess.run(["git", "clone", "-q", "--shared", REPO, copy], check=True)
        # the demo lies elsewhere, without the patch
        demo = os.path.join(tmp, "demo")
        shutil.copytree(f"{ROOT}/seeded/{sid}", demo, ignore=shutil.ignore_patterns("*.diff", "meta.json"))
        env = {k: v for k, v in os.environ.items() if not k.startswith("VERIF")}
        clean = subprocess.run(["sh", f"{demo}/demo.sh"], cwd=copy, env=env, capture_output=True, text=True)
        ap = subprocess.run(["git", "apply", f"{ROOT}/seeded/{sid}/patch.diff"], cwd=copy, capture_output=True, text=True)
        if ap.returncode:
            return sid, prop, "PATCH DOES NOT APPLY " + ap.stderr
        n = tests(copy)
        bad = subprocess.run(["sh", f"{demo}/demo.sh"], cwd=copy, env=env, capture_output=True, text=True)
        chk = subprocess.run(["/opt/venv/bin/python", "run.py", prop, "--tier", "quick"], cwd=ROOT,
                             env=dict(os.environ, VERIF_REPO=copy, VERIF_SEED=os.environ.get("VERIF_SEED", "1"), VERIF_OUT=tmp), capture_output=True, text=True)
        caught = chk.returncode == 1 and f"VIOLATION property={prop}" in chk.stdout
        problems = []
        cur = None
        for line in open(f"{ROOT}/seeded/{sid}/patch.diff"):
            if line.startswith("--- a/"):
                cur = line[6:].strip()
            m = re.match(r"@@ -(\d+)", line)
            if m:
                at = int(m.group(1))
            elif line.startswith("-") and not line.startswith("---"):
                b = subprocess.run(["git", "-C", REPO, "blame", "-s", "-L", f"{at},{at}", "--", cur], capture_output=True, text=True).stdout
                if line[1:].strip() and not b.startswith("^f7d6fa9") and not b.startswith("f7d6fa9"):
                    problems.append("not an original line: " + line.strip())
                at += 1
            elif line.startswith(" "):
                at += 1
        if clean.returncode != 0:
            problems.append("demo fails on clean: " + (clean.stdout + clean.stderr)[-600:])
        if bad.returncode == 0:
            problems.append("demo passes with the patch")
        elif "PROPERTY BROKEN" not in bad.stdout:
            problems.append("note: demo crashes: " + bad.stderr[-300:])
        if n < len(STABLE):
            problems.append(f"only {n} tests pass")
        line = [x for x in chk.stdout.splitlines() if x.startswith("family=")]
        return sid, prop, ("caught" if caught else f"MISSED rc={chk.returncode} {chk.stderr[-300:]}") + "  " + (line[0][:160] if line else "") + ("  !! " + " | ".join(problems) if problems else "")
    finally:
        shutil.rmtree(tmp, ignore_errors=True)


def verify():
    ids = sorted(os.listdir(f"{ROOT}/seeded")) if not ONLY else sorted(ONLY)
    with ThreadPoolExecutor(3) as ex:
        for sid, prop, text in ex.map(verify_one, ids):
            print(f"{sid} [{prop}] {text}", flush=True)


{"make": make, "verify": verify}[sys.argv[1]]()
