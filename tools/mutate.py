#!/opt/venv/bin/python
"""Mutation analysis of the checks: which small changes of the code under test does no check notice?

usage: mutate.py list | run OUT.jsonl [--sample N] [--seed S] [--workers W] [--only PATH_PREFIX ...]

Every mutant is applied to a scratch copy of /repo (VERIF_REPO), and the checks that exercise its file run on it until one
fails. Survivors are reviewed by hand: equivalent, outside the domain, or a gap of a check. Nothing in /repo changes.
"""
import argparse
import ast
import json
import os
import queue
import random
import shutil
import subprocess
import sys
import tempfile
import threading

REPO = "/repo"
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
ROOTS = ["core/itcl_quantization", "inference_engine/itcl_inference_engine", "quantizer/itcl_quantizer", "model_converters/keras2json/keras2json",
         "model_converters/onnx2json/helpers", "model_converters/onnx2json/2json.py", "model_converters/tflite2json/itcl_tflite2json", "demo/demo_lib/demo_lib"]
MAP = [
    ("core/itcl_quantization/quantization/operators", "C01 C03 C08 C02 C05 C18 C10 C06"),
    ("core/itcl_quantization/quantization/lut", "C06 C07 C09 C29"),
    ("core/itcl_quantization/quantization/dtypes", "C04 C01 C08"),
    ("core", "C04 C01 C02 C03 C05 C06 C07 C08 C18 C25"),
    ("inference_engine/itcl_inference_engine/layers/onnx", "C12 C13 C09 C17 C11"),
    ("inference_engine/itcl_inference_engine/layers/itclq", "C16 C17 C11"),
    ("inference_engine/itcl_inference_engine/layers/tflite", "C10 C14 C09 C17 C11"),
    ("inference_engine/itcl_inference_engine/layers", "C09 C15 C14 C13 C17 C11"),
    ("inference_engine", "C17 C10 C16 C01 C02 C12 C14 C11"),
    ("quantizer/itcl_quantizer/quantizer", "C20 C19 C25"),
    ("quantizer/itcl_quantizer/optimizers", "C20"),
    ("quantizer/itcl_quantizer/equalizers/param", "C23 C26"),
    ("quantizer/itcl_quantizer/equalizers/adaround/qubo", "C24"),
    ("quantizer/itcl_quantizer/equalizers/adaround/Calc", "C24"),
    ("quantizer/itcl_quantizer/equalizers/adaround", "C22 C24"),
    ("quantizer/itcl_quantizer/tensor_extractor/keras/layers/keras_lstm", "C26"),
    ("quantizer/itcl_quantizer/tensor_extractor/keras/layers", "C25 C30 C21 C22 C26 C31"),
    ("quantizer/itcl_quantizer/util/collisions", "C31"),
    ("quantizer/itcl_quantizer/config", "C33 C25"),
    ("quantizer", "C21 C25 C30 C22 C23 C24 C26 C31"),
    ("model_converters/keras2json", "C27"),
    ("model_converters/onnx2json", "C28"),
    ("model_converters/tflite2json", "C29"),
    ("demo", "C32"),
]
SKIP = ("_debug_plot_optimizer.py", "kl_div_optimizer.py", "_logging.py", "constants.py")  # plots, raises always, unused
CMP = {ast.Lt: "<=", ast.LtE: "<", ast.Gt: ">=", ast.GtE: ">", ast.Eq: "!=", ast.NotEq: "==", ast.Is: "is not", ast.IsNot: "is", ast.In: "not in", ast.NotIn: "in"}
BIN = {ast.Add: "-", ast.Sub: "+", ast.Mult: "/", ast.Div: "*", ast.FloorDiv: "/", ast.Pow: "*", ast.Mod: "//", ast.MatMult: "*", ast.LShift: ">>", ast.RShift: "<<", ast.BitAnd: "|", ast.BitOr: "&"}
NAMES = {"min": "max", "max": "min", "floor": "ceil", "ceil": "floor", "round": "floor", "around": "floor", "rint": "floor", "any": "all", "all": "any", "argmin": "argmax",
         "argmax": "argmin", "amin": "amax", "amax": "amin", "int64": "int32", "int32": "int16", "float64": "float32", "append": "extend", "zeros": "ones", "ones": "zeros",
         "shape": "T", "T": "real", "upper": "lower", "lower": "upper", "copy": "view", "maximum": "minimum", "minimum": "maximum", "mean": "sum", "sum": "mean", "clip": "maximum"}


def files():
    for r in ROOTS:
        p = os.path.join(REPO, r)
        if os.path.isfile(p):
            yield r
            continue
        for d, _, fs in os.walk(p):
            for f in sorted(fs):
                if f.endswith(".py") and "test" not in f and "config/samples" not in d and f not in SKIP:
                    yield os.path.relpath(os.path.join(d, f), REPO)


class Text:
    def __init__(self, src):
        self.src = src.encode()
        self.starts = [0]
        for line in self.src.splitlines(keepends=True):
            self.starts.append(self.starts[-1] + len(line))

    def pos(self, line, col):
        return self.starts[line - 1] + col

    def span(self, n):
        return self.pos(n.lineno, n.col_offset), self.pos(n.end_lineno, n.end_col_offset)

    def get(self, a, b):
        return self.src[a:b].decode()


def mutants(rel):
    src = open(os.path.join(REPO, rel), encoding="utf-8").read()
    tree = ast.parse(src)
    t = Text(src)
    out = []
    skip = set()

    def add(a, b, new, what, n):
        out.append({"file": rel, "line": n.lineno, "a": a, "b": b, "new": new, "what": what})

    for n in ast.walk(tree):  # docstrings, annotations, raise messages, logging
        if isinstance(n, (ast.FunctionDef, ast.ClassDef, ast.Module)) and n.body and isinstance(n.body[0], ast.Expr) and isinstance(n.body[0].value, ast.Constant):
            skip.add(n.body[0])
            skip.add(n.body[0].value)
        for f in ("annotation", "returns"):
            a = getattr(n, f, None)
            if a is not None:
                skip.update(ast.walk(a))
        if isinstance(n, ast.Raise) and n.exc is not None:
            skip.update(ast.walk(n.exc))
        if isinstance(n, ast.Expr) and isinstance(n.value, ast.Call):
            name = ast.unparse(n.value.func)
            if name.startswith(("logger", "logging", "print")):
                skip.update(ast.walk(n))
        if isinstance(n, ast.ClassDef) and "Test" in n.name or isinstance(n, ast.FunctionDef) and n.name.startswith("test"):
            skip.update(ast.walk(n))
        if isinstance(n, ast.If) and "__main__" in ast.unparse(n.test):
            skip.update(ast.walk(n))
        if isinstance(n, (ast.Import, ast.ImportFrom)):
            skip.update(ast.walk(n))
    for n in ast.walk(tree):
        if n in skip:
            continue
        if isinstance(n, ast.Compare) and len(n.ops) == 1 and type(n.ops[0]) in CMP:
            a, b = t.span(n.left)[1], t.span(n.comparators[0])[0]
            add(a, b, f" {CMP[type(n.ops[0])]} ", f"{t.get(*t.span(n))} : {CMP[type(n.ops[0])]}", n)
        elif isinstance(n, ast.BinOp) and type(n.op) in BIN:
            a, b = t.span(n.left)[1], t.span(n.right)[0]
            mid = t.get(a, b)
            op = {ast.Add: "+", ast.Sub: "-", ast.Mult: "*", ast.Div: "/", ast.FloorDiv: "//", ast.Pow: "**", ast.Mod: "%", ast.MatMult: "@", ast.LShift: "<<", ast.RShift: ">>", ast.BitAnd: "&", ast.BitOr: "|"}[type(n.op)]
            if mid.count(op) == 1 or op in ("*", "/"):
                add(a, b, mid.replace(op, BIN[type(n.op)], 1), f"{t.get(*t.span(n))[:80]} : {op} -> {BIN[type(n.op)]}", n)
        elif isinstance(n, ast.BoolOp):
            a, b = t.span(n.values[0])[1], t.span(n.values[1])[0]
            mid = t.get(a, b)
            o, w = ("and", "or") if isinstance(n.op, ast.And) else ("or", "and")
            add(a, b, mid.replace(o, w, 1), f"{t.get(*t.span(n))[:80]} : {o} -> {w}", n)
        elif isinstance(n, ast.UnaryOp) and isinstance(n.op, (ast.Not, ast.USub)):
            a, b = t.span(n)
            c, d = t.span(n.operand)
            add(a, b, t.get(c, d), f"{t.get(a, b)[:80]} : drop unary", n)
        elif isinstance(n, ast.Constant) and not isinstance(n.value, str) and n.value is not None:
            a, b = t.span(n)
            v = n.value
            if v is True or v is False:
                add(a, b, str(not v), f"{v} -> {not v}", n)
            elif isinstance(v, int):
                add(a, b, str(v + 1), f"{v} -> {v + 1}", n)
                if v > 0:
                    add(a, b, str(v - 1), f"{v} -> {v - 1}", n)
            elif isinstance(v, float):
                add(a, b, str(v * 2 if v else 1.0), f"{v} -> {v * 2}", n)
        elif isinstance(n, (ast.If, ast.IfExp)):
            a, b = t.span(n.test)
            add(a, b, "True", f"if {t.get(a, b)[:80]} : True", n.test)
            add(a, b, "False", f"if {t.get(a, b)[:80]} : False", n.test)
        elif isinstance(n, (ast.Assign, ast.AugAssign, ast.Expr, ast.Delete)):
            a, b = t.span(n)
            if isinstance(n, ast.Expr) and isinstance(n.value, (ast.Yield, ast.Constant)):
                continue
            if isinstance(n, ast.Assign) and isinstance(n.targets[0], ast.Name):
                if isinstance(n.value, ast.Call) and any(isinstance(x, ast.Name) and x.id == n.targets[0].id for x in ast.walk(n.value)):
                    add(a, b, "pass", f"{t.get(a, b)[:80]} : removed", n)
                continue
            add(a, b, "pass", f"{t.get(a, b)[:80]} : removed", n)
        elif isinstance(n, ast.Attribute) and n.attr in NAMES:
            a, b = t.span(n)
            add(b - len(n.attr), b, NAMES[n.attr], f"{t.get(a, b)[-60:]} : {NAMES[n.attr]}", n)
        elif isinstance(n, ast.Name) and n.id in ("min", "max", "any", "all", "int", "round") and isinstance(n.ctx, ast.Load):
            a, b = t.span(n)
            if t.get(b, b + 1) == "(":
                add(a, b, {"min": "max", "max": "min", "any": "all", "all": "any", "int": "float", "round": "int"}[n.id], f"{n.id}", n)
        elif isinstance(n, ast.Slice):
            for part in (n.lower, n.upper, n.step):
                if part is not None:
                    a, b = t.span(part)
                    add(a, b, "", f"slice {t.get(*t.span(n))} : without {t.get(a, b)}", n)
        elif isinstance(n, ast.Call):
            for k in n.keywords:
                if k.arg and len(n.keywords) + len(n.args) > 1:
                    a, b = t.pos(k.value.lineno, k.value.col_offset) - len(k.arg) - 1, t.span(k.value)[1]
                    if t.get(a, a + len(k.arg)) == k.arg:
                        rest = t.src[b:b + 1].decode()
                        add(a, b + (rest == ","), "", f"{t.get(*t.span(n))[:70]} : without {k.arg}", n)
            if len(n.args) >= 2 and not n.keywords:
                (a, b), (c, d) = t.span(n.args[0]), t.span(n.args[1])
                if not isinstance(n.args[0], ast.Starred):
                    add(a, d, t.get(c, d) + t.get(b, c) + t.get(a, b), f"{t.get(*t.span(n))[:70]} : swapped arguments", n)
        elif isinstance(n, ast.Return) and n.value is not None:
            pass
        elif isinstance(n, (ast.Break, ast.Continue)):
            a, b = t.span(n)
            add(a, b, "pass", "break/continue removed", n)
    good = []
    for m in out:
        new = t.src[:m["a"]] + m["new"].encode() + t.src[m["b"]:]
        try:
            if ast.dump(ast.parse(new.decode())) == ast.dump(tree):
                continue
        except SyntaxError:
            continue
        good.append(m)
    return good


def checks_of(rel):
    for p, ids in MAP:
        if rel.startswith(p):
            return ids.split()
    return []


def one(m, copy, work):
    path = os.path.join(copy, m["file"])
    src = open(os.path.join(REPO, m["file"]), "rb").read()
    with open(path, "wb") as f:
        f.write(src[:m["a"]] + m["new"].encode() + src[m["b"]:])
    res = {"killed": None, "by": None, "msg": None}
    env = dict(os.environ, VERIF_REPO=copy, VERIF_OUT=work, VERIF_SHARDS="1", VERIF_NOSHRINK="1", VERIF_SEED="1", OMP_NUM_THREADS="1", OPENBLAS_NUM_THREADS="1")
    try:
        for cid in checks_of(m["file"]):
            try:
                p = subprocess.run(["/opt/venv/bin/python", os.path.join(HERE, "run.py"), cid], env=env, capture_output=True, text=True, timeout=400)
                rc, text = p.returncode, p.stdout
            except subprocess.TimeoutExpired:
                rc, text = 1, "timeout"
            if rc:
                res = {"killed": True, "by": cid, "msg": text.strip().splitlines()[0][:200] if text.strip() else f"rc={rc}"}
                break
        else:
            res["killed"] = False
    finally:
        with open(path, "wb") as f:
            f.write(src)
    return dict(m, **res)


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument("cmd", choices=["list", "run"])
    ap.add_argument("out", nargs="?")
    ap.add_argument("--sample", type=int, default=0)
    ap.add_argument("--seed", type=int, default=1)
    ap.add_argument("--workers", type=int, default=8)
    ap.add_argument("--only", nargs="*", default=[])
    a = ap.parse_args()
    ms = [m for f in files() for m in mutants(f) if not a.only or any(f.startswith(o) for o in a.only)]
    if a.cmd == "list":
        per = {}
        for m in ms:
            per[m["file"]] = per.get(m["file"], 0) + 1
        for f, k in per.items():
            print(k, f)
        print(len(ms), "mutants")
        return
    if a.sample and a.sample < len(ms):
        ms = random.Random(a.seed).sample(ms, a.sample)
    done = set()
    if os.path.exists(a.out):
        done = {(d["file"], d["a"], d["b"], d["new"]) for d in map(json.loads, open(a.out))}
    q = queue.Queue()
    for m in ms:
        if (m["file"], m["a"], m["b"], m["new"]) not in done:
            q.put(m)
    lock = threading.Lock()

    def worker():
        base = tempfile.mkdtemp(prefix="mut_", dir="/tmp")
        copy, work = os.path.join(base, "repo"), os.path.join(base, "out")
        os.mkdir(work)
        shutil.copytree(REPO, copy, ignore=shutil.ignore_patterns(".git", "*.h5", "*.ipynb", "*.csv", "*.onnx", "*.png", "*.html", "__pycache__"))
        while True:
            try:
                m = q.get_nowait()
            except queue.Empty:
                break
            r = one(m, copy, work)
            with lock, open(a.out, "a") as f:
                f.write(json.dumps(r) + "\n")
        shutil.rmtree(base, ignore_errors=True)

    ts = [threading.Thread(target=worker) for _ in range(a.workers)]
    [t.start() for t in ts]
    [t.join() for t in ts]


if __name__ == "__main__":
    sys.exit(main())
