#!/opt/venv/bin/python
"""Conditional fault injection: does a check notice a function that answers wrongly only under a condition?

usage: inject.py record OUT.tsv [--workers W]       which triggers hold at all, per function
       inject.py run OUT.jsonl --sample N [--seed S] [--workers W] [--only PATH_PREFIX ...] [--table OUT.tsv]

Every case wraps one function of a scratch copy of /repo (its result is changed in one element when a trigger holds: large
arrays, a third call, two objects alive, codes at the ends of the type, narrow containers, equal elements ...) and runs the
checks of its file. `fired` tells whether the trigger ever held: a case that fired and was not noticed is reviewed by hand;
a trigger that never held shows inputs that no check generates. Nothing in /repo changes.
"""
import argparse
import ast
import json
import os
import queue
import random
import shutil
import subprocess
import sys
import tempfile
import threading

sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import mutate
from inject_rt import TRIGGERS

EXTRA = [
    ("quantizer/itcl_quantizer/quantizer/metrics", "C35"),
    ("quantizer/itcl_quantizer/optimizers/kl", "C35"),
    ("quantizer/itcl_quantizer/optimizers/scipy", "C35"),
    ("quantizer/itcl_quantizer/optimizers", "C20 C19"),
]


def checks_of(rel):
    for p, ids in EXTRA:
        if rel.startswith(p):
            return ids.split()
    return mutate.checks_of(rel)


def functions(rel):
    tree = ast.parse(open(os.path.join(mutate.REPO, rel), encoding="utf-8").read())

    def walk(body, pre):
        for n in body:
            if isinstance(n, ast.ClassDef) and "Test" not in n.name:
                yield from walk(n.body, pre + n.name + ".")
            elif isinstance(n, ast.FunctionDef) and not n.name.startswith("test"):
                if any(isinstance(d, ast.Name) and d.id in ("abstractmethod",) or isinstance(d, ast.Attribute) for d in n.decorator_list):
                    continue
                if n.name in ("__init__", "__repr__", "__str__") or not any(isinstance(x, ast.Return) and x.value is not None for x in ast.walk(n)):
                    continue
                name = n.name
                if name.startswith("__") and not name.endswith("__") and pre:
                    name = "_" + pre.rstrip(".").split(".")[-1].lstrip("_") + name
                yield pre + name

    yield from walk(tree.body, "")


def recording(a):
    base = tempfile.mkdtemp(prefix="inj_", dir="/tmp")
    copy = os.path.join(base, "repo")
    shutil.copytree(mutate.REPO, copy, ignore=shutil.ignore_patterns(".git", "*.h5", "*.ipynb", "*.csv", "*.onnx", "*.png", "*.html", "__pycache__"))
    for rel in mutate.files():
        quals = list(functions(rel))
        with open(os.path.join(copy, rel), "a", encoding="utf-8") as f:
            f.write(f"""
import importlib.util as _iu
_s = _iu.spec_from_file_location("_inject_rt_rec", {os.path.join(mutate.HERE, 'tools/inject_rt.py')!r})
_m = _iu.module_from_spec(_s)
_s.loader.exec_module(_m)
_m.record(globals(), {rel!r}, {quals!r}, {os.path.abspath(a.out)!r})
""")
    q = queue.Queue()
    for k in range(1, 36):
        q.put(f"C{k:02d}")

    def worker(w):
        env = dict(os.environ, VERIF_REPO=copy, VERIF_OUT=os.path.join(base, f"out{w}"), VERIF_SHARDS="1", VERIF_NOSHRINK="1", VERIF_SEED="1", OMP_NUM_THREADS="1", OPENBLAS_NUM_THREADS="1")
        while True:
            try:
                cid = q.get_nowait()
            except queue.Empty:
                return
            p = subprocess.run(["/opt/venv/bin/python", os.path.join(mutate.HERE, "run.py"), cid], env=env, capture_output=True, text=True)
            print(cid, p.returncode, flush=True)

    ts = [threading.Thread(target=worker, args=(w,)) for w in range(a.workers)]
    [t.start() for t in ts]
    [t.join() for t in ts]
    lines = sorted(set(open(a.out)))
    open(a.out, "w").writelines(lines)
    shutil.rmtree(base, ignore_errors=True)


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument("cmd", choices=["record", "run"])
    ap.add_argument("out")
    ap.add_argument("--table")
    ap.add_argument("--sample", type=int, default=50)
    ap.add_argument("--seed", type=int, default=1)
    ap.add_argument("--workers", type=int, default=4)
    ap.add_argument("--only", nargs="*", default=[])
    a = ap.parse_args()
    if a.cmd == "record":
        return recording(a)
    cases = [(f, q, t) for f in mutate.files() if not a.only or any(f.startswith(o) for o in a.only) for q in functions(f) for t in TRIGGERS]
    if a.table:
        held = {tuple(line.rstrip("\n").split("\t")) for line in open(a.table)}
        cases = [c for c in cases if c in held]
    print(len(cases), "cases")
    random.Random(a.seed).shuffle(cases)
    q = queue.Queue()
    for c in cases[:a.sample]:
        q.put(c)
    lock = threading.Lock()

    def worker():
        base = tempfile.mkdtemp(prefix="inj_", dir="/tmp")
        copy, work, mark = os.path.join(base, "repo"), os.path.join(base, "out"), os.path.join(base, "fired")
        os.mkdir(work)
        shutil.copytree(mutate.REPO, copy, ignore=shutil.ignore_patterns(".git", "*.h5", "*.ipynb", "*.csv", "*.onnx", "*.png", "*.html", "__pycache__"))
        env = dict(os.environ, VERIF_REPO=copy, VERIF_OUT=work, VERIF_SHARDS="1", VERIF_NOSHRINK="1", VERIF_SEED="1", OMP_NUM_THREADS="1", OPENBLAS_NUM_THREADS="1")
        while True:
            try:
                rel, qual, t = q.get_nowait()
            except queue.Empty:
                break
            path = os.path.join(copy, rel)
            src = open(path, encoding="utf-8").read()
            with open(path, "w", encoding="utf-8") as f:
                f.write(src + f"""
import importlib.util as _iu
_s = _iu.spec_from_file_location("_inject_rt_{abs(hash(qual))}", {os.path.join(mutate.HERE, 'tools/inject_rt.py')!r})
_m = _iu.module_from_spec(_s)
_s.loader.exec_module(_m)
_m.install(globals(), {qual!r}, {t!r}, {mark!r})
""")
            open(mark, "w").close()
            res = {"file": rel, "fn": qual, "trigger": t, "killed": False, "by": None, "msg": None}
            for cid in checks_of(rel):
                try:
                    p = subprocess.run(["/opt/venv/bin/python", os.path.join(mutate.HERE, "run.py"), cid], env=env, capture_output=True, text=True, timeout=500)
                    rc, text = p.returncode, p.stdout
                except subprocess.TimeoutExpired:
                    rc, text = 1, "timeout"
                if rc:
                    res.update(killed=True, by=cid, msg=text.strip().splitlines()[0][:200] if text.strip() else f"rc={rc}")
                    break
            res["fired"] = os.path.getsize(mark)
            with open(path, "w", encoding="utf-8") as f:
                f.write(src)
            with lock, open(a.out, "a") as f:
                f.write(json.dumps(res) + "\n")
        shutil.rmtree(base, ignore_errors=True)

    ts = [threading.Thread(target=worker) for _ in range(a.workers)]
    [t.start() for t in ts]
    [t.join() for t in ts]


if __name__ == "__main__":
    sys.exit(main())
