"""Hypothesis driver: generated cases, counting, shrinking, replay files, evidence."""
import hashlib
import io
import json
import os
import pickle
import signal
import sys
import time
import traceback
from contextlib import redirect_stdout
from dataclasses import dataclass, field
from typing import Any, Callable, List

import numpy as np
import hypothesis
from hypothesis import strategies as st
from hypothesis import HealthCheck, Phase, settings

from verif_env import VERIF, REPO


class Fail(AssertionError):
    """The property does not hold on the current case."""


class HarnessError(Exception):
    """The check itself is broken (never reported as a violation)."""


def need(cond, msg="", **ctx):
    """Property clause: raise Fail with context when cond is false."""
    if not bool(cond):
        extra = "; ".join(f"{k}={_short(v)}" for k, v in ctx.items())
        raise Fail(f"{msg} [{extra}]" if extra else msg)


def close(a, b, rtol=1e-9, atol=1e-12, msg="", **ctx):
    a = np.asarray(a, dtype=np.float64)
    b = np.asarray(b, dtype=np.float64)
    need(a.shape == b.shape, f"{msg}: shape {a.shape} != expected {b.shape}", **ctx)
    ok = np.isclose(a, b, rtol=rtol, atol=atol, equal_nan=True)
    if not ok.all():
        i = np.argwhere(~ok)[0]
        i = tuple(int(x) for x in i)
        raise Fail(
            f"{msg}: got {a[i]!r}, expected {b[i]!r} at index {i}"
            + "".join(f"; {k}={_short(v)}" for k, v in ctx.items())
        )


def _short(v, n=300):
    s = repr(v.tolist() if isinstance(v, np.ndarray) else v)
    return s if len(s) <= n else s[:n] + "..."


def bootstrap():
    return REPO


class Ctx:
    """Per-case bookkeeping handed to every case function."""

    def __init__(self):
        self.is_nontrivial = False
        self.labels = []

    def nontrivial(self, cond=True):
        if cond:
            self.is_nontrivial = True

    def label(self, name, cond=True):
        if cond:
            self.labels.append(name)


@dataclass
class Sub:
    """One generated family of cases of a property.

    name     : label used in replay files
    strategy : hypothesis strategy producing a JSON-serialisable case
    fn       : fn(case, ctx), raises Fail (or any exception) when the property breaks
    quick    : number of generated cases in the quick tier
    thorough : number of generated cases in the thorough tier
    corners  : fixed cases always run first (corner inputs and past defects)
    """

    name: str
    strategy: Any
    fn: Callable[[Any, Ctx], None]
    quick: int = 300
    thorough: int = 0
    corners: List[Any] = field(default_factory=list)

    def count(self, tier):
        if tier == "quick":
            return int(QUICK * self.quick)
        return THOROUGH * (self.thorough or self.quick * 20)


def _dump(case):
    return json.dumps(case, sort_keys=True, default=_default)


def _default(o):
    if isinstance(o, np.ndarray):
        return o.tolist()
    if isinstance(o, np.generic):
        return o.item()
    raise TypeError(type(o))


class Stats:
    def __init__(self):
        self.evaluations = 0
        self.nontrivial = set()
        self.samples = []
        self.labels = {}
        self.per_sub = {}

    def merge(self, other):
        self.evaluations += other.evaluations
        self.nontrivial |= other.nontrivial
        self.samples += other.samples
        for k, v in other.labels.items():
            self.labels[k] = self.labels.get(k, 0) + v
        for k, v in other.per_sub.items():
            mine = self.per_sub.setdefault(k, [0, 0])
            mine[0] += v[0]
            mine[1] += v[1]


QUICK = float(os.environ.get("VERIF_QUICK", "3"))  # multiplies the number of cases of the quick tier
THOROUGH = 3
SHRINK_SECONDS = 40.0
CASE_SECONDS = 120.0  # a case takes milliseconds; a loop that does not end is a failure, not silence


def _too_long(signum, frame):
    raise Fail(f"the case did not finish within {CASE_SECONDS:.0f} s")


def _run_case(sub, case, stats):
    ctx = Ctx()
    sink = io.StringIO()
    stats.evaluations += 1
    per = stats.per_sub.setdefault(sub.name, [0, 0])
    per[0] += 1
    signal.signal(signal.SIGALRM, _too_long)
    signal.setitimer(signal.ITIMER_REAL, CASE_SECONDS)
    try:
        with redirect_stdout(sink):
            sub.fn(case, ctx)
    finally:
        signal.setitimer(signal.ITIMER_REAL, 0)
    for lab in ctx.labels:
        key = f"{sub.name}:{lab}"
        stats.labels[key] = stats.labels.get(key, 0) + 1
    if ctx.is_nontrivial:
        text = _dump(case)
        h = hashlib.blake2b((sub.name + text).encode(), digest_size=10).digest()
        if h not in stats.nontrivial:
            stats.nontrivial.add(h)
            per[1] += 1
            if per[1] in (3, 40) and len(text) < 1500:
                stats.samples.append({"family": sub.name, "case": json.loads(text)})
    return ctx


def run_sub(pid, sub, tier, seed, stats, deadline, shard=0, shards=1):
    """Returns None or (case, message, traceback)."""
    best = {"case": None, "msg": None, "tb": None, "size": None, "t0": None}

    def attempt(case):
        # round trip through JSON: the replay file reproduces exactly this case
        text = _dump(case)
        case = json.loads(text)
        try:
            _run_case(sub, case, stats)
        except HarnessError:
            raise
        except (KeyboardInterrupt, SystemExit, MemoryError):
            raise
        except hypothesis.errors.UnsatisfiedAssumption:
            raise
        except BaseException as e:  # noqa: BLE001 - any crash on a valid input
            size = len(text)
            if best["size"] is None or size <= best["size"]:
                best.update(
                    case=case,
                    msg=f"{type(e).__name__}: {e}",
                    tb=traceback.format_exc(),
                    size=size,
                )
            if best["t0"] is None:
                best["t0"] = time.monotonic()
            raise

    for corner in sub.corners if shard == 0 else []:
        try:
            attempt(corner)
        except HarnessError:
            raise
        except BaseException:  # recorded in best
            if best["case"] is None:
                raise
            return best

    n = -(-sub.count(tier) // shards)
    if sub.count(tier) <= 0:
        return None
    digest = hashlib.blake2b(f"{pid}/{sub.name}/{seed}/{shard}".encode(), digest_size=6).digest()

    stop = {"hit": False}

    def body(case):
        if best["t0"] is not None and time.monotonic() - best["t0"] > SHRINK_SECONDS:
            return
        if best["t0"] is None and time.monotonic() > deadline:
            stop["hit"] = True
            return
        attempt(case)

    test = hypothesis.seed(int.from_bytes(digest, "big"))(
        settings(
            max_examples=n,
            deadline=None,
            database=None,
            print_blob=False,
            report_multiple_bugs=False,
            suppress_health_check=list(HealthCheck),
            phases=(Phase.generate,) if os.environ.get("VERIF_NOSHRINK") else (Phase.generate, Phase.shrink),
            verbosity=hypothesis.Verbosity.quiet,
        )(hypothesis.given(sub.strategy)(body))
    )
    try:
        test()
    except HarnessError:
        raise
    except BaseException:
        if best["case"] is None:
            raise
    if stop["hit"]:
        stats.labels[f"{sub.name}:budget_reached"] = 1
    return best if best["case"] is not None else None


def _shard(subs, pid, tier, seed, shard, shards, deadline):
    stats = Stats()
    for sub in subs:
        now = time.monotonic()
        found = run_sub(pid, sub, tier, seed, stats, max(deadline, now + 3.0), shard, shards)
        if found:
            found["family"] = sub.name
            return {"stats": stats, "found": found}
    return {"stats": stats, "found": None}


def _run_shards(subs, pid, tier, seed, shards, deadline):
    """Each shard is an independent, deterministically seeded slice of the cases."""
    cpus = max(1, min(shards, os.cpu_count() or 1))
    pending = list(range(shards))
    running = {}
    results = {}
    tmp = os.getcwd()
    while pending or running:
        while pending and len(running) < cpus:
            shard = pending.pop(0)
            out = os.path.join(tmp, f"shard{shard}.pickle")
            sys.stdout.flush()
            sys.stderr.flush()
            pid_ = os.fork()
            if pid_ == 0:
                code = 3
                try:
                    work = os.path.join(tmp, f"work{shard}")
                    os.mkdir(work)
                    os.chdir(work)
                    res = _shard(subs, pid, tier, seed, shard, shards, deadline)
                    with open(out, "wb") as f:
                        pickle.dump(res, f)
                    code = 0
                except BaseException:  # noqa: BLE001
                    traceback.print_exc()
                finally:
                    sys.stdout.flush()
                    sys.stderr.flush()
                    os._exit(code)
            running[pid_] = (shard, out)
        done, status = os.wait()
        if done not in running:
            continue
        shard, out = running.pop(done)
        if status != 0:
            for other in running:
                os.kill(other, signal.SIGKILL)
            raise HarnessError(f"shard {shard} ended with status {status}")
        with open(out, "rb") as f:
            results[shard] = pickle.load(f)
        if results[shard]["found"]:
            pending.clear()  # let the shards already running finish
    return [results[k] for k in sorted(results)]


def write_evidence(pid, tier, seed, stats, rule, wall, violations, assumptions):
    path = os.path.join(os.environ.get("VERIF_OUT") or VERIF, "evidence", f"{pid}.json")
    os.makedirs(os.path.dirname(path), exist_ok=True)
    data = {
        "property": pid,
        "tier": tier,
        "seed": seed,
        "level": "exploration",
        "coverage": {
            "evaluations": stats.evaluations,
            "distinct_nontrivial": len(stats.nontrivial),
            "rule": rule,
            "samples": stats.samples[:8],
            "per_family": {
                k: {"evaluations": v[0], "distinct_nontrivial": v[1]}
                for k, v in stats.per_sub.items()
            },
            "labels": stats.labels,
        },
        "assumptions": assumptions,
        "wall_s": round(wall, 3),
        "violations": violations,
    }
    tmp = path + ".tmp"
    with open(tmp, "w") as f:
        json.dump(data, f, indent=1)
    os.replace(tmp, path)


def load_known(pid):
    path = os.path.join(VERIF, "known_findings.json")
    if not os.path.exists(path):
        return []
    with open(path) as f:
        return [e for e in json.load(f)["findings"] if e["property"] == pid and e["status"] == "known"]


def main_for(module, pid, tier, seed, replay=None):
    t0 = time.monotonic()
    subs = module.subs()
    rule = module.RULE
    stats = Stats()
    assumptions = getattr(module, "ASSUMPTIONS", [])
    if replay:
        with open(replay) as f:
            rep = json.load(f)
        sub = next(s for s in subs if s.name == rep["family"])
        try:
            _run_case(sub, rep["case"], stats)
        except Exception as e:  # noqa: BLE001
            print(f"replayed: {type(e).__name__}: {e}")
            print(f"VIOLATION property={pid} replay={replay}")
            return 1
        print("replayed: property holds on this case")
        return 0

    budget = float(os.environ.get("VERIF_BUDGET_S", "300" if tier == "quick" else "780"))
    shards = int(os.environ.get("VERIF_SHARDS") or getattr(module, "SHARDS", 6))
    found = None
    for result in _run_shards(subs, pid, tier, seed, shards, t0 + budget):
        stats.merge(result["stats"])
        if result["found"] and (found is None or result["found"]["size"] < found["size"]):
            found = result["found"]
    if found:
        d = os.path.join(os.environ.get("VERIF_OUT") or VERIF, "replays")
        os.makedirs(d, exist_ok=True)
        path = os.path.join(d, f"{pid}.json")
        with open(path, "w") as f:
            json.dump(
                {
                    "property": pid,
                    "family": found["family"],
                    "case": found["case"],
                    "message": found["msg"],
                    "traceback": found["tb"],
                    "seed": seed,
                    "replay_cmd": f"/opt/venv/bin/python run.py {pid} --replay {path}",
                },
                f,
                indent=1,
            )
        write_evidence(pid, tier, seed, stats, rule, time.monotonic() - t0, 1, assumptions)
        print(f"family={found['family']} {found['msg']}"[:2000])
        print(f"VIOLATION property={pid} replay={path}")
        return 1
    for k in load_known(pid):
        print(f"KNOWN-FINDING: property={pid} {k['what']}")
    write_evidence(pid, tier, seed, stats, rule, time.monotonic() - t0, 0, assumptions)
    print(
        f"OK property={pid} evaluations={stats.evaluations} "
        f"nontrivial={len(stats.nontrivial)} wall={time.monotonic() - t0:.1f}s"
    )
    return 0
