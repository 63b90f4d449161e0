"""Two cases of a check under a generated schedule: objects of both are alive at once and their calls interleave.

Each case runs in a thread of its own, but only one of them runs at a time: the baton changes hands only right before a check
calls into the code under test, never inside such a call, and at the call numbers of the schedule. So this explores sequential
histories over two independent sets of objects (state shared between instances, caches with a short key), not data races.
"""
import copy
import os
import sys
import threading

from hypothesis import strategies as st

from pbt.runner import HarnessError, Sub
from verif_env import REPO

RULE = (
    " Two at once: two independent cases under a schedule of up to 10 switches, each at a call from a check into the code under "
    "test; every answer is compared as in a case alone."
)

_ROOT = os.path.join(os.path.realpath(REPO), "")


def _ours(code, _memo={}):
    name = code.co_filename
    if name not in _memo:
        _memo[name] = os.path.realpath(name).startswith(_ROOT)
    return _memo[name]


class _Abort(BaseException):
    pass


class _Race:
    def __init__(self, gaps):
        self.gaps = list(gaps)
        self.turn, self.over, self.dead = 0, [False, False], False
        self.errors = []
        self.cond = threading.Condition()
        self.switches = 0

    def wait(self, me):
        while self.turn != me:
            self.cond.wait(1.0)
            if self.dead:
                raise _Abort()

    def pause(self, me):
        if not self.gaps:
            sys.settrace(None)
            return
        self.gaps[0] -= 1
        if self.gaps[0] >= 0:
            return
        self.gaps.pop(0)
        with self.cond:
            if not self.over[1 - me]:
                self.switches += 1
                self.turn = 1 - me
                self.cond.notify_all()
                self.wait(me)

    def run(self, me, body):
        def tracer(frame, event, arg):
            if event == "call" and frame.f_code.co_name != "<module>" and _ours(frame.f_code):  # never under the lock of an import
                f = frame.f_back
                while f is not None and not _ours(f.f_code):
                    f = f.f_back
                if f is None:
                    self.pause(me)
            return None

        try:
            with self.cond:
                self.wait(me)
            sys.settrace(tracer)
            body()
        except _Abort:
            pass
        except BaseException as e:
            self.errors.append(e)
        finally:
            sys.settrace(None)
            with self.cond:
                self.over[me] = True
                self.turn = 1 - me
                self.cond.notify_all()


def interleaved(fn):
    def check(c, ctx):
        race = _Race(c["gaps"])
        stdout = sys.stdout
        threads = [threading.Thread(target=race.run, args=(i, lambda k=k: fn(c[k], ctx)), daemon=True) for i, k in enumerate("ab")]
        try:
            for t in threads:
                t.start()
            for t in threads:
                while t.is_alive():
                    t.join(5.0)
        except BaseException:  # the time limit of a case
            race.dead = True
            raise
        finally:  # both may have redirected it
            sys.stdout = stdout
        if race.errors:
            raise race.errors[0]
        if not all(race.over):
            raise HarnessError("a case of the pair did not run")
        ctx.is_nontrivial = race.switches > 0 and ctx.is_nontrivial
        ctx.label("interleaved", race.switches > 0)
        ctx.label("alike", c["alike"])

    return check


@st.composite
def both(draw, strategy, twist):
    a = draw(strategy)
    alike = bool(twist) and draw(st.integers(0, 2)) > 0
    if not alike:
        b = draw(strategy)
    elif callable(twist):
        b = draw(twist(a))
    else:  # the two differ in some parameters only
        b = copy.deepcopy(a)
        keys = [k for k in twist if k in a]
        for k in draw(st.lists(st.sampled_from(keys), min_size=1, max_size=3, unique=True)) if keys else []:
            if twist[k] == "reverse":
                b[k] = list(reversed(b[k])) if isinstance(b[k], list) else b[k]
            else:
                b[k] = draw(twist[k](b) if callable(twist[k]) else twist[k])
    if alike and draw(st.booleans()):
        a, b = b, a
    return {"a": a, "b": b, "alike": alike, "gaps": draw(st.lists(st.integers(0, 4), min_size=1, max_size=10))}


def two(strategy, fn, quick, thorough=0, twist=None, name="two at once"):
    """twist: how a second case differs from the first one, {parameter: "reverse" | strategy | case -> strategy} or case -> strategy"""
    return Sub(name, both(strategy, twist), interleaved(fn), quick=quick, thorough=thorough or quick * 15)
