"""Runtime of tools/inject.py: wraps one function of the code under test so that it misbehaves when a trigger holds."""
import functools
import os
import weakref

import numpy as np

ALIVE = weakref.WeakSet()
MEMO = {}


def arrays(xs, depth=0):
    for x in xs:
        if isinstance(x, np.ndarray):
            yield x
        elif isinstance(x, (list, tuple)) and depth < 2:
            if x and all(isinstance(v, (int, float)) and not isinstance(v, bool) for v in x):
                yield np.array(x)
            elif isinstance(x, tuple):
                yield from arrays(x, depth + 1)


def nums(xs):
    return [a for a in arrays(xs) if a.size and a.dtype.kind in "iuf"]


def trig(name, self, args, kwargs, res, key):
    vals = list(args) + list(kwargs.values())
    both = nums(vals + [res])
    a = nums(vals)
    if name == "big":
        return any(x.size > 300 for x in both)
    if name == "big1000":
        return any(x.size > 1000 for x in both)
    if name == "nd3":
        return any(x.ndim >= 3 for x in both)
    if name == "third":
        k = (key, id(self) if self is not None else 0)
        MEMO[k] = MEMO.get(k, 0) + 1
        return MEMO[k] >= 3
    if name == "two":
        return sum(1 for x in ALIVE) >= 2
    if name == "neg":
        return any(bool((x < 0).all()) for x in both)
    if name == "ends":
        return any(bool(((x == 127) | (x == -128)).any()) for x in both)
    if name == "narrow":
        return any(x.dtype.kind in "iu" and x.dtype.itemsize < 4 for x in a)
    if name == "f32":
        return any(x.dtype == np.float32 for x in a)
    if name == "one":
        return any(x.shape[:1] == (1,) for x in both)
    if name == "equal":
        return any(x.size > 1 and bool((x == x.flat[0]).all()) for x in both)
    if name == "order":
        return any(not x.flags["C_CONTIGUOUS"] for x in arrays(vals))
    if name == "same_shape":
        s = tuple(x.shape for x in a)
        k = (key, id(self) if self is not None else 0)
        old, MEMO[k] = MEMO.get(k), s
        return bool(a) and old == s
    if name == "same_first":
        s = tuple(float(x.flat[0]) for x in a)
        k = (key, id(self) if self is not None else 0)
        old, MEMO[k] = MEMO.get(k), s
        return bool(a) and old == s
    if name == "square":
        return any(x.ndim >= 2 and x.shape[-1] == x.shape[-2] > 1 for x in both)
    if name == "zero":
        return any(bool((x == 0).all()) for x in both)
    if name == "rows33":
        return any(x.ndim >= 2 and len(x) > 33 for x in both)
    if name == "wide":
        return any(x.ndim >= 1 and x.shape[-1] > 64 for x in both)
    if name == "large":
        return any(float(np.abs(x).max()) > 2**24 for x in both)
    if name == "small":
        return any(x.dtype.kind == "f" and 0 < float(np.abs(x).max()) < 1e-4 for x in both) or any(isinstance(v, float) and 0 < abs(v) < 1e-5 for v in vals)
    raise ValueError(name)


TRIGGERS = ["big", "big1000", "nd3", "third", "two", "neg", "ends", "narrow", "f32", "one", "equal", "order", "same_shape", "same_first", "square", "zero", "rows33", "wide", "large", "small"]


def perturb(r):
    """another value of the same kind, or None when there is nothing to change"""
    if isinstance(r, np.ndarray) and r.size and r.dtype.kind in "iuf":
        r = np.array(r)
        i = r.size - 1
        v = r.flat[i]
        if r.dtype.kind == "f":
            r.flat[i] = v * 1.5 + (0.5 if abs(v) < 1e-3 else 0)
        else:
            r.flat[i] = v - 1 if v > np.iinfo(r.dtype).min else v + 1
        return r
    if isinstance(r, (np.floating, float)) and not isinstance(r, bool):
        return type(r)(r * 1.5)
    if isinstance(r, (np.integer, int)) and not isinstance(r, (bool, np.bool_)):
        return type(r)(r - 1)
    if isinstance(r, (bool, np.bool_)):
        return not r
    if isinstance(r, list) and r:
        p = perturb(r[-1])
        return r[:-1] + [p] if p is not None else r[:-1]
    if isinstance(r, tuple) and r:
        for i in reversed(range(len(r))):
            p = perturb(r[i])
            if p is not None:
                return r[:i] + (p,) + r[i + 1:]
        return None
    if isinstance(r, dict) and r:
        k = list(r)[-1]
        p = perturb(r[k])
        return dict(r, **{k: p}) if p is not None else {a: b for a, b in r.items() if a != k}
    return None


def note(path, what):
    fd = os.open(path, os.O_WRONLY | os.O_APPEND | os.O_CREAT)
    os.write(fd, what)
    os.close(fd)


def install(scope, qual, name, path):
    parts = qual.split(".")
    owner = scope
    for p in parts[:-1]:
        owner = owner[p] if isinstance(owner, dict) else getattr(owner, p)
    raw = owner[parts[-1]] if isinstance(owner, dict) else owner.__dict__[parts[-1]]
    kind = type(raw)
    fn = raw.__func__ if kind in (staticmethod, classmethod) else raw.fget if kind is property else raw
    method = not isinstance(owner, dict) and kind is not staticmethod
    count = {"n": 0}

    @functools.wraps(fn)
    def new(*a, **k):
        self = a[0] if method and a else None
        if name == "two" and self is not None:
            try:
                ALIVE.add(self)
            except TypeError:
                pass
        r = fn(*a, **k)
        try:
            hit = trig(name, self, a[1:] if method else a, k, r, qual)
        except Exception:
            hit = False
        if hit:
            p = perturb(r)
            if p is not None:
                count["n"] += 1
                if count["n"] in (1, 10, 100):
                    note(path, b"+")
                return p
        return r

    new = staticmethod(new) if kind is staticmethod else classmethod(new) if kind is classmethod else property(new, raw.fset, raw.fdel) if kind is property else new
    if isinstance(owner, dict):
        owner[parts[-1]] = new
    else:
        setattr(owner, parts[-1], new)


def record(scope, rel, quals, path):
    """notes which triggers hold at all for the functions of a module; nothing is changed"""
    for qual in quals:
        try:
            parts = qual.split(".")
            owner = scope
            for p in parts[:-1]:
                owner = owner[p] if isinstance(owner, dict) else getattr(owner, p)
            raw = owner[parts[-1]] if isinstance(owner, dict) else owner.__dict__[parts[-1]]
        except (KeyError, AttributeError):
            continue
        kind = type(raw)
        fn = raw.__func__ if kind in (staticmethod, classmethod) else raw.fget if kind is property else raw
        if not callable(fn):
            continue
        method = not isinstance(owner, dict) and kind is not staticmethod

        def wrap(fn, method, qual):
            seen, alive = set(), weakref.WeakSet()

            @functools.wraps(fn)
            def new(*a, **k):
                self = a[0] if method and a else None
                r = fn(*a, **k)
                if not seen:
                    seen.add("")
                    note(path, f"{rel}\t{qual}\tcalled\n".encode())
                for t in TRIGGERS:
                    if t in seen or t == "two":
                        continue
                    try:
                        hit = trig(t, self, a[1:] if method else a, k, r, qual + t) and perturb(r) is not None
                    except Exception:
                        hit = False
                    if hit:
                        seen.add(t)
                        note(path, f"{rel}\t{qual}\t{t}\n".encode())
                if "two" not in seen and self is not None:
                    try:
                        alive.add(self)
                        if len(alive) > 1 and perturb(r) is not None:
                            seen.add("two")
                            note(path, f"{rel}\t{qual}\ttwo\n".encode())
                    except TypeError:
                        seen.add("two")
                return r

            return new

        new = wrap(fn, method, qual)
        new = staticmethod(new) if kind is staticmethod else classmethod(new) if kind is classmethod else property(new, raw.fset, raw.fdel) if kind is property else new
        if isinstance(owner, dict):
            owner[parts[-1]] = new
        else:
            setattr(owner, parts[-1], new)
