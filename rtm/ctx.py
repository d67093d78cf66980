"""Client-side boundary: every public call of a workload goes through here."""
from __future__ import annotations

import collections
import hashlib
import inspect
import random
import traceback

import numpy as np
import pandas as pd


class Violation(Exception):
    def __init__(self, msg, kind="mismatch"):
        super().__init__(msg)
        self.kind = kind


class Skip(Exception):
    """the case's precondition could not be established"""


def short(v):
    if isinstance(v, pd.Series):
        return f"Series({v.tolist()!r}, index={v.index.tolist()!r}, dtype={v.dtype})"
    if isinstance(v, pd.DataFrame):
        return f"DataFrame({ {c: v[c].tolist() for c in v} }, index={v.index.tolist()})"
    if isinstance(v, np.ndarray):
        return f"array({v.tolist()!r}, dtype={v.dtype})"
    r = repr(v)
    return r if len(r) < 400 else r[:400] + "..."


POSITIONAL = (inspect.Parameter.POSITIONAL_ONLY, inspect.Parameter.POSITIONAL_OR_KEYWORD)
_PUBLIC = {}


def public_signature(fn):
    """signature of a function of the library, None for anything else"""
    f = fn.__func__ if inspect.ismethod(fn) else fn
    if not inspect.isfunction(f):
        return None
    key = (f, inspect.ismethod(fn))
    if key not in _PUBLIC:
        sig = None
        if (getattr(inspect.unwrap(f), "__module__", None) or "").startswith("staircase"):
            sig = inspect.signature(fn)
            if any(p.kind not in POSITIONAL for p in sig.parameters.values()):
                sig = None
        _PUBLIC[key] = sig
    return _PUBLIC[key]


def respell(rng, fn, args, kw):
    """the same call with its arguments named, or not named, otherwise"""
    sig = public_signature(fn)
    if sig is None:
        return None
    try:
        bound = sig.bind(*args, **kw).arguments
    except TypeError:
        return None
    names = list(sig.parameters)
    contiguous = 0
    while contiguous < len(names) and names[contiguous] in bound:
        contiguous += 1
    k = rng.choice([0, contiguous, rng.randint(0, contiguous)])
    return tuple(bound[n] for n in names[:k]), {n: v for n, v in bound.items() if n not in names[:k]}


def frozen(x):
    """what a mutable argument holds, None for anything else"""
    if isinstance(x, list):
        return list(x)
    if isinstance(x, dict):
        return list(x.items())
    if isinstance(x, np.ndarray):
        return x.copy()
    if isinstance(x, (pd.Series, pd.DataFrame)):
        return x.copy(deep=True)
    if type(x).__name__ == "StairsArray":
        return list(x)
    return None


def still(x, was):
    if isinstance(x, list):
        return len(x) == len(was) and all(a is b for a, b in zip(x, was))
    if isinstance(x, dict):
        return len(x) == len(was) and all(a is c and b is d for (a, b), (c, d) in zip(x.items(), was))
    if isinstance(x, np.ndarray):
        if x.dtype != was.dtype or x.shape != was.shape:
            return False
        return all(a is b for a, b in zip(x, was)) if x.dtype == object else np.array_equal(x, was, equal_nan=x.dtype.kind in "fcmM")
    if type(x).__name__ == "StairsArray":
        return len(x) == len(was) and all(a is b for a, b in zip(x, was))
    if type(x) is not type(was) or x.shape != was.shape or not x.index.equals(was.index):
        return False
    if isinstance(x, pd.Series):
        if x.dtype == object or str(x.dtype) == "Stairs":
            return x.dtype == was.dtype and all(a is b for a, b in zip(x, was))
        return x.equals(was)
    return list(x.columns) == list(was.columns) and all(still(x[c], was[c]) for c in x.columns)


class Ctx:
    def __init__(self, prop, seed, index, tier="quick"):
        self.prop, self.seed, self.index, self.tier = prop, seed, index, tier
        self.rng = random.Random(f"{seed}/{prop}/{index}")
        self.spelling = random.Random(f"{seed}/{prop}/{index}/spelling")
        self.counts = collections.Counter()
        self.events = []
        self.routes_ = collections.Counter()
        self.sig = []           # what makes this case distinct
        self.tags = set()       # mechanism labels (for the known-findings file)

    # ------------------------------------------------------------- recording
    def log(self, *what, **kw):
        self.events.append((what, kw))

    def count(self, key, n=1):
        self.counts[key] += n

    def route(self, r):
        self.counts["route:" + r] += 1

    def note(self, *parts):
        self.sig.append(repr(parts))

    def signature(self):
        return hashlib.sha1("|".join(self.sig).encode()).hexdigest()[:16]

    def transcript(self):
        out = []
        for what, kw in self.events[-80:]:
            s = " ".join(short(w) if not isinstance(w, str) else w for w in what)
            if kw:
                s += " " + ", ".join(f"{k}={short(v)}" for k, v in kw.items())
            out.append(s)
        return out

    # -------------------------------------------------------------- boundary
    def call(self, name, fn, *args, **kw):
        """a public call; an exception out of it is itself an observation"""
        self.counts["calls"] += 1
        self.counts["op:" + name] += 1
        if (args or kw) and self.spelling.random() < 0.15:
            other = respell(self.spelling, fn, args, kw)
            if other is not None:
                args, kw = other
                self.counts["respelled"] += 1
        # the same question put again must mean the same: arguments are the caller's
        held = [(k, a, frozen(a)) for k, a in [("self", getattr(fn, "__self__", None)), *enumerate(args), *kw.items()]]
        held = [h for h in held if h[2] is not None]
        try:
            r = fn(*args, **kw)
        except Exception as e:
            tb = traceback.extract_tb(e.__traceback__)
            where = [f"{f.filename.split('/repo/')[-1]}:{f.name}" for f in tb if "/repo/" in f.filename]
            raise Violation(f"{name} raised {type(e).__name__}: {str(e)[:300]} (in {', '.join(where[-3:]) or 'call'})",
                            kind=f"raise:{type(e).__name__}") from e
        for k, a, was in held:
            self.counts["arguments_held"] += 1
            if not still(a, was):
                raise Violation(f"{name} changed its argument {k}: {short(was)} became {short(a)}", kind="argument")
        return r

    def raises(self, name, exc, fn, *args, **kw):
        self.counts["calls"] += 1
        self.counts["op:" + name] += 1
        try:
            r = fn(*args, **kw)
        except exc:
            self.counts["expected_errors"] += 1
            return
        except Exception as e:
            raise Violation(f"{name} raised {type(e).__name__}: {str(e)[:200]}, expected {exc.__name__}",
                            kind=f"raise:{type(e).__name__}") from e
        raise Violation(f"{name} did not raise {exc.__name__} (returned {short(r)})", kind="noraise")

    def expect(self, cond, msg):
        self.counts["assertions"] += 1
        if not cond:
            raise Violation(msg)
