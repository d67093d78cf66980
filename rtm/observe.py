"""Reading a Stairs back through its public API, and comparing with a model."""
from __future__ import annotations

from fractions import Fraction as F
import math
import numbers

import numpy as np
import pandas as pd

import staircase as sc
from .model import SF
from .domains import LabelError

NEG, POS = -sc.inf, sc.inf


class Mismatch(Exception):
    """the observation contradicts the model"""


def num(v, what="value"):
    """A reported function value -> float, or None for undefined."""
    if v is None or v is pd.NA or v is pd.NaT:
        raise Mismatch(f"{what} is {v!r}, not a number")
    if isinstance(v, (bool, np.bool_)):
        return float(v)
    if not isinstance(v, numbers.Number) and not isinstance(v, np.number):
        raise Mismatch(f"{what} is {v!r} of type {type(v).__name__}, not a number")
    v = float(v)
    if math.isnan(v):
        return None
    return v


def is_inf(label, sign):
    if label is (POS if sign > 0 else NEG):
        return True
    return isinstance(label, float) and math.isinf(label) and (label > 0) == (sign > 0)


def near(o, e, exact, scale=1.0, rtol=1e-9):
    """observed float / None versus expected Fraction / None"""
    if o is None or e is None:
        return o is None and e is None
    if math.isinf(o) or math.isnan(o):
        return False
    if exact:
        try:
            if F(o) == e:
                return True
        except OverflowError:
            return False
        if F(float(e)) == e:
            return False
    ef = float(e)
    return abs(o - ef) <= rtol * max(abs(ef), scale if not exact else 0.0)


class Obs:
    """function as reported by to_frame"""
    __slots__ = ("pts", "vals")

    def __init__(self, pts, vals):
        self.pts, self.vals = pts, vals

    def __repr__(self):
        s = f"{self.vals[0]}"
        for p, v in zip(self.pts, self.vals[1:]):
            s += f" |{float(p):g}| {v}"
        return f"<obs {s}>"


def frame(st, dom, call):
    df = call("to_frame", st.to_frame)
    if list(df.columns) != ["start", "end", "value"]:
        raise Mismatch(f"to_frame columns {list(df.columns)}")
    st_l, en_l = list(df["start"]), list(df["end"])
    vals = [num(v, "to_frame value") for v in df["value"].tolist()]
    if not st_l or not is_inf(st_l[0], -1) or not is_inf(en_l[-1], +1):
        raise Mismatch(f"to_frame does not span (-inf, inf): {st_l[:1]} .. {en_l[-1:]}")
    pts = [declabel(l, dom) for l in st_l[1:]]
    ends = [declabel(l, dom) for l in en_l[:-1]]
    if pts != ends:
        raise Mismatch(f"to_frame rows do not tile: starts {st_l} ends {en_l}")
    for a, b in zip(pts, pts[1:]):
        if not a < b:
            raise Mismatch(f"to_frame step points not strictly increasing: {st_l}")
    return Obs(pts, vals)


def declabel(label, dom):
    try:
        if is_inf(label, 1) or is_inf(label, -1):
            raise Mismatch(f"infinite step point {label}")
        return dom.dec(label)
    except LabelError as e:
        raise Mismatch(str(e))
    except (TypeError, ValueError, OverflowError) as e:
        raise Mismatch(f"cannot read step point {label!r}: {e}")


def same_function(obs, exp: SF, what="result"):
    """Pointwise comparison (redundant step points are not held against it)."""
    pts = sorted(set(obs.pts) | set(exp.pts))
    scale = max([1.0] + [abs(float(v)) for v in exp.vals if v is not None])
    def olim(p):
        i = _br(obs.pts, p)
        return obs.vals[i]
    pairs = [("-inf", obs.vals[0], exp.vals[0])] + [(p, olim(p), exp.lim(p, "right")) for p in pts]
    for p, o, e in pairs:
        if o is not None and math.isinf(o):
            raise Mismatch(f"{what} takes an infinite value from {p}: {obs}")
        if not near(o, e, exp.exact, scale):
            raise Mismatch(f"{what} is {o} from {p} on, expected {None if e is None else float(e)}\n"
                           f"  observed {obs}\n  expected {exp}")


def _br(pts, x):
    import bisect
    return bisect.bisect_right(pts, x)


def probes(exp: SF, extra=()):
    """points exactly at, between and beyond all step points"""
    pts = sorted(set(exp.pts) | set(extra))
    if not pts:
        return [F(0), F(1), F(-2)]
    out = list(pts)
    for a, b in zip(pts, pts[1:]):
        out.append((a + b) / 2)
    out += [pts[0] - 1, pts[-1] + 1]
    return out


def on_grid(xs, dom):
    g = dom.den
    return [x for x in xs if (x * g).denominator == 1]


def check_limits(st, exp: SF, dom, call, extra=(), what="result"):
    xs = on_grid(probes(exp, extra), dom)
    labels = dom.array(xs)
    scale = max([1.0] + [abs(float(v)) for v in exp.vals if v is not None])
    for side in ("left", "right"):
        got = call("limit", st.limit, labels, side)
        if len(got) != len(xs):
            raise Mismatch(f"{what}.limit returned {len(got)} values for {len(xs)} points")
        for x, o in zip(xs, got):
            o = num(o, f"{what}.limit({x},{side})")
            e = exp.lim(x, side)
            if o is not None and math.isinf(o):
                raise Mismatch(f"{what}.limit({x}, {side}) is infinite")
            if not near(o, e, exp.exact, scale):
                raise Mismatch(f"{what}.limit({x}, {side!r}) = {o}, expected {None if e is None else float(e)}; expected function {exp}")
    return len(xs) * 2


def check_sample(st, exp: SF, dom, call, what="result"):
    xs = on_grid(probes(exp), dom)
    scale = max([1.0] + [abs(float(v)) for v in exp.vals if v is not None])
    got = call("sample", st, dom.array(xs))
    for x, o in zip(xs, got):
        o = num(o, f"{what}({x})")
        if not near(o, exp.at(x), exp.exact, scale):
            raise Mismatch(f"{what}({x}) = {o}, expected {exp.at(x)} ({exp.closed}-closed); expected function {exp}")


def minimal(obs, what="result"):
    for i, p in enumerate(obs.pts):
        a, b = obs.vals[i], obs.vals[i + 1]
        if a == b or (a is None and b is None):
            raise Mismatch(f"{what} is not minimal: redundant step point {p} in {obs}")


def check_same(st, exp: SF, dom, ctx, what="result", sample=None, extra=(), need_minimal=False):
    """Full observation of a result: piece table + one-sided limits (+ closed side)."""
    call = ctx.call
    if not isinstance(st, sc.Stairs):
        raise Mismatch(f"{what} is a {type(st).__name__}, not a step function")
    order = ctx.rng.random()
    if order < 0.25:
        check_limits(st, exp, dom, call, extra, what)
    elif order < 0.4:
        call("step_changes", lambda: st.step_changes)
    o = frame(st, dom, call)
    same_function(o, exp, what)
    if need_minimal:
        minimal(o, what)
    if order >= 0.25:
        check_limits(st, exp, dom, call, extra, what)
    if sample or (sample is None and st.closed == exp.closed):
        check_sample(st, exp, dom, call, what)
    ctx.count("functions_observed")
    ctx.count("pieces_observed", len(o.vals))
    return o
