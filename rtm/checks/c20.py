"""C20 shift, diff and rolling_mean are exact translations and window means."""
from __future__ import annotations

import math
from fractions import Fraction as F

import numpy as np
import pandas as pd

import staircase as sc
from .. import domains, gen, model as M
from ..build import Builder
from ..model import SF
from ..observe import Mismatch, check_same, declabel, num
from ._stats import fits, mean_tol, plain, stat_sf, top

RULE = ("functions of every provenance (partly undefined, step-free, either closed side) in 5 domains shifted and differenced "
        "by positive, negative, zero and fractional amounts in every scalar flavour, shift / unshift round trips; rolling "
        "means with trailing, leading, centred and one-sided windows, smaller and larger than the pieces, over unbounded, "
        "half-bounded and bounded ranges: every returned point against the exact window mean, every expected knot present, "
        "interpolation between consecutive points against the exact rolling mean")


def amount(rng, dom):
    k = rng.random()
    if k < 0.1:
        return F(0)
    if k < 0.3 and dom.den > 1:
        return F(rng.choice([-3, -1, 1, 3]), dom.den)
    return F(rng.choice([-7, -3, -2, -1, 1, 2, 3, 4, 10]))


def follow(ctx, b, r, m):
    """the translated function is an ordinary, independent step function"""
    rng, dom = ctx.rng, b.dom
    k = rng.random()
    if k < 0.3:
        t = (rng.choice(list(m.pts) or [F(1)]), None, F(2))
        b.layer_scalar(r, t)
        check_same(r, m.layered([t]), dom, ctx, "shifted then layered")
    elif k < 0.5:
        check_same(ctx.call("negate", lambda: -r), M.negate(m), dom, ctx, "-shifted")


def shifts(ctx, i):
    rng = ctx.rng
    b = Builder(ctx, domains.pick(rng))
    dom = b.dom
    f = gen.sf(rng, dom, closed=rng.choice(["left", "right"]))
    st = b.operand(f)
    d = amount(rng, dom)
    dd = dom.delta(d, rng)
    ctx.log("shift", dd)
    r = ctx.call("shift", st.shift, dd)
    m = f.shift(d)
    check_same(r, m, dom, ctx, f"shift({d})", extra=f.pts)
    ctx.expect(r.closed == f.closed, f"shift turned a {f.closed}-closed function into a {r.closed}-closed one")
    check_same(st, f, dom, ctx, "the function that was shifted")
    if rng.random() < 0.4:
        back = ctx.call("shift", r.shift, dom.delta(-d))
        check_same(back, f, dom, ctx, "shift there and back")
        ctx.expect(ctx.call("identical", back.identical, st), "shift(d).shift(-d) is not identical")
    elif rng.random() < 0.3:
        e = amount(rng, dom)
        check_same(ctx.call("shift", r.shift, dom.delta(e, rng)), f.shift(d + e), dom, ctx, "two shifts")
    follow(ctx, b, r, m)
    ctx.note("shift", f.key(), d, dom.kind)


def diffs(ctx, i):
    rng = ctx.rng
    b = Builder(ctx, domains.pick(rng))
    dom = b.dom
    f = gen.sf(rng, dom, closed=rng.choice(["left", "right"]))
    st = b.operand(f)
    d = amount(rng, dom)
    dd = dom.delta(d, rng)
    ctx.log("diff", dd)
    r = ctx.call("diff", st.diff, dd)
    m = M.binary("subtract", f, f.shift(d))
    check_same(r, m, dom, ctx, f"diff({d})", extra=f.pts)
    if m.pts:
        ctx.expect(r.closed == f.closed, f"diff of a {f.closed}-closed function is {r.closed}-closed")
    check_same(st, f, dom, ctx, "the function that was differenced")
    follow(ctx, b, r, m)
    ctx.note("diff", f.key(), d, dom.kind)


def rolling_checks(ctx, b, st, f, l, r, lo, hi):
    rng, dom = ctx.rng, b.dom
    g = f.restrict(lo, hi)
    win = (dom.delta(l, rng), dom.delta(r, rng))
    if rng.random() < 0.3:
        win = list(win)
    lab = lambda x, s: dom.enc(x) if x is not None else rng.choice([None, -sc.inf if s < 0 else sc.inf])
    kw = {}
    if lo is not None or hi is not None or rng.random() < 0.4:
        kw["where"] = (lab(lo, -1), lab(hi, 1))
        if rng.random() < 0.3:
            kw["where"] = list(kw["where"])
    ctx.log("rolling_mean", win, **kw)
    s = ctx.call("rolling_mean", st.rolling_mean, win, **kw)
    what = f"rolling_mean({l}, {r}, where {lo}..{hi}) of {f}"
    if not isinstance(s, pd.Series):
        raise Mismatch(f"{what} is a {type(s).__name__}")
    if not g.pts:
        v = g.vals[0]
        for o in s:
            o = num(o)
            if o != (None if v is None else float(v)):
                raise Mismatch(f"{what} of a constant {v} reports {o}")
        return
    xs = [declabel(x, dom) for x in s.index]
    for u, v in zip(xs, xs[1:]):
        if not u < v:
            raise Mismatch(f"{what}: points not increasing: {xs}")
    keep = lambda x: (lo is None or x >= lo - l) and (hi is None or x <= hi - r)
    inner = [p for p in f.pts if (lo is None or p > lo) and (hi is None or p < hi)]
    need = {p - e for p in inner for e in (l, r) if keep(p - e)}
    may = need | {p - e for p in g.pts + tuple(y for y in (lo, hi) if y is not None) for e in (l, r) if keep(p - e)}
    if not need <= set(xs):
        raise Mismatch(f"{what} lacks the points {sorted(map(float, need - set(xs)))}; it has {list(map(float, xs))}")
    if not set(xs) <= may:
        raise Mismatch(f"{what} has points where no window edge meets a step point: {sorted(map(float, set(xs) - may))}")
    ys = [num(v) for v in s]
    for x, y in zip(xs, ys):
        w = g.restrict(x + l, x + r)
        ctx.count("rolling_points")
        if not w.finite_defined():
            if y is not None:
                raise Mismatch(f"{what} is {y} at {float(x)}, expected undefined")
            continue
        e = float(w.mean())
        if y is None or abs(y - e) > mean_tol(w, dom) + 1e-9 * abs(e):
            raise Mismatch(f"{what} is {y} at {float(x)}, expected {e}")
    for (x1, y1), (x2, y2) in zip(zip(xs, ys), list(zip(xs, ys))[1:]):
        span = g.restrict(x1 + l, x2 + r)
        if sum((n for n, _ in span.finite_defined()), F(0)) != (x2 + r) - (x1 + l):
            continue
        for t in (F(1, 2), F(rng.randint(1, 7), 8)):
            x = x1 + (x2 - x1) * t
            w = g.restrict(x + l, x + r)
            e = float(w.mean())
            o = y1 + (y2 - y1) * float(t)
            ctx.count("interpolations")
            if abs(o - e) > 2 * mean_tol(w, dom) + 1e-9 * max(1.0, top(f)):
                raise Mismatch(f"{what}: interpolating between {float(x1)} and {float(x2)} gives {o} at {float(x)}, expected {e}")


def rolling(ctx, i):
    rng = ctx.rng
    b = Builder(ctx, domains.pick(rng))
    dom = b.dom
    f = stat_sf(rng, dom, closed=rng.choice(["left", "right"]), pals=["small", "pos", "frac", "bool"],
                p_nan=rng.choice([0, 0, 0, 0.2, 0.4]))
    if rng.random() < 0.05:
        f = SF.const(F(rng.choice([0, 2])), f.closed)
    st = b.operand(f)
    l, r = rng.choice([(-1, 1), (-2, 2), (0, 2), (-3, 0), (1, 2), (-4, -1), (-1, 3), (-10, 10), (0, 1), (-8, 0)])
    l, r = F(l), F(r)
    if dom.den > 1 and rng.random() < 0.3:
        r = l + F(rng.randint(1, 5), dom.den)
    pts = list(f.pts) or [F(0), F(4)]
    for _ in range(40):
        def pick():
            k = rng.random()
            if k < 0.35:
                return None
            if k < 0.65:
                return rng.choice(pts)
            return rng.choice([pts[0] - 2, pts[-1] + 3, rng.choice(pts) + 1, pts[0] + F(1, dom.den)])
        lo, hi = pick(), pick()
        if lo is None or hi is None or lo < hi:
            break
    else:
        lo = hi = None
    rolling_checks(ctx, b, st, f, l, r, lo, hi)
    check_same(st, f, dom, ctx, "the function averaged")
    ctx.note("roll", f.key(), l, r, lo, hi, dom.kind)


def large(ctx, i):
    rng = ctx.rng
    b = Builder(ctx, domains.pick(rng))
    dom = b.dom
    f = gen.sf(rng, dom, pal=gen.PALETTES["pos"], closed=rng.choice(["left", "right"]), n=rng.choice([40, 80]), p_nan=0.1)
    st = b.operand(f, depth=0)
    d = amount(rng, dom)
    check_same(ctx.call("shift", st.shift, dom.delta(d)), f.shift(d), dom, ctx, "shift")
    check_same(ctx.call("diff", st.diff, dom.delta(d)), M.binary("subtract", f, f.shift(d)), dom, ctx, "diff")
    rolling_checks(ctx, b, st, f, F(-2), F(3), rng.choice([None, F(4)]), rng.choice([None, F(50)]))
    ctx.note("large", f.key())


def landing(ctx, i):
    """floats are sparser where the step points land: points too close to each other coincide there"""
    rng = ctx.rng
    dom = domains.NumDomain("float", 0, 1, 1)
    b = Builder(ctx, dom)
    pts = sorted({F(rng.choice([0, 0, 1, 2, -3])) + F(rng.choice([0, 0, 1, 2, 5]), 2**12) if rng.random() < 0.5
                  else F(rng.randint(-3, 4), 2 ** rng.choice([60, 70])) for _ in range(rng.randint(2, 7))})
    f = gen.sf(rng, dom, closed=rng.choice(["left", "right"]), pts=pts)
    st = b.operand(f)
    d = F(rng.choice([1, -1, F(1, 4), 100, -2**10, 2**30]))
    land = {}
    for p, v in zip(f.pts, f.vals[1:]):
        land[F(float(p) + float(d))] = v          # the last of the points that coincide prevails
    m = SF(tuple(land), (f.vals[0], *land.values()), f.closed)
    ctx.log("shift", float(d))
    r = ctx.call("shift", st.shift, rng.choice([float(d), np.float64(float(d)), int(d)] if d.denominator == 1 else [float(d)]))
    if len(land) < len(f.pts):
        ctx.count("coinciding")
    check_same(r, m, dom, ctx, f"shift({d}) of points closer than floats there")
    ctx.expect(ctx.call("closed", lambda: r.closed) == f.closed, "shift changed the closed side")
    g = gen.sf(rng, dom, closed=f.closed, pts=sorted(set(list(land)[:2] + [F(0), F(1)])))
    other = b.operand(g, depth=0)
    op = rng.choice(["add", "subtract", "multiply", "mask", "fillna", "diff"])
    ctx.log(op, "of the shifted")
    if op == "mask":
        check_same(ctx.call("mask", r.mask, other), M.mask(m, g), dom, ctx, "shifted then masked")
    elif op == "fillna":
        check_same(ctx.call("fillna", r.fillna, other), M.fillna(m, g), dom, ctx, "shifted then filled")
    elif op == "diff":
        check_same(ctx.call("diff", st.diff, float(d)), M.binary("subtract", f, m), dom, ctx, "diff")
    else:
        check_same(ctx.call(op, getattr(r, op), other), M.binary(op, m, g), dom, ctx, f"shifted {op}")
    follow(ctx, b, r, m)
    ctx.note("landing", f.key(), d)


KINDS = {"shift": shifts, "diff": diffs, "rolling": rolling, "large": large, "landing": landing}
REQUIRE = {"op:shift": 1200, "op:diff": 700, "op:rolling_mean": 900, "rolling_points": 5000, "interpolations": 3000, "coinciding": 60}


def plan(tier):
    if tier == "quick":
        return [("shift", 1200), ("diff", 900), ("rolling", 1300), ("large", 16), ("landing", 240)]
    return [("shift", 30000), ("diff", 25000), ("rolling", 30000), ("large", 300), ("landing", 6000)]
