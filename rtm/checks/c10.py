"""C10 min / max / values_in_range over a window respect endpoint closedness exactly."""
from __future__ import annotations

import math
from fractions import Fraction as F

import numpy as np
import pandas as pd

import staircase as sc
from .. import domains, gen, model as M
from ..build import Builder
from ..model import SF
from ..observe import Mismatch, num
from ._stats import plain

RULE = ("functions of every provenance, both closed sides, undefined regions included, in 5 domains; windows whose ends lie "
        "on, between and beyond step points, half-unbounded and unbounded, degenerate [a, a]; all four endpoint conventions "
        "and the default; values_in_range / agg single and list / min / max; complete windows x conventions tables for an "
        "enumerated small set")
CLOSED = ["left", "right", "both", "neither"]


def values(ctx, st, f, dom, lo, hi, closed, kw):
    ctx.log("values_in_range", **kw)
    r = ctx.call("values_in_range", st.values_in_range, **kw)
    got = [num(v, "values_in_range element") for v in r]
    exp = f.values_on(lo, hi, closed or f.closed)
    ctx.count("answers_observed")
    ctx.count("closed:%s/%s" % (f.closed, closed or "default"))
    if any(v is None for v in got):
        raise Mismatch(f"values_in_range({lo}, {hi}, {closed}) of {f} contains an undefined value: {got}")
    if len(set(got)) != len(got):
        raise Mismatch(f"values_in_range({lo}, {hi}, {closed}) of {f} repeats values: {got}")
    if {F(v) for v in got} != exp:
        raise Mismatch(f"values_in_range({lo}, {hi}, {closed}) of {f} is {sorted(got)}, expected {sorted(map(float, exp))}")
    return exp


def minmax(ctx, st, f, dom, lo, hi, closed, kw):
    exp = f.values_on(lo, hi, closed or f.closed)
    if not exp:
        return      # least / greatest element of nothing
    if lo is not None and lo == hi:
        return
    rng = ctx.rng
    names = rng.choice([["min", "max"], ["max", "min"], ["max"], ["min"], ["min", "mean", "max"]])
    if rng.random() < 0.5 and "mean" not in names:
        n = names[0]
        ctx.log("agg", n, **kw)
        got = {n: ctx.call("agg", st.agg, n, **kw)}
    else:
        ctx.log("agg", names, **kw)
        got = ctx.call("agg", st.agg, names, **kw)
        if not isinstance(got, pd.Series) or list(got.index) != names:
            raise Mismatch(f"agg({names}) returned {got!r}")
    for n in names:
        if n == "mean" or n not in got:
            continue
        o = plain(got[n], f"agg({n})")
        e = float((min if n == "min" else max)(exp))
        ctx.count("answers_observed")
        if o != e:
            raise Mismatch(f"agg({n!r}, ({lo}, {hi}), {closed}) of {f} is {o}, expected {e}")


def whole(ctx, st, f):
    exp = f.values_on(None, None, "both")
    if not exp:
        return
    for n, fn in (("min", min), ("max", max)):
        o = plain(ctx.call(n, getattr(st, n)), n)
        ctx.count("answers_observed")
        if o != float(fn(exp)):
            raise Mismatch(f"{n}() of {f} is {o}, expected {float(fn(exp))}")


def label(rng, dom, x, sign):
    if x is None:
        opts = [None, -sc.inf if sign < 0 else sc.inf]
        if not dom.is_time:
            opts.append(float(sign) * np.inf)
        return rng.choice(opts)
    if dom.is_time:
        return dom.enc(x)
    return dom.scalar(x, rng)


def pick(rng, f, dom):
    pts = list(f.pts) or [F(0)]
    k = rng.random()
    if k < 0.12:
        return None
    if k < 0.65:
        return rng.choice(pts)
    if k < 0.85:
        return rng.choice(pts) + F(rng.choice([-1, 1]), dom.den)
    return rng.choice([pts[0] - 2, pts[-1] + 2])


def random_window(ctx, i):
    rng = ctx.rng
    b = Builder(ctx, domains.pick(rng))
    dom = b.dom
    f = gen.sf(rng, dom, closed=rng.choice(["left", "right"]), hi=7)
    st = b.operand(f)
    for _ in range(4):
        lo, hi = pick(rng, f, dom), pick(rng, f, dom)
        if lo is not None and hi is not None and lo > hi:
            lo, hi = hi, lo
        closed = rng.choice(CLOSED + [None])
        if lo is not None and lo == hi:
            closed = "both"
        w = (label(rng, dom, lo, -1), label(rng, dom, hi, +1))
        kw = {}
        if lo is not None or hi is not None or rng.random() < 0.5:
            kw["where"] = list(w) if rng.random() < 0.3 else w
        if closed is not None or rng.random() < 0.3:
            kw["closed"] = closed
        if rng.random() < 0.5:
            values(ctx, st, f, dom, lo, hi, closed, kw)
        minmax(ctx, st, f, dom, lo, hi, closed, kw)
        if rng.random() < 0.5:
            values(ctx, st, f, dom, lo, hi, closed, kw)
        ctx.note(f.key(), lo, hi, closed, f.closed, dom.kind)
    whole(ctx, st, f)


_V = [None, F(0), F(2)]
SMALL = [SF([], [v]) for v in _V] + [SF([F(1)], [u, v]) for u in _V for v in _V if u != v] + \
        [SF([F(1), F(2)], [u, v, w]) for u in _V for v in _V for w in _V if u != v and v != w] + \
        [SF([F(1), F(3), F(4)], [F(u), F(v), F(w), F(z)]) for u, v, w, z in ((0, 1, 2, 3), (3, 2, 1, 0), (1, 0, 5, 2), (0, 1, 0, 1))]
_G = [None] + [F(x, 2) for x in range(1, 10)]


def exhaustive(ctx, i):
    rng = ctx.rng
    dom = domains.NumDomain("float", 0, 1, 2) if i % 2 else domains.naive_domain(rng)
    while dom.den == 1:
        dom = domains.naive_domain(rng)
    b = Builder(ctx, dom)
    f = SMALL[(i // 4) % len(SMALL)].with_closed(["left", "right"][(i // 2) % 2])
    st = b.operand(f)
    for lo in _G:
        for hi in _G:
            if lo is not None and hi is not None and lo > hi:
                continue
            for closed in CLOSED:
                if lo is not None and lo == hi and closed != "both":
                    continue
                kw = {"where": (label(rng, dom, lo, -1), label(rng, dom, hi, +1)), "closed": closed}
                values(ctx, st, f, dom, lo, hi, closed, kw)
                if rng.random() < 0.25:
                    minmax(ctx, st, f, dom, lo, hi, closed, kw)
    whole(ctx, st, f)
    ctx.note("exh", f.key(), f.closed, dom.kind)


def large(ctx, i):
    rng = ctx.rng
    b = Builder(ctx, domains.pick(rng))
    dom = b.dom
    f = gen.sf(rng, dom, closed=rng.choice(["left", "right"]), n=gen.big(rng, 100, 300), pal=gen.PALETTES["wide"] + gen.PALETTES["frac"])
    st = b.operand(f, depth=0)
    for _ in range(20):
        j = rng.randrange(len(f.pts) - 3)
        lo, hi = f.pts[j], f.pts[j + rng.randint(1, 3)]
        closed = rng.choice(CLOSED)
        kw = {"where": (dom.enc(lo), dom.enc(hi)), "closed": closed}
        values(ctx, st, f, dom, lo, hi, closed, kw)
        minmax(ctx, st, f, dom, lo, hi, closed, kw)
    whole(ctx, st, f)
    ctx.note("large", f.key())


KINDS = {"window": random_window, "exh": exhaustive, "large": large}
REQUIRE = {f"closed:{s}/{c}": 300 for s in ("left", "right") for c in CLOSED}
REQUIRE.update({"op:agg": 2000, "op:min": 1000, "op:max": 1000})


def plan(tier):
    n = len(SMALL) * 4
    if tier == "quick":
        return [("window", 3000), ("exh", n), ("large", 30)]
    return [("window", 80000), ("exh", n * 3), ("large", 600)]
