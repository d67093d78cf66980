"""C09 ecdf, percentiles, median, mode, hist, describe follow the value distribution."""
from __future__ import annotations

from fractions import Fraction as F

import numpy as np
import pandas as pd

from .. import domains, gen, model as M
from ..build import Builder
from ..model import SF
from ..observe import Mismatch
from ._stats import (check_ecdf, check_hist, check_mean, check_median, check_mode, check_percentiles, check_quantile,
                     check_quantiles, check_std, close, dyadic, dyadic_sf, plain, stat_sf, window_label, window_with_finite)
from .c08 import SMALL

RULE = ("functions with a finite defined piece, half of them with power-of-two total length so that share boundaries are hit "
        "exactly; ecdf and its left limits at, between and beyond all values; percentile / fractile / quantiles / median on "
        "grids, share boundaries and in between (scalar and vector); mode; hist with unit bins, edge lists and IntervalIndex, "
        "both closed sides, all four stats; describe for random windows; asked in random order, repeatedly")


def describe(ctx, st, f, dom):
    rng = ctx.rng
    lo, hi, g = None, None, f
    kw = {}
    if rng.random() < 0.6:
        lo, hi, g = window_with_finite(rng, f, dom)
        kw["where"] = (window_label(rng, dom, lo, -1), window_label(rng, dom, hi, +1))
    ps = [25, 50, 75]
    if rng.random() < 0.5:
        ps = rng.choice([[0, 100], [10, 50, 90], (5, 37.5), [50], np.array([12.5, 50, 99]), list(np.linspace(0, 100, 6))])
        kw["percentiles"] = ps
    ctx.log("describe", **kw)
    d = ctx.call("describe", st.describe, **kw)
    want = ["unique", "mean", "std", "min"] + [f"{p}%" for p in ps] + ["max"]
    if not isinstance(d, pd.Series) or list(d.index) != want:
        raise Mismatch(f"describe has entries {getattr(d, 'index', d)}, expected {want}")
    for k, v in d.items():
        plain(v, f"describe[{k}]")
    close(ctx, "describe[unique]", d["unique"], len(g.value_sums()))
    check_mean(ctx, st, g, dom, how=lambda: d["mean"], what="describe[mean]")
    check_std(ctx, st, g, dom, how=lambda: d["std"], what="describe[std]")
    dy = dyadic(g)
    for p in ps:
        check_quantile(ctx, f"describe[{p}%]", d[f"{p}%"], g, F(float(p)) / 100, dy)
    fin = [v for _, v in g.finite_defined()]
    every = [v for v in g.vals if v is not None]
    for nm, fn in (("min", min), ("max", max)):
        # without a window the unbounded pieces may count (they do for min / max)
        o = plain(d[nm], f"describe[{nm}]")
        ok = {float(fn(every)), float(fn(fin))}
        if lo is not None and hi is not None:
            ok = {float(fn(fin))}
        if o not in ok:
            raise Mismatch(f"describe[{nm}] is {o}, expected {ok} for window {lo}..{hi} of {f}")
    ctx.count("describes")


PART = {
    "ecdf": check_ecdf, "percentiles": check_percentiles, "median": check_median, "mode": check_mode,
    "quantiles": check_quantiles, "hist": check_hist, "describe": describe,
}


def parts(ctx, b, st, f, n=5):
    for p in ctx.rng.choices(list(PART), k=n):
        ctx.log("query", p)
        ctx.route(p)
        PART[p](ctx, st, f, b.dom)


def direct(ctx, i):
    rng = ctx.rng
    b = Builder(ctx, domains.pick(rng))
    closed = rng.choice(["left", "right"])
    f = stat_sf(rng, b.dom, closed=closed)
    if rng.random() < 0.5:
        f = dyadic_sf(rng, b.dom, closed) or f
    st = b.operand(f)
    parts(ctx, b, st, f)
    ctx.note(f.key(), b.dom.kind)


def exhaustive(ctx, i):
    rng = ctx.rng
    dom = domains.MAKERS[["int", "float", "naive", "tz", "timedelta"][(i // len(SMALL)) % 5]](rng)
    b = Builder(ctx, dom)
    f = SMALL[i % len(SMALL)].with_closed(rng.choice(["left", "right"]))
    st = b.operand(f)
    for p in PART:
        PART[p](ctx, st, f, dom)
    ctx.note("exh", f.key(), dom.kind)


def views(ctx, i):
    """ecdf and percentile functions are step functions too: the objects agree with
    each other and with their own derived forms"""
    rng = ctx.rng
    b = Builder(ctx, domains.pick(rng))
    closed = rng.choice(["left", "right"])
    f = dyadic_sf(rng, b.dom, closed) or stat_sf(rng, b.dom, closed=closed)
    st = b.operand(f)
    e = ctx.call("ecdf", lambda: st.ecdf)
    P, X = ctx.call("percentile", lambda: st.percentile), ctx.call("fractile", lambda: st.fractile)
    ctx.expect(e.closed == "left", "ecdf is not left-closed")
    dy = dyadic(f)
    qs = [F(k, 16) for k in range(17)]
    ps = [float(100 * q) for q in qs]
    a = ctx.call("percentile()", P, ps)
    c = ctx.call("fractile()", X, [float(q) for q in qs])
    P2 = ctx.call("ecdf.percentiles", e.percentiles)
    X2 = ctx.call("ecdf.fractiles", e.fractiles)
    P3 = ctx.call("to_percentiles", X.to_percentiles)
    for nm, got in (("percentile", a), ("fractile", c), ("ecdf.percentiles()", ctx.call("p", P2, ps)),
                    ("ecdf.fractiles()", ctx.call("f", X2, [float(q) for q in qs])),
                    ("fractile.to_percentiles()", ctx.call("p", P3, ps))):
        for q, o in zip(qs, got):
            check_quantile(ctx, f"{nm} at {float(q)}", o, f, q, dy)
    # the distribution of the values sampled through the ecdf
    vs = list(f.value_sums())
    for v in vs:
        r, l = ctx.call("limit", e.limit, float(v), side="right"), ctx.call("limit", e.limit, float(v), side="left")
        close(ctx, f"ecdf jump at {float(v)}", r - l, f.value_sums()[v] / f.total(), 1e-9)
    check_ecdf(ctx, st, f, b.dom)
    ctx.note("views", f.key())


def large(ctx, i):
    rng = ctx.rng
    b = Builder(ctx, domains.pick(rng))
    if i % 3 == 0:
        # many values, some of them held for a short time only
        pts = gen.skewed(rng, gen.points(rng, rng.choice([40, 90]), b.dom), b.dom)
        f = stat_sf(rng, b.dom, closed=rng.choice(["left", "right"]), pts=pts, pals=["many"])
    else:
        f = stat_sf(rng, b.dom, closed=rng.choice(["left", "right"]), n=gen.big(rng, 100, 400), pals=["wide", "frac", "small"])
    st = b.operand(f, depth=0)
    parts(ctx, b, st, f)
    ctx.note("large", f.key())


def slivers(ctx, i):
    """values held for shares of the length which floats next to 1 cannot tell from nothing"""
    rng = ctx.rng
    dom = rng.choice([domains.NumDomain("float", 0, 1, 1), domains.NumDomain("int", 0, 1, 1), domains.StampDomain("2020-01-01", "1ns", None, 1),
                      domains.StampDomain("2020-01-01", "1ns", "US/Eastern", 1), domains.DeltaDomain("0s", "1ns", 1)])
    b = Builder(ctx, dom)
    thin = [F(1), F(2), F(3)] if dom.kind != "float" else [F(1), F(1, 2**30), F(3, 2**40)]
    pts = [F(rng.randint(0, 2))]
    for _ in range(rng.randint(2, 5)):
        pts.append(pts[-1] + rng.choice(thin + [F(10**16) if dom.kind != "float" else F(2**20)] * 2))
    if dom.kind == "float" and not all(F(float(p)) == p for p in pts):
        pts = [p for p in pts if F(float(p)) == p]
    pal = [F(k) for k in rng.sample(range(-6, 9), 8)]
    f = gen.sf(rng, dom, pal=pal, closed=rng.choice(["left", "right"]), pts=sorted(set(pts)), p_nan=rng.choice([0, 0, 0.2]))
    if not f.finite_defined():
        return
    st = b.operand(f, depth=rng.choice([0, 1]))
    sums = f.value_sums()
    if min(sums.values()) * 10**16 < f.total():
        ctx.count("slivers")
    lo, hi = float(min(sums)), float(max(sums))
    how = [("percentile", 100), ("fractile", 1)]
    rng.shuffle(how)
    for name, one in how:
        q = ctx.call(name, getattr, st, name)
        for x, want in ((0, lo), (one, hi), (float(one), hi)):
            o = plain(ctx.call(f"{name}()", q, x), f"{name}({x})")
            if o != want:
                raise Mismatch(f"{name}({x}) of {f} is {o}, expected {want}")
        o = list(ctx.call(f"{name}()", q, [0, one]))
        if o != [lo, hi]:
            raise Mismatch(f"{name}([0, {one}]) of {f} is {o}, expected {[lo, hi]}")
        xs = list(ctx.call("step_points", lambda: q.step_points))
        if any(not a < z for a, z in zip(xs, xs[1:])):
            raise Mismatch(f"the step points of {name} of {f} do not increase: {xs}")
        ctx.call(f"{name}.mask", q.mask, (0, one / 2))
        ctx.call(f"{name} composed", lambda: (q * q).max())
    d = ctx.call("describe", st.describe, percentiles=[0, 100])
    if [d["0%"], d["100%"]] != [lo, hi]:
        raise Mismatch(f"describe percentiles 0, 100 of {f}: {list(d[['0%', '100%']])}, expected {[lo, hi]}")
    close(ctx, "describe[unique]", d["unique"], len(sums))
    ctx.note("slivers", f.key(), dom.kind)


KINDS = {"direct": direct, "exh": exhaustive, "views": views, "large": large, "slivers": slivers}
REQUIRE = {"describes": 900, "hist:sum": 300, "hist:density": 120, "hist:frequency": 120, "hist:probability": 120,
           "op:percentile()": 3000, "op:fractile()": 3000, "op:ecdf()": 2000, "op:mode": 800, "op:median": 800, "op:quantiles": 800, "slivers": 20}


def plan(tier):
    n = len(SMALL) * 5
    if tier == "quick":
        return [("direct", 2000), ("exh", n), ("views", 300), ("large", 30), ("slivers", 160)]
    return [("direct", 60000), ("exh", n * 3), ("views", 6000), ("large", 600), ("slivers", 4000)]
