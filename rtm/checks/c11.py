"""C11 slicing evaluates each statistic on the function restricted to each interval."""
from __future__ import annotations

import math
from fractions import Fraction as F

import numpy as np
import pandas as pd

import staircase as sc
from .. import domains, gen, model as M
from ..build import Builder
from ..ctx import Violation
from ..model import SF
from ..observe import Mismatch, check_same, num
from ._stats import (bin_amount, check_integral, check_mean, check_median, check_mode, fits, hist_values, length_abs,
                     plain, stat_sf)

RULE = ("functions (both closed sides, undefined regions, every provenance) sliced by break sequences, IntervalIndex of all "
        "closednesses (tiling, gapped, overlapping, nested, unordered, repeated), PeriodIndex; every slicer statistic compared "
        "per interval with the exact statistic of the restricted function and with clip() itself; several statistics asked of "
        "one slicer in random order; resample compared with the exact piecewise result")
CLOSED = ["left", "right", "both", "neither"]


def fin(f):
    return bool(f.finite_defined())


def make_cuts(ctx, rng, f, dom, tiling=None):
    """-> (cuts, kwargs, [(lo, hi)], closed, is_tiling)"""
    pts = list(f.pts) or [F(0), F(2)]
    a, z = pts[0], pts[-1]
    # (closed on both sides, adjacent intervals share a point: they overlap)
    closed = rng.choice(CLOSED if tiling is None else ["left", "left", "right", "right", "neither"])
    def pick():
        k = rng.random()
        if k < 0.5:
            return rng.choice(pts)
        if k < 0.8:
            return rng.choice(pts) + F(rng.choice([-1, 1]), dom.den)
        return F(rng.randint(int(a) - 3, int(z) + 3))
    kind = rng.choice(["breaks", "breaks", "ii", "overlap", "overlap", "gaps"]) if tiling is None else rng.choice(["breaks", "ii"])
    if kind in ("breaks", "ii", "gaps"):
        edges = set()
        while len(edges) < (2 if kind != "gaps" else 4):
            edges |= {pick() for _ in range(rng.randint(2, 6))}
            if rng.random() < 0.3:
                edges |= {F(rng.randint(int(a) - 4, int(z) + 4)) for _ in range(3)}
        if rng.random() < 0.03:        # many slices
            edges |= {F(int(a) - 4) + F(k, dom.den) for k in range(rng.randint(15, 40))}
        edges = sorted(edges)
        iv = list(zip(edges, edges[1:]))
        if kind == "gaps":
            iv = [x for j, x in enumerate(iv) if j % 2 == 0 or rng.random() < 0.4]
        if kind == "breaks":
            arr = dom.array(edges)
            if rng.random() < 0.1:
                arr = domains.narrow(arr, rng)
            form = rng.choice(["index", "list", "array", "series"])
            cuts = {"index": arr, "list": list(arr), "array": arr.to_numpy() if getattr(dom, "tz", None) is None else arr,
                    "series": pd.Series(arr)}[form]
            kw = {}
            if closed != "left" or rng.random() < 0.5:
                kw["closed"] = closed
            ctx.route("cuts:breaks-" + form)
            return cuts, kw, iv, closed, True
    else:
        iv = []
        many = 30 if rng.random() < 0.02 else 0
        while len(iv) < many + rng.randint(1, 5):
            x, y = pick(), pick()
            if x < y:
                iv.append((x, y))
        if rng.random() < 0.3:
            iv.append(iv[0])
        if rng.random() < 0.5:
            rng.shuffle(iv)
    lefts, rights = dom.array([x for x, _ in iv]), dom.array([y for _, y in iv])
    if rng.random() < 0.1:
        n = domains.narrow(lefts.append(rights), rng)
        lefts, rights = n[:len(iv)], n[len(iv):]
    ii = pd.IntervalIndex.from_arrays(lefts, rights, closed=closed)
    ctx.route("cuts:" + kind)
    kw = {"closed": rng.choice(CLOSED)} if rng.random() < 0.2 else {}     # irrelevant for an IntervalIndex
    return ii, kw, iv, closed, kind == "ii"


def check_index(dom, idx, iv, closed, what):
    if not isinstance(idx, pd.IntervalIndex):
        raise Mismatch(f"{what} is not indexed by intervals ({type(idx).__name__})")
    if idx.closed != closed:
        raise Mismatch(f"{what} intervals are {idx.closed}-closed, expected {closed}")
    got = [(dom.dec(i.left), dom.dec(i.right)) for i in idx]
    if got != iv:
        raise Mismatch(f"{what} intervals {got}, expected {iv}")


def series_of(ctx, r, dom, iv, closed, what):
    if not isinstance(r, pd.Series):
        raise Mismatch(f"{what} returned a {type(r).__name__}")
    check_index(dom, r.index, iv, closed, what)
    return list(r)


def nan_like(o):
    return o is None or o is pd.NaT or (isinstance(o, (float, np.floating)) and math.isnan(o)) or pd.isna(o)


def entry(ctx, dom, stat, o, f, lo, hi, closed, what):
    g = f.restrict(lo, hi)
    what = f"{what} on {lo}..{hi} ({closed})"
    if stat in ("min", "max"):
        vals = f.values_on(lo, hi, closed)
        if not vals:
            return
        e = float((min if stat == "min" else max)(vals))
        o = plain(o, what)
        ctx.count("answers_observed")
        if o != e:
            raise Mismatch(f"{what} of {f} is {o}, expected {e}")
        return
    if not fin(g):
        ctx.count("answers_observed")
        if stat in ("mean", "integral") and not nan_like(o):
            raise Mismatch(f"{what} is {o!r} although {f} is undefined there")
        return
    {"mean": check_mean, "integral": check_integral, "median": check_median, "mode": check_mode}[stat](
        ctx, None, g, dom, how=lambda: o, what=what)


STATS = ["mean", "integral", "median", "mode", "min", "max"]


def ask(ctx, b, sl, st, f, iv, closed):
    rng, dom = ctx.rng, b.dom
    everywhere = all(fin(f.restrict(lo, hi)) for lo, hi in iv)
    stats = STATS if everywhere else ["mean", "integral", "min", "max"]
    if not any(fin(f.restrict(lo, hi)) for lo, hi in iv) and dom.is_time:
        stats = ["mean", "min", "max"]
    k = rng.choice(["one", "one", "one", "agg", "apply", "hist"])
    ctx.route("ask:" + k)
    if k == "one":
        s = rng.choice(stats)
        ctx.log("slice.", s)
        r = series_of(ctx, ctx.call("slice:" + s, getattr(sl, s)), dom, iv, closed, s)
        for o, (lo, hi) in zip(r, iv):
            entry(ctx, dom, s, o, f, lo, hi, closed, "slice." + s)
        if len(r) != len(iv):
            raise Mismatch(f"{s} has {len(r)} entries for {len(iv)} slices")
    elif k == "agg":
        names = rng.sample(stats, rng.randint(1, len(stats)))
        arg = names[0] if len(names) == 1 and rng.random() < 0.5 else names
        ctx.log("slice.agg", arg)
        df = ctx.call("slice:agg", sl.agg, arg)
        if not isinstance(df, pd.DataFrame) or list(df.columns) != names or len(df) != len(iv):
            raise Mismatch(f"slice.agg({arg}) returned {df!r}")
        check_index(dom, df.index, iv, closed, "slice.agg")
        for s in names:
            for o, (lo, hi) in zip(list(df[s]), iv):
                entry(ctx, dom, s, o, f, lo, hi, closed, f"slice.agg[{s}]")
    elif k == "apply":
        which = rng.choice(["mean", "limit", "steps", "args", "fn"])
        ctx.log("slice.apply", which)
        if which == "mean":
            r = series_of(ctx, ctx.call("slice:apply", sl.apply, sc.Stairs.mean), dom, iv, closed, "apply")
            for o, (lo, hi) in zip(r, iv):
                entry(ctx, dom, "mean", o, f, lo, hi, closed, "slice.apply(mean)")
        elif which == "limit":
            x = rng.choice(list(f.pts) or [F(0)])
            side = rng.choice(["left", "right"])
            r = series_of(ctx, ctx.call("slice:apply", sl.apply, sc.Stairs.limit, dom.enc(x), side=side), dom, iv, closed, "apply")
            for o, (lo, hi) in zip(r, iv):
                e = f.restrict(lo, hi).lim(x, side)
                ctx.count("answers_observed")
                o = num(o)
                if o != (None if e is None else float(e)):
                    raise Mismatch(f"slice.apply(limit, {x}, {side}) is {o} on {lo}..{hi} of {f}, expected {e}")
        elif which == "steps":
            r = series_of(ctx, ctx.call("slice:apply", sl.apply, lambda s: s.number_of_steps), dom, iv, closed, "apply")
            for o, (lo, hi) in zip(r, iv):
                e = len(f.restrict(lo, hi).pts)
                ctx.expect(o == e, f"slice {lo}..{hi} of {f} has {o} steps, expected {e}")
        elif which == "args":
            fn = lambda s, m, k=0: s.min() * m + k
            r = series_of(ctx, ctx.call("slice:apply", sl.apply, fn, 2, k=3), dom, iv, closed, "apply")
            for o, (lo, hi) in zip(r, iv):
                vs = f.values_on(lo, hi, "neither")
                if vs:
                    ctx.expect(num(o) == float(min(vs)) * 2 + 3, f"slice.apply(fn, 2, k=3) is {o} on {lo}..{hi} of {f}")
        else:
            seen = []
            ctx.call("slice:apply", sl.apply, lambda s: seen.append(s) or 0.0)
            ctx.expect(len(seen) >= len(iv), "apply did not visit every slice")
            for s, (lo, hi) in zip(seen[-len(iv):], iv):
                check_same(s, f.restrict(lo, hi), dom, ctx, f"slice {lo}..{hi}")
    elif everywhere:
        hist(ctx, sl, f, dom, iv, closed)


def hist(ctx, sl, f, dom, iv, closed):
    rng = ctx.rng
    gs = [f.restrict(lo, hi) for lo, hi in iv]
    allv = sorted({v for g in gs for _, v in g.finite_defined()})
    bc = rng.choice(["left", "right"])
    stat = rng.choice(["sum", "sum", "frequency", "density", "probability"])
    kw = {"stat": stat} if stat != "sum" or rng.random() < 0.5 else {}
    if bc != "left" or rng.random() < 0.5:
        kw["closed"] = bc
    if allv[-1] - allv[0] < 40 and rng.random() < 0.35:
        ctx.log("slice.hist unit", **kw)
    else:
        edges = sorted({allv[0] - 1, allv[-1] + 1} | set(rng.sample(allv, rng.randint(0, len(allv)))))
        kw["bins"] = [float(e) for e in edges]
        if rng.random() < 0.4:
            kw["bins"] = pd.IntervalIndex.from_breaks(kw["bins"], closed=bc)
        ctx.log("slice.hist", **kw)
    k = rng.random()
    if "bins" in kw and k < 0.4:
        # as in Stairs.hist, where the arguments need not be named
        rest = {n: v for n, v in kw.items() if n != "bins"}
        if k < 0.15:
            df = ctx.call("slice:hist", sl.hist, kw["bins"], bc, stat)
        else:
            df = ctx.call("slice:hist", sl.hist, kw["bins"], **rest)
    else:
        df = ctx.call("slice:hist", sl.hist, **kw)
    if not isinstance(df, pd.DataFrame) or len(df) != len(iv):
        raise Mismatch(f"slice.hist returned {type(df).__name__}")
    check_index(dom, df.index, iv, closed, "slice.hist")
    bins = [(F(float(c.left)), F(float(c.right))) for c in df.columns]
    if "bins" in kw:
        e = kw["bins"]
        e = [(F(float(c.left)), F(float(c.right))) for c in e] if isinstance(e, pd.IntervalIndex) else \
            [(F(x), F(y)) for x, y in zip(e, e[1:])]
        ctx.expect(bins == e, f"bins {bins} instead of {e}")
    else:
        for v in allv:
            ctx.expect(any((a <= v < z) if bc == "left" else (a < v <= z) for a, z in bins),
                       f"unit bins {bins} do not cover the value {v}")
    for j, g in enumerate(gs):
        hist_values(ctx, g, dom, bins, bc, stat, list(df.iloc[j]), what=f"slice.hist row {iv[j][0]}..{iv[j][1]}")
    ctx.count("slice_hists")


def general(ctx, i):
    rng = ctx.rng
    b = Builder(ctx, domains.pick(rng))
    dom = b.dom
    closed_f = rng.choice(["left", "right"])
    f = stat_sf(rng, dom, closed=closed_f, pals=["small", "small", "pos", "bool", "frac"]) if rng.random() < 0.93 else \
        SF.const(F(rng.choice([0, 2])), closed_f)
    st = b.operand(f)
    cuts, kw, iv, closed, _ = make_cuts(ctx, rng, f, dom)
    ctx.log("slice", cuts if isinstance(cuts, (list, pd.Series)) else repr(cuts), **kw)
    sl = ctx.call("slice", st.slice, cuts, **kw)
    for _ in range(rng.choice([1, 2, 3])):
        ask(ctx, b, sl, st, f, iv, closed)
    ctx.note(f.key(), f.closed, tuple(iv), closed, dom.kind)


def periods(ctx, i):
    rng = ctx.rng
    freq = rng.choice(["D", "h", "M", "D"])
    unit = {"D": "6h", "h": "15min", "M": "1D"}[freq]
    dom = domains.StampDomain("2020-01-30" if freq != "h" else "2020-02-28 22:30", unit, None, 1)
    b = Builder(ctx, dom)
    f = stat_sf(rng, dom, closed=rng.choice(["left", "right"]), pals=["small", "pos", "bool"])
    if freq == "M":
        f = SF([p * 9 for p in f.pts], f.vals, f.closed)
    st = b.operand(f)
    n = rng.randint(1, 5)
    p = pd.period_range(start=dom.enc(f.pts[0] - rng.choice([0, 3])), periods=n, freq=freq)
    if rng.random() < 0.3 and n > 2:
        p = p[[j for j in range(n) if j != 1]]
    iv = [(dom.dec(x.start_time), dom.dec((x + 1).start_time)) for x in p]
    closed = rng.choice(CLOSED)
    kw = {"closed": closed} if closed != "left" or rng.random() < 0.5 else {}
    ctx.log("slice", repr(p), **kw)
    sl = ctx.call("slice", st.slice, p, **kw)
    for _ in range(2):
        ask(ctx, b, sl, st, f, iv, closed)
    ctx.count("period_slicers")
    ctx.note("per", f.key(), tuple(iv), closed)


def resample(ctx, i):
    rng = ctx.rng
    b = Builder(ctx, domains.pick(rng))
    dom = b.dom
    f = stat_sf(rng, dom, closed=rng.choice(["left", "right"]), pals=["small", "pos", "bool", "frac"])
    if rng.random() < 0.04:
        f = SF.const(F(rng.choice([0, 2])), f.closed)
    st = b.operand(f)
    cuts, kw, iv, closed, _ = make_cuts(ctx, rng, f, dom, tiling=True)
    gs = [f.restrict(lo, hi) for lo, hi in iv]
    stats = ["mean", "min", "max"]
    if all(fin(g) for g in gs):
        stats += ["median", "mode"]
    if not dom.is_time:
        stats.append("integral")
    s = rng.choice(stats)
    ctx.log("slice", cuts if isinstance(cuts, (list, pd.Series)) else repr(cuts), **kw)
    sl = ctx.call("slice", st.slice, cuts, **kw)
    if rng.random() < 0.3:
        ask(ctx, b, sl, st, f, iv, closed)
    ctx.log("resample", s)
    r = ctx.call("resample:" + s, sl.resample, s)
    new = []
    for g, (lo, hi) in zip(gs, iv):
        if s in ("min", "max"):
            vs = f.values_on(lo, hi, closed)
            new.append((min if s == "min" else max)(vs) if vs else None)
        elif not fin(g):
            new.append(None)
        elif s == "mode":
            vs = g.value_sums()
            best = [v for v, l in vs.items() if l == max(vs.values())]
            if len(best) > 1:
                return          # any of them would do
            new.append(best[0])
        elif s == "median":
            lo_q, hi_q = g.quantile_bounds(F(1, 2))
            if lo_q != hi_q or any(abs(x - F(1, 2)) < F(1, 10**9) for _, x in g.cum()):
                return
            new.append(lo_q)
        else:
            new.append(g.mean() if s == "mean" else g.integral() * dom.unit)
    edges = [iv[0][0]] + [hi for _, hi in iv]
    inner = SF(edges, [None] + new + [None], f.closed)
    m = f.blank(edges[0], edges[-1]).combine(inner, lambda u, v: v if u is None else u, closed=f.closed)
    check_same(r, m, dom, ctx, f"resample({s})", extra=tuple(edges))
    check_same(st, f, dom, ctx, "the function that was resampled")
    ctx.count("resamples")
    ctx.note("rs", f.key(), tuple(iv), s, closed, f.closed)


def agrees_with_clip(ctx, i):
    """slicer entries equal what clip() itself reports"""
    rng = ctx.rng
    b = Builder(ctx, domains.pick(rng))
    dom = b.dom
    f = stat_sf(rng, dom, closed=rng.choice(["left", "right"]), pals=["small", "pos", "frac"])
    st = b.operand(f)
    cuts, kw, iv, closed, _ = make_cuts(ctx, rng, f, dom)
    sl = ctx.call("slice", st.slice, cuts, **kw)
    for s in rng.sample(["mean", "integral", "median", "mode"], 2):
        if not all(fin(f.restrict(lo, hi)) for lo, hi in iv):
            continue
        r = list(ctx.call("slice:" + s, getattr(sl, s)))
        for o, (lo, hi) in zip(r, iv):
            e = ctx.call("agg", st.agg, s, (dom.enc(lo), dom.enc(hi)))
            ctx.expect(o == e, f"slice.{s} is {o!r} on {lo}..{hi}, agg says {e!r}")
    for s in ("min", "max"):
        r = list(ctx.call("slice:" + s, getattr(sl, s)))
        for o, (lo, hi) in zip(r, iv):
            vs = f.values_on(lo, hi, closed)
            if vs:
                e = ctx.call("agg", st.agg, s, (dom.enc(lo), dom.enc(hi)), closed)
                ctx.expect(o == e, f"slice.{s} is {o!r} on {lo}..{hi} ({closed}), agg says {e!r}")
    ctx.note("clip", f.key(), tuple(iv), closed)


_V = [None, F(0), F(2)]
SMALL = [SF([F(1), F(2)], [u, v, w]) for u in _V for v in _V for w in _V if u != v and v != w] + [SF([F(1)], [u, v]) for u in _V for v in _V if u != v]
IVS = [(F(a), F(z)) for a in range(0, 4) for z in range(a + 1, 5)]


def exhaustive(ctx, i):
    """every interval over a grid x 4 closednesses x both function sides, min / max / mean"""
    rng = ctx.rng
    dom = domains.MAKERS[["int", "float", "naive", "tz", "timedelta"][i % 5]](rng)
    b = Builder(ctx, dom)
    j = i // 5
    f = SMALL[j % len(SMALL)].with_closed(["left", "right"][(j // len(SMALL)) % 2])
    st = b.operand(f)
    for closed in CLOSED:
        iv = list(IVS)
        rng.shuffle(iv)
        ii = pd.IntervalIndex.from_arrays(dom.array([x for x, _ in iv]), dom.array([y for _, y in iv]), closed=closed)
        sl = ctx.call("slice", st.slice, ii)
        for s in ("min", "max", "mean"):
            r = series_of(ctx, ctx.call("slice:" + s, getattr(sl, s)), dom, iv, closed, s)
            for o, (lo, hi) in zip(r, iv):
                entry(ctx, dom, s, o, f, lo, hi, closed, "slice." + s)
    ctx.note("exh", f.key(), f.closed, dom.kind)


def large(ctx, i):
    rng = ctx.rng
    b = Builder(ctx, domains.pick(rng))
    dom = b.dom
    f = stat_sf(rng, dom, closed=rng.choice(["left", "right"]), n=150, pals=["small", "pos"])
    st = b.operand(f, depth=0)
    grid = range(int(f.pts[0]) - 2, int(f.pts[-1]) + 3)
    edges = sorted(rng.sample(grid, min(60, len(grid))))
    closed = rng.choice(CLOSED)
    iv = [(F(a), F(z)) for a, z in zip(edges, edges[1:])]
    sl = ctx.call("slice", st.slice, dom.array([F(e) for e in edges]), closed=closed)
    for s in ("mean", "min", "max", "integral"):
        if s == "integral" and dom.is_time and not any(fin(f.restrict(*x)) for x in iv):
            continue
        r = series_of(ctx, ctx.call("slice:" + s, getattr(sl, s)), dom, iv, closed, s)
        for o, (lo, hi) in zip(r, iv):
            entry(ctx, dom, s, o, f, lo, hi, closed, "slice." + s)
    ctx.note("large", f.key())


KINDS = {"general": general, "periods": periods, "resample": resample, "clip": agrees_with_clip, "exh": exhaustive, "large": large}
REQUIRE = {"op:slice:min": 700, "op:slice:max": 700, "op:slice:mean": 700, "op:slice:agg": 150, "op:slice:apply": 150,
           "slice_hists": 100, "resamples": 500, "period_slicers": 150}


def plan(tier):
    n = len(SMALL) * 10
    if tier == "quick":
        return [("general", 1800), ("periods", 200), ("resample", 1100), ("clip", 300), ("exh", n), ("large", 16)]
    return [("general", 50000), ("periods", 6000), ("resample", 30000), ("clip", 8000), ("exh", n * 3), ("large", 300)]
