"""C19 cov and corr are the length-weighted moments over the common defined window."""
from __future__ import annotations

import math
from fractions import Fraction as F

import numpy as np
import pandas as pd

import staircase as sc
from .. import domains, gen, model as M
from ..build import Builder
from ..model import SF
from ..observe import Mismatch
from ._stats import mean_tol, ns_scale, plain, scaled, top

RULE = ("pairs of functions (partly undefined, constant on the window, step-free, f with itself) over finite windows and over "
        "(half-)unbounded windows whose common region is bounded by undefinedness, in 5 domains, either closed side; positive "
        "and negative lags with clip pre and post, every scalar flavour of lag; compared with exact moments, plus symmetry, "
        "cov(f, f) = var(f) and |corr| <= 1")


def region(f, g, lo, hi):
    both = f.combine(g, lambda a, b: None if a is None or b is None else F(0), closed=f.closed).restrict(lo, hi)
    z = lambda h: h.combine(both, lambda a, m: None if m is None else a, closed=f.closed)
    return z(f), z(g), both


def moments(f, g, lo, hi):
    """(cov, var f, var g) over the common region, or None if there is no bounded one"""
    f, g, both = region(f, g, lo, hi)
    ps = both.pieces()
    if ps[0][2] is not None or ps[-1][2] is not None or not both.finite_defined():
        return None
    h = f.combine(g, lambda a, b: None if a is None or b is None else a * b, closed=f.closed)
    return h.mean() - f.mean() * g.mean(), f.var(), g.var(), f, g, h


def inexact(v):
    """a value whose multiples round"""
    return F(float(v))


def functions(ctx, b):
    rng, dom = ctx.rng, b.dom
    closed = rng.choice(["left", "right"])
    fine = dom.is_time and dom.unit_ns < 10 ** 6
    pal = gen.palette(rng, ["small", "pos", "bool", "two"] + ([] if fine else ["frac", "frac"]))
    f, g = gen.pair(rng, dom, pal, closed=closed, hi=6)
    k = rng.random()
    if k < 0.08:
        g = f
    elif k < 0.14:
        g = M.negate(f)
    elif k < 0.22:
        g = SF.const(F(rng.choice([0, 2, -1])), rng.choice(["left", "right"]))
    elif k < 0.3:
        # constant on its domain of definition
        v = F(2) if fine else rng.choice([F(3), F(0.1), F(0.7), F(1.1)])
        g = SF(g.pts, [None if x is None else v for x in g.vals], closed)
    if not dom.is_time and rng.random() < 0.15:
        ks = [-10, -20, -33, -40, 20]
        k = rng.choice(ks)
        f, g = scaled(f, rng, k), scaled(g, rng, k if rng.random() < 0.5 else rng.choice(ks))
        ctx.count("scaled")
    if rng.random() < 0.5:
        f, g = g, f
    return f, g


def window(rng, f, g, dom):
    pts = sorted(set(f.pts) | set(g.pts)) or [F(0), F(3)]
    for _ in range(30):
        def pick():
            k = rng.random()
            if k < 0.15:
                return None
            if k < 0.55:
                return rng.choice(pts)
            if k < 0.8:
                return rng.choice(pts) + F(rng.choice([-1, 1, 2]), dom.den)
            return rng.choice([pts[0] - 2, pts[-1] + 2])
        lo, hi = pick(), pick()
        if lo is not None and hi is not None and lo >= hi:
            continue
        yield lo, hi


def lab(rng, dom, x, sign):
    if x is None:
        return rng.choice([None, -sc.inf if sign < 0 else sc.inf])
    return dom.enc(x)


def check_cov(ctx, dom, o, mom, what):
    c, vf, vg, f, g, h = mom
    o = plain(o, what)
    ctx.count("answers_observed")
    t = top(f) * top(g)
    tol = 1e-11 * t + 1e-9 * abs(float(c))
    if dom.is_time:
        tol += mean_tol(h, dom) + mean_tol(f, dom) * top(g) + mean_tol(g, dom) * top(f)
    if not abs(o - float(c)) <= tol:
        raise Mismatch(f"{what} is {o!r}, expected {float(c)!r}")


def check_corr(ctx, dom, o, mom, what):
    c, vf, vg, f, g, h = mom
    o = plain(o, what)
    ctx.count("answers_observed")
    if vf == 0 or vg == 0:
        ctx.count("zero_deviation")
        if dom.is_time and not math.isnan(o):
            # lengths are rounded to nanoseconds, a deviation of zero need not come out as zero
            if f.exact and g.exact and all(v is None or v.denominator == 1 for v in f.vals + g.vals):
                raise Mismatch(f"{what} is {o!r}, expected NaN (a standard deviation is zero)")
            return
        if not math.isnan(o):
            raise Mismatch(f"{what} is {o!r}, expected NaN (a standard deviation is zero)")
        return
    d = math.sqrt(vf) * math.sqrt(vg)
    e = float(c) / d
    tol = 1e-9 + 1e-10 * top(f) * top(g) / d
    if dom.is_time:
        tol += 8 * (mean_tol(h, dom) + mean_tol(f, dom) * top(g) + mean_tol(g, dom) * top(f)) / d
    if not abs(o - e) <= tol:
        raise Mismatch(f"{what} is {o!r}, expected {e!r}")
    if abs(o) > 1 + tol:
        raise Mismatch(f"{what} is {o!r}, outside [-1, 1]")
    ctx.count("correlations")


def plain_window(ctx, i):
    rng = ctx.rng
    b = Builder(ctx, domains.pick(rng))
    dom = b.dom
    f, g = functions(ctx, b)
    for lo, hi in window(rng, f, g, dom):
        mom = moments(f, g, lo, hi)
        if mom:
            break
    else:
        ctx.count("no_common_region")
        return
    x = b.operand(f)
    y = x if g is f and rng.random() < 0.5 else b.operand(g)
    w = (lab(rng, dom, lo, -1), lab(rng, dom, hi, 1))
    kw = {"where": list(w) if rng.random() < 0.3 else w}
    if lo is None and hi is None and rng.random() < 0.5:
        kw = {}
    if rng.random() < 0.3:
        kw["lag"] = 0
    if rng.random() < 0.2:
        kw["clip"] = rng.choice(["pre", "post"])
    ctx.log("cov/corr", **kw)
    order = ["cov", "corr", "vcov", "vcorr"]
    rng.shuffle(order)
    for o in order[:3]:
        u, v = (x, y) if o in ("cov", "corr") else (y, x)
        m = mom if o in ("cov", "corr") else (mom[0], mom[2], mom[1], mom[4], mom[3], mom[5])
        if o.endswith("cov"):
            check_cov(ctx, dom, ctx.call("cov", u.cov, v, **kw), m, f"cov over {lo}..{hi} of {f}, {g}")
        else:
            check_corr(ctx, dom, ctx.call("corr", u.corr, v, **kw), m, f"corr over {lo}..{hi} of {f}, {g}")
    if rng.random() < 0.3:
        mf = moments(f, f, lo, hi)
        if mf:
            check_cov(ctx, dom, ctx.call("cov", x.cov, x, **{k: v for k, v in kw.items() if k != "lag"}), mf, f"cov(f, f) over {lo}..{hi} of {f}")
            if lo is not None and hi is not None:
                va = ctx.call("agg", x.agg, "var", (dom.enc(lo), dom.enc(hi)))
                cv = ctx.call("cov", x.cov, x, where=(dom.enc(lo), dom.enc(hi)))
                t = top(f)
                tol = 1e-10 * t * t + (8 * mean_tol(mf[3], dom) * t if dom.is_time else 0)
                ctx.expect(abs(va - cv) <= tol, f"cov(f, f) = {cv} but var(f) = {va} over {lo}..{hi} of {f}")
    ctx.note(f.key(), g.key(), lo, hi, dom.kind)


def lagged(ctx, i):
    rng = ctx.rng
    b = Builder(ctx, domains.pick(rng))
    dom = b.dom
    f, g = functions(ctx, b)
    for lo, hi in window(rng, f, g, dom):
        lag = F(rng.choice([1, 2, 3, -1, -2, 5]))
        if dom.den > 1 and rng.random() < 0.3:
            lag = F(rng.choice([1, -1, 3]), dom.den)
        clip = rng.choice(["pre", "post"])
        g2 = g.shift(-lag)
        hi2 = hi - lag if (clip == "pre" and hi is not None) else hi
        if lo is not None and hi2 is not None and lo >= hi2:
            continue
        mom = moments(f, g2, lo, hi2)
        if mom:
            break
    else:
        ctx.count("no_common_region")
        return
    x = b.operand(f)
    y = x if g is f and rng.random() < 0.6 else b.operand(g)
    w = (lab(rng, dom, lo, -1), lab(rng, dom, hi, 1))
    kw = {"lag": dom.delta(lag, rng)}
    if lo is not None or hi is not None or rng.random() < 0.5:
        kw["where"] = list(w) if rng.random() < 0.3 else w
    if clip == "post" or rng.random() < 0.5:
        kw["clip"] = clip
    ctx.log("lagged", **kw)
    what = f"over {lo}..{hi}, lag {lag} ({clip}) of {f}, {g}"
    if rng.random() < 0.6:
        check_cov(ctx, dom, ctx.call("cov", x.cov, y, **kw), mom, "cov " + what)
    else:
        check_corr(ctx, dom, ctx.call("corr", x.corr, y, **kw), mom, "corr " + what)
    if rng.random() < 0.4:
        # the equivalent unlagged question
        ys = ctx.call("shift", y.shift, dom.delta(-lag))
        if b.verified(ys, g2):
            w2 = (lab(rng, dom, lo, -1), lab(rng, dom, hi2, 1))
            check_cov(ctx, dom, ctx.call("cov", x.cov, ys, where=w2), mom, "cov of the shifted function " + what)
    ctx.count("lagged:" + clip)
    ctx.note("lag", f.key(), g.key(), lo, hi, lag, clip, dom.kind)


_V = [None, F(0), F(2), F(5)]
SMALL = [SF([F(1), F(3)], [u, v, w]) for u in _V[:3] for v in _V for w in _V[:2] if u != v and v != w] + \
        [SF([F(2)], [u, v]) for u in _V for v in _V if u != v] + [SF([], [v]) for v in _V[1:]]


def exhaustive(ctx, i):
    rng = ctx.rng
    dom = domains.MAKERS[["int", "float", "naive", "tz", "timedelta"][(i // len(SMALL)) % 5]](rng)
    b = Builder(ctx, dom)
    closed = rng.choice(["left", "right"])
    f = SMALL[i % len(SMALL)].with_closed(closed)
    x = b.operand(f)
    for g in rng.sample(SMALL, 6):
        g = g.with_closed(closed)
        y = b.operand(g, depth=1)
        for lo, hi in ((F(0), F(4)), (F(1), F(3)), (F(2), F(5))):
            mom = moments(f, g, lo, hi)
            if not mom:
                continue
            kw = {"where": (dom.enc(lo), dom.enc(hi))}
            check_cov(ctx, dom, ctx.call("cov", x.cov, y, **kw), mom, f"cov over {lo}..{hi} of {f}, {g}")
            check_corr(ctx, dom, ctx.call("corr", x.corr, y, **kw), mom, f"corr over {lo}..{hi} of {f}, {g}")
    ctx.note("exh", f.key(), dom.kind, i // len(SMALL))


def large(ctx, i):
    rng = ctx.rng
    b = Builder(ctx, domains.pick(rng, {"int": 1, "float": 1, "naive": 1, "tz": 1}))
    dom = b.dom
    pal = gen.PALETTES["pos"]
    f, g = (gen.sf(rng, dom, pal, closed="left", n=120) for _ in range(2))
    lo, hi = F(5), F(200)
    mom = moments(f, g, lo, hi)
    if not mom:
        return
    x, y = b.operand(f, depth=0), b.operand(g, depth=0)
    kw = {"where": (dom.enc(lo), dom.enc(hi))}
    check_cov(ctx, dom, ctx.call("cov", x.cov, y, **kw), mom, "cov (large)")
    check_corr(ctx, dom, ctx.call("corr", x.corr, y, **kw), mom, "corr (large)")
    ctx.note("large", f.key())


def offset(ctx, i):
    """values far from zero against their spread: the moments must not cancel"""
    rng = ctx.rng
    b = Builder(ctx, domains.pick(rng, {"int": 1, "float": 1}))
    dom = b.dom
    closed = rng.choice(["left", "right"])
    fs = []
    for _ in range(2):
        base = F(rng.choice([10 ** 8, -10 ** 9, 10 ** 9, 2 ** 31 + 1, 0]))
        small = [F(v) for v in rng.choice([(0, 1, 2, 3), (0, 3, 7), (-5, 1, 4, 9)])]
        fs.append(gen.sf(rng, dom, pal=[base + v for v in small] + ([None] if rng.random() < 0.4 else []), closed=closed))
    f, g = fs
    if rng.random() < 0.3:
        g = f
    for lo, hi in window(rng, f, g, dom):
        mom = moments(f, g, lo, hi)
        if mom:
            break
    else:
        ctx.count("no_common_region")
        return
    x, y = b.operand(f, depth=1), b.operand(g, depth=1)
    kw = {"where": (lab(rng, dom, lo, -1), lab(rng, dom, hi, 1))}
    c, vf, vg = mom[:3]
    what = f"over {lo}..{hi} of {f}, {g}"
    o = plain(ctx.call("cov", x.cov, y, **kw), "cov " + what)
    ctx.count("answers_observed")
    # rounding a mean of 1e9 costs 1e-7 at most, a deviation is below 20
    if not abs(o - float(c)) <= 1e-4:
        raise Mismatch(f"cov {what} is {o!r}, expected {float(c)!r}")
    if vf > 0 and vg > 0:
        o = plain(ctx.call("corr", x.corr, y, **kw), "corr " + what)
        ctx.count("answers_observed")
        d = math.sqrt(vf) * math.sqrt(vg)
        tol = 1e-9 + 1e-5 / d
        if not abs(o - float(c) / d) <= tol or abs(o) > 1 + tol:
            raise Mismatch(f"corr {what} is {o!r}, expected {float(c) / d!r}")
        ctx.count("offset_correlations")
    ctx.note("offset", f.key(), g.key(), lo, hi)


KINDS = {"offset": offset, "window": plain_window, "lagged": lagged, "exh": exhaustive, "large": large}
REQUIRE = {"op:cov": 1500, "op:corr": 1200, "lagged:pre": 150, "lagged:post": 150, "correlations": 300, "zero_deviation": 50}


def plan(tier):
    n = len(SMALL) * 5
    if tier == "quick":
        return [("window", 900), ("lagged", 900), ("exh", n), ("large", 8), ("offset", 200)]
    return [("window", 20000), ("lagged", 20000), ("exh", n * 10), ("large", 200), ("offset", 5000)]
