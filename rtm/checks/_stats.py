"""Monitors for statistic and distribution queries: what a call reported versus
the same statistic computed exactly from the model."""
from __future__ import annotations

import math
import numbers
from fractions import Fraction as F

import numpy as np
import pandas as pd

from .. import gen, model as M
from ..ctx import Violation
from ..domains import LabelError
from ..model import SF
from ..observe import Mismatch, num

PALS = ["small", "small", "frac", "frac", "pos", "bool", "two", "wide", "many"]


def ns_scale(dom):
    """one nanosecond in abstract units (0 for numeric domains)"""
    return F(1, dom.unit_ns) if dom.is_time else F(0)


def fits(f, dom):
    """lengths x values stay well inside what a Timedelta can hold"""
    if not dom.is_time:
        return True
    lim = 2 ** 61
    pts = f.pts
    if not pts:
        return True
    span = (pts[-1] - pts[0] + 4) * dom.unit_ns
    top = max([abs(v) for v in f.vals if v is not None] + [1])
    return span * top < lim


def scaled(f, rng, k=None):
    """the same shape at values next to zero (or at large ones)"""
    u = F(2) ** (k if k is not None else rng.choice([-16, -20, -30, 30]))
    return f.map(lambda v: None if v is None else v * u)


def stat_sf(rng, dom, **kw):
    """a function with at least one finite defined piece whose integral is representable"""
    pals = kw.pop("pals", PALS)
    fine = dom.is_time and dom.unit_ns < 10 ** 6
    kw.setdefault("hi", 7)
    for _ in range(50):
        pal = gen.palette(rng, ["small", "pos", "bool", "two"] if fine else pals)
        f = gen.sf_with_finite(rng, dom, pal=pal, **kw)
        if not dom.is_time and rng.random() < 0.06:
            f = scaled(f, rng)
        if fits(f, dom):
            return f
    return gen.sf_with_finite(rng, dom, pal=gen.PALETTES["bool"], **kw)


def dyadic_sf(rng, dom, closed):
    """total finite defined length is a power of two: shares are exact floats"""
    total = rng.choice([2, 4, 8, 16])
    vals, pts = [], [F(rng.randint(0, 3))]
    left = total
    pal = gen.palette(rng, ["small", "pos", "two", "bool"] + ([] if dom.is_time and dom.unit_ns < 10 ** 6 else ["frac"]))
    lens = []
    while left:
        l = rng.randint(1, left)
        lens.append((l, rng.choice(pal)))
        left -= l
        if rng.random() < 0.2:
            lens.append((rng.randint(1, 3), None))
    vals = [rng.choice([None, F(0), rng.choice(pal)])]
    for l, v in lens:
        vals.append(v)
        pts.append(pts[-1] + l)
    vals.append(rng.choice([None, F(0), rng.choice(pal)]))
    f = SF(pts, vals, closed)
    return f if f.finite_defined() and sum(l for l, _ in f.finite_defined()) == total else None


def top(f):
    """the magnitude which rounding errors are relative to"""
    m = max([abs(float(v)) for v in f.vals if v is not None], default=0.0)
    return m if 0 < m < 2**-15 else max(1.0, m)


def plain(o, what):
    """the statistic must be a plain number"""
    if isinstance(o, (bool, np.bool_)) or not isinstance(o, (numbers.Real, np.number)):
        raise Mismatch(f"{what} is {o!r} ({type(o).__name__}), not a plain number")
    return float(o)


def close(ctx, what, o, e, atol=0.0, rtol=1e-9):
    o = plain(o, what)
    ctx.count("answers_observed")
    if e is None:
        if not math.isnan(o):
            raise Mismatch(f"{what} is {o}, expected undefined")
        return
    e = float(e)
    if not (abs(o - e) <= atol + rtol * abs(e)):
        raise Mismatch(f"{what} is {o!r}, expected {e!r}")


def length(ctx, dom, what, o, e, slack=0):
    """a length-like answer (Timedelta on time domains)"""
    ctx.count("answers_observed")
    try:
        d = dom.dec_len(o)
    except LabelError as err:
        raise Mismatch(f"{what}: {err}")
    except (TypeError, ValueError) as err:
        raise Mismatch(f"{what} is {o!r}: {err}")
    tol = float(ns_scale(dom)) * slack + 1e-9 * abs(float(e)) + (0 if dom.is_time else 1e-12)
    if abs(float(d - e)) > tol:
        raise Mismatch(f"{what} is {o!r} = {float(d)} units, expected {float(e)} units")


# -------------------------------------------------------------------- C08 set
def check_value_sums(ctx, st, f, dom, what="value_sums"):
    s = ctx.call("value_sums", st.value_sums)
    exp = f.value_sums()
    if not isinstance(s, pd.Series):
        raise Mismatch(f"{what} is a {type(s).__name__}")
    got = {}
    for k, l in zip(s.index, s):
        k = num(k, what + " key")
        if k is None:
            raise Mismatch(f"{what} has an undefined key")
        if k in got:
            raise Mismatch(f"{what} lists {k} twice")
        got[k] = l
    if f.exact and set(F(k) for k in got) != set(exp):
        raise Mismatch(f"{what} has values {sorted(got)}, expected {[float(v) for v in exp]}")
    if f.exact:
        for v, l in exp.items():
            length(ctx, dom, f"{what}[{float(v)}]", got[float(v)], l)
    elif len(got) == len(exp):
        for (v, l), k in zip(exp.items(), sorted(got)):
            close(ctx, what + " key", k, v, 1e-9 * top(f))
            length(ctx, dom, f"{what}[{k}]", got[k], l)
    ctx.count("value_sums_entries", len(got))


def check_integral(ctx, st, f, dom, how=None, what="integral"):
    o = how() if how else ctx.call("integral", st.integral)
    e = f.integral()
    ctx.count("answers_observed")
    try:
        d = dom.dec_len(o)
    except (LabelError, TypeError, ValueError) as err:
        raise Mismatch(f"{what} is {o!r}: {err}")
    n = len(f.finite_defined())
    scale = float(sum(abs(v) * l for l, v in f.finite_defined()))
    tol = float(ns_scale(dom)) * (n + 1) + 1e-12 * scale + 1e-9 * abs(float(e))
    if abs(float(d - e)) > tol:
        raise Mismatch(f"{what} is {o!r} = {float(d)} units, expected {float(e)} units")


def mean_tol(f, dom):
    return 1e-12 * top(f) + float(ns_scale(dom) * (len(f.finite_defined()) + 1) / f.total())


def check_mean(ctx, st, f, dom, how=None, what="mean"):
    o = how() if how else ctx.call("mean", st.mean)
    close(ctx, what, o, f.mean(), mean_tol(f, dom))


def check_var(ctx, st, f, dom, how=None, what="var"):
    o = how() if how else ctx.call("var", st.var)
    t = top(f)
    m = mean_tol(f, dom)
    close(ctx, what, o, f.var(), 1e-11 * t * t + 4 * m * t if dom.is_time else 1e-12 * t * t)


def check_std(ctx, st, f, dom, how=None, what="std"):
    o = how() if how else ctx.call("std", st.std)
    t = top(f)
    v = float(f.var())
    atol = 1e-12 * t * t + (4 * mean_tol(f, dom) * t if dom.is_time else 0)
    o = plain(o, what)
    ctx.count("answers_observed")
    if not (math.sqrt(max(0.0, v - atol)) - 1e-9 * t <= o <= math.sqrt(v + atol) + 1e-9 * t):
        raise Mismatch(f"{what} is {o!r}, expected {math.sqrt(v)!r}")


# -------------------------------------------------------------------- C09 set
def dyadic(f):
    t = f.total()
    return all((d := (s * 2 ** 12)).denominator == 1 for _, s in f.cum())


def check_quantile(ctx, what, o, f, q, exact):
    """q: exact Fraction asked for; exact: a share boundary can be hit exactly"""
    o = plain(o, what)
    ctx.count("answers_observed")
    lo, hi = f.quantile_bounds(q)
    tol = 1e-9 * top(f)
    if exact:
        e = float(f.quantile(q))
        if abs(o - e) > tol:
            raise Mismatch(f"{what} is {o!r}, expected {e!r} (distribution {dist_str(f)})")
        return
    eps = F(1, 10 ** 9)
    near = any(abs(s - q) < eps for _, s in f.cum()[:-1])
    if near and 0 < q < 1:
        lo, hi = f.quantile_bounds(max(F(0), q - eps))[0], f.quantile_bounds(min(F(1), q + eps))[1]
        ok = any(abs(o - float(c)) <= tol for c in (lo, hi, (lo + hi) / 2))
        if not ok:
            raise Mismatch(f"{what} is {o!r}, expected {float((lo + hi) / 2)!r} (or an end of the jump {float(lo)}..{float(hi)})")
        return
    e = float(f.quantile(q))
    if abs(o - e) > tol:
        raise Mismatch(f"{what} is {o!r}, expected {e!r} (distribution {dist_str(f)})")


def dist_str(f):
    return {float(v): float(s) for v, s in f.cum()}


def check_mode(ctx, st, f, dom, how=None, what="mode"):
    o = how() if how else ctx.call("mode", st.mode)
    o = plain(o, what)
    ctx.count("answers_observed")
    vs = f.value_sums()
    best = max(vs.values())
    ok = [v for v, l in vs.items() if l == best]
    if not any(abs(o - float(v)) <= 1e-9 * top(f) for v in ok):
        raise Mismatch(f"{what} is {o!r}, expected one of {[float(v) for v in ok]} with total length {float(best)}")


def check_ecdf(ctx, st, f, dom, what="ecdf"):
    e = ctx.call("ecdf", lambda: st.ecdf)
    vs = list(f.value_sums())
    ys = vs + [(a + b) / 2 for a, b in zip(vs, vs[1:])] + [vs[0] - 1, vs[-1] + F(1, 2)]
    got = ctx.call("ecdf()", e, [float(y) for y in ys])
    for y, o in zip(ys, got):
        close(ctx, f"{what}({float(y)})", o, f.ecdf(y), 1e-9)
    y = ctx.rng.choice(ys)
    close(ctx, f"{what}({float(y)})", ctx.call("ecdf()", e, float(y)), f.ecdf(y), 1e-9)
    for y, o in zip(ys, ctx.call("ecdf.limit", e.limit, [float(y) for y in ys], side="left")):
        close(ctx, f"{what} left limit at {float(y)}", o, f.ecdf(y, strict=True), 1e-9)
    for y, o in zip(ys, ctx.call("ecdf.limit", e.limit, [float(y) for y in ys], side="right")):
        close(ctx, f"{what} right limit at {float(y)}", o, f.ecdf(y), 1e-9)


def asked(rng, f):
    """percentiles to ask for: grid, boundaries, random"""
    shares = [s for _, s in f.cum()]
    out = [F(0), F(1), F(1, 2), F(1, 4), F(3, 4)]
    out += shares
    out += [(a + b) / 2 for a, b in zip([F(0)] + shares, shares)]
    out += [F(rng.randint(0, 1000), 1000)]
    return rng.sample(out, min(len(out), 9))


def exactly(x, f, scale):
    """is asking for float x a well-posed boundary question?"""
    return dyadic(f)


def check_percentiles(ctx, st, f, dom):
    rng = ctx.rng
    qs = asked(rng, f)
    dy = dyadic(f)
    P, X = ctx.call("percentile", lambda: st.percentile), ctx.call("fractile", lambda: st.fractile)
    ps = [float(q * 100) for q in qs]
    xs = [float(q) for q in qs]
    for p, o in zip(ps, ctx.call("percentile()", P, ps)):
        q = F(p) / 100
        check_quantile(ctx, f"percentile({p})", o, f, q, dy)
    for x, o in zip(xs, ctx.call("fractile()", X, xs)):
        check_quantile(ctx, f"fractile({x})", o, f, F(x), dy)
    j = rng.randrange(len(qs))
    check_quantile(ctx, f"percentile({ps[j]})", ctx.call("percentile()", P, ps[j]), f, F(ps[j]) / 100, dy)
    check_quantile(ctx, f"fractile({xs[j]})", ctx.call("fractile()", X, xs[j]), f, F(xs[j]), dy)
    check_quantile(ctx, "percentile(0)", ctx.call("percentile()", P, 0), f, F(0), True)
    check_quantile(ctx, "percentile(100)", ctx.call("percentile()", P, 100), f, F(1), True)
    check_quantile(ctx, "fractile(1)", ctx.call("fractile()", X, 1), f, F(1), True)


def check_median(ctx, st, f, dom, how=None, what="median"):
    o = how() if how else ctx.call("median", st.median)
    check_quantile(ctx, what, o, f, F(1, 2), dyadic(f))


def check_quantiles(ctx, st, f, dom):
    n = ctx.rng.choice([1, 2, 3, 4, 4, 5, 8, 10])
    got = ctx.call("quantiles", st.quantiles, n)
    if len(got) != n - 1:
        raise Mismatch(f"quantiles({n}) has {len(got)} entries, expected {n - 1}")
    dy = dyadic(f) and n in (1, 2, 4, 8)
    for i, o in enumerate(got, 1):
        check_quantile(ctx, f"quantiles({n})[{i - 1}]", o, f, F(i, n), dy)


def bin_amount(f, lo, hi, closed):
    a = F(0)
    for v, l in f.value_sums().items():
        if (lo <= v < hi) if closed == "left" else (lo < v <= hi):
            a += l
    return a


def pick_bins(rng, f):
    vs = list(f.value_sums())
    k = rng.random()
    closed = rng.choice(["left", "right"])
    lo, hi = vs[0], vs[-1]
    if k < 0.3 and hi - lo <= 40:
        return "unit", closed
    if k < 0.65:
        edges = sorted(set(rng.sample(vs, rng.randint(1, len(vs))) + [lo - rng.choice([0, 1]), hi + rng.choice([0, 1, F(1, 2)])]
                           + [F(rng.randint(int(lo) - 2, int(hi) + 2))]))
        if len(edges) < 2:
            edges.append(edges[-1] + 2)
    else:
        edges = sorted({F(rng.randint(4 * int(lo) - 8, 4 * int(hi) + 8), 4) for _ in range(rng.randint(2, 6))} | {lo - 1, hi + 1})
    edges = sorted({F(float(e)) for e in edges})
    return edges if len(edges) > 1 else edges + [edges[-1] + 2], closed


def check_hist(ctx, st, f, dom, stat=None):
    rng = ctx.rng
    stat = stat or rng.choice(["sum", "sum", "frequency", "density", "probability"])
    bins, closed = pick_bins(rng, f)
    kw = {}
    if stat != "sum" or rng.random() < 0.5:
        kw["stat"] = stat
    if bins == "unit":
        if rng.random() < 0.5:
            kw["bins"] = "unit"
        if closed != "left" or rng.random() < 0.5:
            kw["closed"] = closed
    else:
        fl = [float(e) for e in bins]
        if all(e.denominator == 1 for e in bins) and rng.random() < 0.5:
            fl = [int(e) for e in bins]
        form = rng.choice(["list", "array", "ii", "ii", "gaps"])
        if form in ("ii", "gaps"):
            ii = pd.IntervalIndex.from_breaks(fl, closed=closed)
            if form == "gaps" and len(ii) > 2:
                ii = ii[[j for j in range(len(ii)) if j != len(ii) // 2]]
            kw["bins"] = ii
            if rng.random() < 0.3:
                kw["closed"] = "left" if closed == "right" else "right"     # irrelevant for an IntervalIndex
        else:
            kw["bins"] = fl if form == "list" else np.array(fl)
            if closed != "left" or rng.random() < 0.5:
                kw["closed"] = closed
    ctx.log("hist", **kw)
    h = ctx.call("hist", st.hist, **kw)
    if not isinstance(h, pd.Series) or not isinstance(h.index, pd.IntervalIndex):
        raise Mismatch(f"hist returned {type(h).__name__}")
    if h.index.closed != closed:
        raise Mismatch(f"hist bins are {h.index.closed}-closed, asked for {closed}")
    got = [(F(float(i.left)), F(float(i.right))) for i in h.index]
    vs = list(f.value_sums())
    if bins == "unit":
        if any(b - a != 1 for a, b in got) or any(a[1] != b[0] for a, b in zip(got, got[1:])):
            raise Mismatch(f"unit bins are {got}")
        lo, hi = got[0][0], got[-1][1]
        if not ((lo <= vs[0] and vs[-1] < hi) if closed == "left" else (lo < vs[0] and vs[-1] <= hi)):
            raise Mismatch(f"unit bins {lo}..{hi} ({closed}) do not cover the values {vs[0]}..{vs[-1]}")
    else:
        want = [(F(float(i.left)), F(float(i.right))) for i in kw["bins"]] if isinstance(kw.get("bins"), pd.IntervalIndex) \
            else list(zip(bins, bins[1:]))
        if got != want:
            raise Mismatch(f"hist bins are {got}, asked for {want}")
    hist_values(ctx, f, dom, got, closed, stat, list(h))
    ctx.count("hist:" + stat)
    ctx.count("hist_bins", len(got))


def hist_values(ctx, f, dom, bins, closed, stat, values, what="hist"):
    amounts = [bin_amount(f, a, b, closed) for a, b in bins]
    total, seen = f.total(), sum(amounts)
    if stat in ("density", "probability") and not seen:
        return
    area = sum(x * (b - a) for x, (a, b) in zip(amounts, bins))
    for x, (a, b), o in zip(amounts, bins, values):
        w = f"{what}[{float(a)},{float(b)} {closed}] ({stat})"
        if stat == "sum":
            length_abs(ctx, dom, w, o, x, total)
        elif stat == "frequency":
            length_abs(ctx, dom, w, o, x / (b - a), total / min(1, b - a))
        elif stat == "density":
            t = 1e-9 / float(min(1, min(b - a for a, b in bins))) + float(2 * ns_scale(dom) * len(bins) / area)
            o2 = plain(o, w)
            ctx.count("answers_observed")
            # the amounts scaled (as they are, or per unit of bin width) to unit area
            alts = {float(x / area), float(x / (b - a) / seen)}
            if not any(abs(o2 - e) <= t for e in alts):
                raise Mismatch(f"{w} is {o2!r}, expected {float(x / area)!r}")
        else:
            o2 = plain(o, w)
            ctx.count("answers_observed")
            alts = {float(x / total), float(x / seen)}
            if not any(abs(o2 - e) <= 1e-9 for e in alts):
                raise Mismatch(f"{w} is {o2!r}, expected {float(x / total)!r}")


def length_abs(ctx, dom, what, o, e, scale):
    ctx.count("answers_observed")
    try:
        d = dom.dec_len(o)
    except (LabelError, TypeError, ValueError) as err:
        raise Mismatch(f"{what} is {o!r}: {err}")
    tol = float(ns_scale(dom)) * 2 + 1e-9 * float(scale)
    if abs(float(d - e)) > tol:
        raise Mismatch(f"{what} is {o!r} = {float(d)} units, expected {float(e)} units")


# ------------------------------------------------------------------- windows
def window_label(rng, dom, x, sign):
    import staircase as sc
    if x is None:
        return rng.choice([None, -sc.inf if sign < 0 else sc.inf])
    return dom.enc(x)


def window_with_finite(rng, f, dom, tries=40):
    """(lo, hi) such that the restricted function still has a finite defined piece"""
    pts = list(f.pts)
    for _ in range(tries):
        def pick():
            k = rng.random()
            if k < 0.2:
                return None
            if k < 0.6:
                return rng.choice(pts)
            if k < 0.9:
                return rng.choice(pts) + F(rng.choice([-1, 1, 1, 3]), dom.den)
            return rng.choice([pts[0] - 2, pts[-1] + 2])
        lo, hi = pick(), pick()
        if lo is not None and hi is not None and lo >= hi:
            continue
        g = f.restrict(lo, hi)
        if g.finite_defined():
            return lo, hi, g
    return None, None, f
