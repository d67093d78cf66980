"""C06 clip / mask / where restrict the domain exactly; isna / notna report it."""
from __future__ import annotations

from fractions import Fraction as F

import numpy as np

import staircase as sc
from .. import domains, gen, model as M
from ..build import Builder
from ..model import SF, indicator
from ..observe import check_same

RULE = ("functions of every provenance in 5 domains clipped / masked / restricted by windows whose bounds coincide with, "
        "fall between and lie beyond step points (None, sc.inf, +-np.inf, string bounds included), by tuples and by step "
        "functions with undefined and non-zero parts; chains of several restrictions; isna / notna of everything; all "
        "windows over a grid for every function of an enumerated small set")


def bound(rng, f, dom):
    pts = list(f.pts) or [F(0)]
    k = rng.random()
    if k < 0.15:
        return None
    if k < 0.6:
        return rng.choice(pts)
    if k < 0.8:
        x = rng.choice(pts) + F(rng.choice([-1, 1, 2]), dom.den)
        return x
    return rng.choice([pts[0] - 2, pts[-1] + 3])


def window(rng, f, dom):
    for _ in range(50):
        a, b = bound(rng, f, dom), bound(rng, f, dom)
        if a is None or b is None or a < b:
            return a, b
    return None, None


def label(rng, dom, x, sign):
    if x is None:
        opts = [None, -sc.inf if sign < 0 else sc.inf]
        if not dom.is_time:
            opts.append(float(sign) * np.inf)
        return rng.choice(opts)
    if dom.strings(x) is not None and rng.random() < 0.15:
        return dom.strings(x)
    return dom.scalar(x, rng)


def labels(rng, dom, lo, hi):
    """labels of both bounds; numpy's own datetime scalars do not compare with the
    other flavours, so two finite time bounds share one"""
    a, z = label(rng, dom, lo, -1), label(rng, dom, hi, +1)
    if dom.is_time and lo is not None and hi is not None:
        if isinstance(a, np.generic) or isinstance(z, np.generic):
            a, z = dom.enc(lo), dom.enc(hi)
            if dom.tz is None and rng.random() < 0.5:
                a, z = a.to_numpy(), z.to_numpy()
    return a, z


def restrict(ctx, b, st, f):
    """one random restriction -> (Stairs, model)"""
    rng, dom = ctx.rng, b.dom
    k = rng.choice(["clip", "clip", "clipkw", "where_t", "where_t", "mask_t", "mask_t", "mask", "where", "mask", "where"])
    ctx.route(k)
    if k in ("clip", "clipkw", "where_t", "mask_t"):
        lo, hi = window(rng, f, dom)
        a, z = labels(rng, dom, lo, hi)
        ctx.log(k, a, z)
        if k == "clip":
            return ctx.call("clip", st.clip, a, z), f.restrict(lo, hi)
        if k == "clipkw":
            kw = {}
            if lo is not None or rng.random() < 0.5:
                kw["lower"] = a
            if hi is not None or rng.random() < 0.5:
                kw["upper"] = z
            return ctx.call("clip", st.clip, **kw), f.restrict(lo, hi)
        if k == "where_t":
            return ctx.call("where", st.where, (a, z)), f.restrict(lo, hi)
        return ctx.call("mask", st.mask, (a, z)), f.blank(lo, hi)
    g = gen.sf(rng, dom, gen.palette(rng, ["bool", "bool", "small", "tiny", "frac", "specks"]), closed=f.closed)
    if rng.random() < 0.3 and f.pts:
        g = gen.sf(rng, dom, gen.palette(rng, ["bool", "small"]), closed=f.closed, pts=list(f.pts))
    if not g.pts:
        g = g.with_closed(rng.choice(["left", "right"]))
    y = b.operand(g)
    ctx.log(k, repr(g))
    if k == "mask":
        return ctx.call("mask", st.mask, y), M.mask(f, g)
    return ctx.call("where", st.where, y), M.where(f, g)


def chain(ctx, i):
    rng = ctx.rng
    b = Builder(ctx, domains.pick(rng))
    f = gen.sf(rng, b.dom, closed=rng.choice(["left", "right"]))
    st = b.operand(f)
    for step in range(rng.choice([1, 1, 2, 3])):
        r, m = restrict(ctx, b, st, f)
        extra = tuple(f.pts)
        check_same(r, m, b.dom, ctx, "restricted", extra=extra)
        if rng.random() < 0.4:
            check_same(ctx.call("isna", r.isna), M.isna(m), b.dom, ctx, "isna")
        if rng.random() < 0.4:
            check_same(ctx.call("notna", r.notna), M.notna(m), b.dom, ctx, "notna")
        ctx.note(f.key(), m.key(), b.dom.kind)
        st, f = r, m.with_closed(r.closed)


def na(ctx, i):
    rng = ctx.rng
    b = Builder(ctx, domains.pick(rng))
    f = gen.sf(rng, b.dom, closed=rng.choice(["left", "right"]), p_nan=rng.choice([0, 0.3, 0.6]), hi=8)
    st = b.operand(f)
    r, n = ctx.call("isna", st.isna), ctx.call("notna", st.notna)
    check_same(r, M.isna(f), b.dom, ctx, "isna")
    check_same(n, M.notna(f), b.dom, ctx, "notna")
    ctx.expect(M.isna(f).map(lambda v: 1 - v).same(M.notna(f)), "model")
    ctx.note("na", f.key())


def tuple_vs_clip(ctx, i):
    """where((a, b)) equals clip(a, b); mask((a, b)) equals where(indicator == 0)"""
    rng = ctx.rng
    b = Builder(ctx, domains.pick(rng))
    dom = b.dom
    f = gen.sf(rng, dom, closed=rng.choice(["left", "right"]))
    st = b.operand(f)
    lo, hi = window(rng, f, dom)
    a, z = labels(rng, dom, lo, hi)
    ctx.log("where/clip", a, z)
    w, c = ctx.call("where", st.where, (a, z)), ctx.call("clip", st.clip, a, z)
    check_same(w, f.restrict(lo, hi), dom, ctx, "where(tuple)")
    check_same(c, f.restrict(lo, hi), dom, ctx, "clip")
    ctx.expect(ctx.call("identical", w.identical, c), "where((a, b)) is not identical to clip(a, b)")
    ind = b.operand(indicator(lo, hi, f.closed))
    k, j = ctx.call("mask", st.mask, ind), ctx.call("where", st.where, ind)
    check_same(k, f.blank(lo, hi), dom, ctx, "mask(indicator)")
    check_same(j, f.restrict(lo, hi), dom, ctx, "where(indicator)")
    check_same(ctx.call("mask", st.mask, (a, z)), f.blank(lo, hi), dom, ctx, "mask(tuple)")
    ctx.note("tc", f.key(), lo, hi, dom.kind)


_V = [None, F(0), F(2)]
SMALL = [SF([], [v]) for v in _V] + [SF([F(1)], [u, v]) for u in _V for v in _V if u != v] + \
        [SF([F(1), F(3)], [u, v, w]) for u in _V for v in _V for w in _V if u != v and v != w]
_G = [None] + [F(x) for x in range(0, 5)]
WINDOWS = [(a, z) for a in _G for z in _G if a is None or z is None or a < z]


def exhaustive(ctx, i):
    rng = ctx.rng
    dom = domains.MAKERS[["int", "float", "naive", "tz", "timedelta"][(i // (2 * len(SMALL))) % 5]](rng)
    b = Builder(ctx, dom)
    f = SMALL[i % len(SMALL)].with_closed("left" if (i // len(SMALL)) % 2 else "right")
    st = b.operand(f)
    for lo, hi in WINDOWS:
        a, z = labels(rng, dom, lo, hi)
        how = rng.choice(["clip", "where", "mask"])
        ctx.log(how, a, z)
        if how == "clip":
            check_same(ctx.call("clip", st.clip, a, z), f.restrict(lo, hi), dom, ctx, f"{f}.clip({lo},{hi})")
        elif how == "where":
            check_same(ctx.call("where", st.where, (a, z)), f.restrict(lo, hi), dom, ctx, f"{f}.where(({lo},{hi}))")
        else:
            check_same(ctx.call("mask", st.mask, (a, z)), f.blank(lo, hi), dom, ctx, f"{f}.mask(({lo},{hi}))")
    for g in SMALL:
        g = g.shift(F(rng.choice([0, 0, 1])))
        y = b.operand(g.with_closed(f.closed), depth=1)
        if rng.random() < 0.5:
            check_same(ctx.call("mask", st.mask, y), M.mask(f, g), dom, ctx, f"{f}.mask({g})")
        else:
            check_same(ctx.call("where", st.where, y), M.where(f, g), dom, ctx, f"{f}.where({g})")
    ctx.note("exh", f.key(), f.closed, dom.kind)


def large(ctx, i):
    rng = ctx.rng
    b = Builder(ctx, domains.pick(rng))
    f = gen.sf(rng, b.dom, closed=rng.choice(["left", "right"]), n=gen.big(rng, 100, 300))
    st = b.operand(f, depth=0)
    r, m = restrict(ctx, b, st, f)
    check_same(r, m, b.dom, ctx, "restricted")
    check_same(ctx.call("isna", r.isna), M.isna(m), b.dom, ctx, "isna")
    ctx.note("large", f.key())


KINDS = {"chain": chain, "na": na, "tuple": tuple_vs_clip, "exh": exhaustive, "large": large}
REQUIRE = {"op:clip": 1500, "op:mask": 1500, "op:where": 1500, "op:isna": 600, "op:notna": 600}


def plan(tier):
    n = len(SMALL) * 10
    if tier == "quick":
        return [("chain", 1700), ("na", 500), ("tuple", 500), ("exh", n), ("large", 40)]
    return [("chain", 50000), ("na", 10000), ("tuple", 12000), ("exh", n * 3), ("large", 800)]
