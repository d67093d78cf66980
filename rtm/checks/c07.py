"""C07 fillna only ever changes undefined points, and fills them as specified."""
from __future__ import annotations

from fractions import Fraction as F

from .. import domains, gen, model as M
from ..build import Builder, scalar_value
from ..ctx import Violation
from ..model import SF
from ..observe import check_same

RULE = ("functions undefined at either end, at both, in one or several interior regions, everywhere or nowhere, of every "
        "provenance in 5 domains; filled by scalars in every flavour (NaN included), by step functions (step-free, defined, "
        "partly undefined) and by all four method names; chains of fills; an enumerated small set against every filler")
METHODS = ["ffill", "pad", "bfill", "backfill"]


def undef_sf(rng, dom, closed):
    return gen.sf(rng, dom, closed=closed, p_nan=rng.choice([0.2, 0.4, 0.4, 0.7, 0]), hi=8)


def fill(ctx, b, st, f):
    rng, dom = ctx.rng, b.dom
    k = rng.choice(["scalar", "method", "method", "stairs", "stairs"])
    if k == "scalar":
        c = rng.choice([F(0), F(1), F(-2), F(7), F(1, 4), None] + [v for v in f.vals if v is not None][:3])
        s = scalar_value(c, rng)
        ctx.log("fillna", s)
        return ctx.call("fillna:scalar", st.fillna, s), M.fillna(f, c), f"fillna({s!r})"
    if k == "method":
        m = rng.choice(METHODS)
        ctx.log("fillna", m)
        return ctx.call("fillna:" + m, st.fillna, m), M.fillna(f, m), f"fillna({m!r})"
    g = gen.sf(rng, dom, closed=f.closed, p_nan=rng.choice([0, 0, 0.3, 0.6]))
    if rng.random() < 0.25 and f.pts:
        g = gen.sf(rng, dom, closed=f.closed, pts=list(f.pts), p_nan=rng.choice([0, 0.4]))
    if not g.pts:
        g = g.with_closed(rng.choice(["left", "right"]))
    y = b.operand(g)
    ctx.log("fillna", repr(g))
    return ctx.call("fillna:stairs", st.fillna, y), M.fillna(f, g), f"fillna({g})"


def chain(ctx, i):
    rng = ctx.rng
    b = Builder(ctx, domains.pick(rng))
    f = undef_sf(rng, b.dom, rng.choice(["left", "right"]))
    st = b.operand(f)
    for step in range(rng.choice([1, 1, 2, 3])):
        r, m, what = fill(ctx, b, st, f)
        check_same(r, m, b.dom, ctx, what, extra=tuple(f.pts))
        ctx.note(f.key(), m.key(), what.split("(")[0], b.dom.kind)
        if rng.random() < 0.5:
            # fill something else built from the result
            lo, hi = sorted(rng.sample(range(0, 12), 2))
            m2 = m.with_closed(r.closed).blank(F(lo), F(hi))
            try:
                r2 = ctx.call("mask", r.mask, (b.dom.enc(F(lo)), b.dom.enc(F(hi))))
            except Violation:       # not this property's business
                r2 = None
            if r2 is not None and b.verified(r2, m2):
                r, m = r2, m2
        st, f = r, m.with_closed(r.closed)
        if not f.exact:
            break


_V = [None, F(0), F(2)]
SMALL = [SF([], [v]) for v in _V] + [SF([F(1)], [u, v]) for u in _V for v in _V if u != v] + \
        [SF([F(1), F(3)], [u, v, w]) for u in _V for v in _V for w in _V if u != v and v != w] + \
        [SF([F(1), F(2), F(4)], [u, v, w, z]) for u in (None, F(1)) for v in (None, F(2)) for w in (None, F(3), F(1))
         for z in (None, F(0)) if u != v and v != w and w != z]


def exhaustive(ctx, i):
    rng = ctx.rng
    dom = domains.MAKERS[["int", "float", "naive", "tz", "timedelta"][(i // (2 * len(SMALL))) % 5]](rng)
    b = Builder(ctx, dom)
    f = SMALL[i % len(SMALL)].with_closed("left" if (i // len(SMALL)) % 2 else "right")
    st = b.operand(f)
    for m in METHODS:
        check_same(ctx.call("fillna:" + m, st.fillna, m), M.fillna(f, m), dom, ctx, f"{f}.fillna({m!r})")
    for c in (F(0), F(5), F(2), None):
        s = scalar_value(c, rng)
        check_same(ctx.call("fillna:scalar", st.fillna, s), M.fillna(f, c), dom, ctx, f"{f}.fillna({s!r})")
    for g in rng.sample(SMALL, 14):
        g = g.shift(F(rng.choice([0, 0, 1, -1]))).with_closed(f.closed)
        y = b.operand(g, depth=1)
        check_same(ctx.call("fillna:stairs", st.fillna, y), M.fillna(f, g), dom, ctx, f"{f}.fillna({g})")
    ctx.note("exh", f.key(), f.closed, dom.kind)


def large(ctx, i):
    rng = ctx.rng
    b = Builder(ctx, domains.pick(rng))
    f = gen.sf(rng, b.dom, closed=rng.choice(["left", "right"]), n=gen.big(rng, 100, 300), p_nan=rng.choice([0.1, 0.5]))
    st = b.operand(f, depth=0)
    r, m, what = fill(ctx, b, st, f)
    check_same(r, m, b.dom, ctx, what)
    ctx.note("large", f.key())


KINDS = {"chain": chain, "exh": exhaustive, "large": large}
REQUIRE = {"op:fillna:scalar": 800, "op:fillna:stairs": 1500, "op:fillna:ffill": 250, "op:fillna:pad": 250,
           "op:fillna:bfill": 250, "op:fillna:backfill": 250}


def plan(tier):
    n = len(SMALL) * 10
    if tier == "quick":
        return [("chain", 2400), ("exh", n), ("large", 40)]
    return [("chain", 70000), ("exh", n * 3), ("large", 800)]
