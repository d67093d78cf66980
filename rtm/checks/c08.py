"""C08 integral, mean, var, std, value_sums are length-weighted over finite pieces."""
from __future__ import annotations

from fractions import Fraction as F

import numpy as np
import pandas as pd

from .. import domains, gen, model as M
from ..build import Builder
from ..model import SF
from ..observe import Mismatch, check_same, num
from ._stats import (check_integral, check_mean, check_std, check_value_sums, check_var, fits, length, stat_sf,
                     window_label, window_with_finite)

RULE = ("functions with a finite defined piece (undefined ends / holes, repeated values, equal and unequal lengths) of every "
        "provenance and either closed side in 5 domains; value_sums / integral / mean / var / std asked in random order, "
        "directly and through agg over windows, single names and lists; every answer compared with the exact "
        "length-weighted sums; all functions of an enumerated small set")

CHECKS = {"value_sums": check_value_sums, "integral": check_integral, "mean": check_mean, "var": check_var, "std": check_std}
AGG = {"integral": check_integral, "mean": check_mean, "var": check_var, "std": check_std}


def whole(ctx, b, st, f):
    names = list(CHECKS)
    ctx.rng.shuffle(names)
    for n in names:
        ctx.log(n)
        CHECKS[n](ctx, st, f, b.dom)
    if ctx.rng.random() < 0.3:
        n = ctx.rng.choice(names)
        CHECKS[n](ctx, st, f, b.dom, what=n + " (asked again)")


def direct(ctx, i):
    rng = ctx.rng
    b = Builder(ctx, domains.pick(rng))
    f = stat_sf(rng, b.dom, closed=rng.choice(["left", "right"]))
    st = b.operand(f)
    whole(ctx, b, st, f)
    ctx.note(f.key(), b.dom.kind)


def window(ctx, i):
    rng = ctx.rng
    b = Builder(ctx, domains.pick(rng))
    dom = b.dom
    f = stat_sf(rng, dom, closed=rng.choice(["left", "right"]))
    st = b.operand(f)
    for _ in range(2):
        lo, hi, g = window_with_finite(rng, f, dom)
        w = (window_label(rng, dom, lo, -1), window_label(rng, dom, hi, +1))
        if rng.random() < 0.3:
            w = list(w)
        names = rng.sample(list(AGG), rng.randint(1, 4))
        args = {"where": w} if (lo is not None or hi is not None or rng.random() < 0.5) else {}
        if rng.random() < 0.2:
            args["closed"] = rng.choice(["left", "right", "both", "neither"])    # irrelevant to these
        if rng.random() < 0.5:
            ctx.log("agg", names, **args)
            r = ctx.call("agg", st.agg, names, **args)
            if not isinstance(r, pd.Series) or list(r.index) != names:
                raise Mismatch(f"agg({names}) returned {r!r}")
            for n in names:
                AGG[n](ctx, st, g, dom, how=lambda: r[n], what=f"agg([..{n}..], {lo}, {hi})")
        else:
            n = names[0]
            ctx.log("agg", n, **args)
            AGG[n](ctx, st, g, dom, how=lambda: ctx.call("agg", st.agg, n, **args), what=f"agg({n}, {lo}, {hi})")
        ctx.note("w", g.key(), names[0])
    whole(ctx, b, st, f)


def sums_variants(ctx, i):
    """value_sums(dropna=False) adds the undefined length, group=False lists pieces"""
    rng = ctx.rng
    b = Builder(ctx, domains.pick(rng))
    dom = b.dom
    f = stat_sf(rng, dom, closed=rng.choice(["left", "right"]), p_nan=rng.choice([0.2, 0.5, 0]))
    st = b.operand(f)
    s = ctx.call("value_sums", st.value_sums, dropna=False)
    und = sum((hi - lo for lo, hi, v in f.finite() if v is None), F(0))
    got = [(num(k), l) for k, l in zip(s.index, s)]
    nan = [l for k, l in got if k is None]
    ctx.expect(len(nan) == (1 if und else 0), f"value_sums(dropna=False) has {len(nan)} undefined entries for {f}")
    if und:
        length(ctx, dom, "value_sums(dropna=False)[nan]", nan[0], und)
    exp = f.value_sums()
    ctx.expect({F(k) for k, _ in got if k is not None} == set(exp), f"value_sums(dropna=False) keys {got} expected {exp}")
    for k, l in got:
        if k is not None:
            length(ctx, dom, f"value_sums(dropna=False)[{k}]", l, exp[F(k)])
    s = ctx.call("value_sums", st.value_sums, group=False)
    pieces = [(num(k), l) for k, l in zip(s.index, s)]
    tot = {}
    for k, l in pieces:
        if k is not None:
            tot[F(k)] = tot.get(F(k), 0) + dom.dec_len(l)
    ctx.expect(tot == exp, f"value_sums(group=False) adds up to {tot}, expected {exp}")
    check_value_sums(ctx, st, f, dom)
    ctx.note("vs", f.key(), dom.kind)


_V = [None, F(0), F(2), F(-1)]
SMALL = [SF([F(0), F(1)], [u, v, w]) for u in (None, F(5)) for v in _V for w in (None, F(0)) if v is not None] + \
        [SF([F(0), F(1), F(3)], [u, v, w, z]) for u in (None, F(0)) for v in _V for w in _V for z in (None, F(7))
         if v != w and u != v and w != z] + \
        [SF([F(0), F(2), F(3), F(5)], [u, v, w, x, z]) for u in (None, F(0)) for v in _V for w in _V for x in _V
         for z in (None, F(1)) if u != v != w != x != z]
SMALL = [f for f in SMALL if f.finite_defined()]


def exhaustive(ctx, i):
    rng = ctx.rng
    dom = domains.MAKERS[["int", "float", "naive", "tz", "timedelta"][(i // len(SMALL)) % 5]](rng)
    b = Builder(ctx, dom)
    f = SMALL[i % len(SMALL)].with_closed(rng.choice(["left", "right"]))
    whole(ctx, b, b.operand(f), f)
    ctx.note("exh", f.key(), dom.kind)


def large(ctx, i):
    rng = ctx.rng
    b = Builder(ctx, domains.pick(rng))
    if i % 3 == 0:
        # many values, some of them held for a short time only
        pts = gen.skewed(rng, gen.points(rng, rng.choice([40, 90]), b.dom), b.dom)
        f = stat_sf(rng, b.dom, closed=rng.choice(["left", "right"]), pts=pts, pals=["many"])
    else:
        f = stat_sf(rng, b.dom, closed=rng.choice(["left", "right"]), n=gen.big(rng, 100, 400))
    whole(ctx, b, b.operand(f, depth=0), f)
    ctx.note("large", f.key())


def offset(ctx, i):
    """values far from zero against their spread: the deviations must not be lost"""
    rng = ctx.rng
    b = Builder(ctx, domains.pick(rng, {"int": 1, "float": 1}))
    base = F(rng.choice([10 ** 9, -10 ** 9, 2 ** 30, 2 ** 31 + 1]))
    small = [F(v) for v in rng.choice([(0, 1, 2, 3), (0, 3, 7), (-5, 1, 4, 9)])]
    f = gen.sf_with_finite(rng, b.dom, pal=[base + v for v in small], closed=rng.choice(["left", "right"]))
    st = b.operand(f, depth=1)
    want = float(f.var())
    for name, e in (("var", want), ("std", want ** 0.5)):
        o = ctx.call(name, getattr(st, name))
        ctx.count("answers_observed")
        if not abs(float(o) - e) <= 1e-3:       # (rounding the mean costs less than 1e-9)
            raise Mismatch(f"{name} is {o!r}, expected {e!r} of {f}")
    check_mean(ctx, st, f, b.dom)
    ctx.note("offset", f.key())


KINDS = {"offset": offset, "direct": direct, "window": window, "sums": sums_variants, "exh": exhaustive, "large": large}
REQUIRE = {"op:value_sums": 2500, "op:integral": 2500, "op:mean": 2500, "op:var": 2500, "op:std": 2500, "op:agg": 1000}


def plan(tier):
    n = len(SMALL) * 5
    if tier == "quick":
        return [("direct", 1500), ("window", 900), ("sums", 700), ("exh", n), ("large", 40), ("offset", 150)]
    return [("direct", 50000), ("window", 30000), ("sums", 15000), ("exh", n * 3), ("large", 800), ("offset", 4000)]
