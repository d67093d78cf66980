"""C12 results are minimal, so identical() decides equality of functions."""
from __future__ import annotations

import math

import operator
from fractions import Fraction as F

import numpy as np
import pandas as pd

import staircase as sc
from .. import domains, gen, model as M, ops
from ..build import Builder, pynum, scalar_value
from ..ctx import Skip, Violation
from ..model import SF
from ..observe import Mismatch, check_same, declabel, frame, minimal, num, same_function
from ._stats import stat_sf

RULE = ("every catalogued operation on value-coincidence-rich operands (0/1, two values, few values, everywhere undefined, "
        "step-free) of every provenance: the piece table, step_values and step_changes of the result hold no redundant point "
        "and number_of_steps is the exact number of changes; identical() in both directions against independently built "
        "equal functions, scalars and functions differing in one point, value or region; pointwise-algebra laws evaluated on "
        "both sides; bool(); random programs; enumerated small sets; step functions from layering, from_values, resample, "
        "ecdf / percentile / fractile")

RICH = ["bool", "bool", "two", "two", "small", "frac", "tiny"]


def well_formed(ctx, r, m, dom, what):
    """r is minimal in every view, and has exactly the steps m has (m None: unknown)"""
    o = frame(r, dom, ctx.call)
    minimal(o, what)
    ctx.count("minimality_checks")
    n = ctx.call("number_of_steps", lambda: r.number_of_steps)
    ctx.expect(n == len(o.pts), f"{what}: number_of_steps {n}, but {len(o.pts)} changes in {o}")
    pts = [declabel(p, dom) for p in _points(ctx, r, dom)]
    ctx.expect(pts == o.pts, f"{what}: step_points {pts} but to_frame has {o.pts}")
    if m is not None:
        same_function(o, m, what)
        if m.exact:
            ctx.expect(n == len(m.pts), f"{what}: number_of_steps {n}, expected {len(m.pts)} for {m}")
        elif n > len(m.pts):
            raise Mismatch(f"{what}: {n} steps, but at most {len(m.pts)} changes in {m}")
    ch = ctx.call("step_changes", lambda: r.step_changes)
    ctx.expect(len(ch) == n, f"{what}: {len(ch)} step changes, {n} steps")
    for i, v in enumerate(ch):
        v = num(v, "step change")
        a, c = o.vals[i], o.vals[i + 1]
        if a is not None and c is not None and not v:
            raise Mismatch(f"{what}: step change {v} at a step from {a} to {c}")
    return o


def _points(ctx, r, dom):
    p = ctx.call("step_points", lambda: r.step_points)
    if dom.kind == "tz":
        return list(ctx.call("step_values", lambda: r.step_values).index)
    return list(p)


def equal_both(ctx, x, y, what):
    ctx.count("identical_checks", 2)
    a = ctx.call("identical", x.identical, y)
    if not a:
        raise Mismatch(f"{what}: identical() is {a!r} for equal functions")
    if isinstance(y, sc.Stairs):
        c = ctx.call("identical", y.identical, x)
        if not c:
            raise Mismatch(f"{what}: identical() is {c!r} for equal functions (other direction)")


def differ_both(ctx, x, y, what):
    ctx.count("different_checks", 2)
    a = ctx.call("identical", x.identical, y)
    if a:
        raise Mismatch(f"{what}: identical() is {a!r} for different functions")
    if isinstance(y, sc.Stairs):
        a = ctx.call("identical", y.identical, x)
        if a:
            raise Mismatch(f"{what}: identical() is {a!r} for different functions (other direction)")


def perturb(rng, f, dom):
    """a different function, one change away"""
    for _ in range(20):
        vals, pts = list(f.vals), list(f.pts)
        k = rng.choice(["value", "undef", "move", "init", "const", "tiny"])
        j = rng.randrange(len(vals))
        if k == "value":
            vals[j] = F(9) if vals[j] is None else vals[j] + rng.choice([1, -1, F(1, 2)])
        elif k == "tiny":
            if vals[j] is None:
                continue
            vals[j] += F(1, 2**30)
        elif k == "undef":
            vals[j] = None if vals[j] is not None else F(0)
        elif k == "init":
            vals[0] = F(4) if vals[0] != 4 else F(5)
        elif k == "move" and pts:
            i = rng.randrange(len(pts))
            p = pts[i] + F(1, dom.den)
            if p in pts or (i + 1 < len(pts) and p > pts[i + 1]):
                continue
            pts[i] = p
        elif k == "const":
            vals = [None if v is None else v + 1 for v in vals]
        g = SF(pts, vals, f.closed)
        if not g.same(f) and g.exact:
            return g
    return None


def judge(ctx, b, r, m, what):
    """the whole property for one result r that should denote m"""
    rng, dom = ctx.rng, b.dom
    order = rng.random()
    m = m.with_closed(r.closed)
    if order < 0.5:
        well_formed(ctx, r, m, dom, what)
    if m.exact:
        y = b.operand(m) if rng.random() < 0.6 else b.plain(m)
        equal_both(ctx, r, y, what)
        if not m.pts:
            c = m.vals[0]
            equal_both(ctx, r, scalar_value(c, rng), what + f" (scalar {c})")
        g = perturb(rng, m, dom)
        if g is not None:
            differ_both(ctx, r, b.operand(g), f"{what} against {g}")
        if rng.random() < 0.3:
            c = rng.choice([F(0), F(1), m.vals[0], m.vals[-1]])
            if not SF.const(c).same(m):
                differ_both(ctx, r, scalar_value(c, rng), f"{what} against scalar {c}")
    if rng.random() < 0.4:
        equal_both(ctx, r, r, what + " (itself)")
        equal_both(ctx, r, ctx.call("copy", r.copy), what + " (its copy)")
    t = ctx.call("bool", bool, r)
    ctx.expect(t is (not m.pts and m.vals[0] == 1), f"{what}: bool() is {t} for {m}")
    if order >= 0.5:
        well_formed(ctx, r, m, dom, what)


def rich(rng, dom, closed, **kw):
    pal = gen.PALETTES[rng.choice(RICH)]
    return gen.sf(rng, dom, pal, closed, p_nan=rng.choice([0, 0, 0.2, 0.5]), hi=5, const=0.2, **kw)


def operands(ctx, b, n):
    rng = ctx.rng
    closed = rng.choice(["left", "right"])
    dom = b.dom
    fs = [rich(rng, dom, closed)]
    while len(fs) < n:
        f, k = fs[0], rng.random()
        if k < 0.15:
            fs.append(f)
        elif k < 0.3:
            fs.append(M.negate(f))
        elif k < 0.4:
            fs.append(M.invert(f))
        elif k < 0.5 and f.pts:
            fs.append(rich(rng, dom, closed, pts=list(f.pts)))
        elif k < 0.6:
            fs.append(f.shift(F(1)))
        else:
            fs.append(rich(rng, dom, closed))
    return fs, [b.operand(f) for f in fs]


def single(ctx, i):
    rng = ctx.rng
    b = Builder(ctx, domains.pick(rng))
    o = ops.ALL[i % len(ops.ALL)]
    n = o.arity if o.arity != "n" else rng.randint(1, 4)
    fs, xs = operands(ctx, b, n)
    p = o.draw(rng, b.dom, fs)
    r = ctx_run(ctx, o, b, xs, p)
    judge(ctx, b, r, o.model(fs, p), f"{o}{p} of {fs}")
    ctx.count("ops:" + o.group)
    ctx.note(o.name, p, [f.key() for f in fs], b.dom.kind)


def ctx_run(ctx, o, b, xs, p):
    r = o.run(b, xs, p)
    if not isinstance(r, sc.Stairs):
        raise Mismatch(f"{o} returned a {type(r).__name__}")
    return r


def pairs(ctx, i):
    """two routes to the same function; two different functions"""
    rng = ctx.rng
    b = Builder(ctx, domains.pick(rng))
    closed = rng.choice(["left", "right"])
    f = rich(rng, b.dom, closed) if rng.random() < 0.7 else gen.sf(rng, b.dom, closed=closed)
    x, y, z = b.operand(f), b.operand(f), b.operand(f)
    equal_both(ctx, x, y, f"{f}")
    g = perturb(rng, f, b.dom)
    if g is not None:
        w = b.operand(g)
        differ_both(ctx, y, w, f"{f} and {g}")
    equal_both(ctx, y, z, f"{f}")
    equal_both(ctx, x, z, f"{f} (transitively)")
    well_formed(ctx, x, f, b.dom, "operand")
    ctx.note("pair", f.key(), g and g.key(), b.dom.kind)


def _eq(x, y):
    return x == y


A = operator
LAWS = {
    "add commutes": (2, lambda f, g: (f + g, g + f)),
    "mul commutes": (2, lambda f, g: (f * g, g * f)),
    "add associates": (3, lambda f, g, h: ((f + g) + h, f + (g + h))),
    "mul associates": (3, lambda f, g, h: ((f * g) * h, f * (g * h))),
    "distributes": (3, lambda f, g, h: (f * (g + h), f * g + f * h)),
    "distributes -": (3, lambda f, g, h: ((f - g) * h, f * h - g * h)),
    "sub is add neg": (2, lambda f, g: (f - g, f + (-g))),
    "sub antisymmetric": (2, lambda f, g: (f - g, -(g - f))),
    "neg neg": (1, lambda f: (-(-f), f)),
    "neg is times -1": (1, lambda f: (-f, f * -1)),
    "f - f": (1, lambda f: (f - f, sc.Stairs(initial_value=0, closed=f.closed).where(f.notna()))),
    "f + 0": (1, lambda f: (f + 0, f)),
    "f * 1": (1, lambda f: (f * 1, f)),
    "f / 1": (1, lambda f: (f / 1, f)),
    "f * 0": (1, lambda f: (f * 0, f - f)),
    "f / f": (1, lambda f: (f / f, f.make_boolean().where(f.fillna(0)))),
    "2f": (1, lambda f: (f + f, 2 * f)),
    "c - f": (1, lambda f: (3 - f, -(f - 3))),
    "de morgan and": (2, lambda f, g: (~(f & g), ~f | ~g)),
    "de morgan or": (2, lambda f, g: (~(f | g), ~f & ~g)),
    "not not": (1, lambda f: (~~f, f.make_boolean())),
    "make_boolean": (1, lambda f: (f.make_boolean(), f != 0)),
    "invert": (1, lambda f: (~f, f == 0)),
    "and commutes": (2, lambda f, g: (f & g, g & f)),
    "or commutes": (2, lambda f, g: (f | g, g | f)),
    "xor commutes": (2, lambda f, g: (f ^ g, g ^ f)),
    "and associates": (3, lambda f, g, h: ((f & g) & h, f & (g & h))),
    "or associates": (3, lambda f, g, h: ((f | g) | h, f | (g | h))),
    "xor associates": (3, lambda f, g, h: ((f ^ g) ^ h, f ^ (g ^ h))),
    "and over or": (3, lambda f, g, h: (f & (g | h), (f & g) | (f & h))),
    "or over and": (3, lambda f, g, h: (f | (g & h), (f | g) & (f | h))),
    "xor": (2, lambda f, g: (f ^ g, (f & ~g) | (~f & g))),
    "xor ne": (2, lambda f, g: (f ^ g, f.make_boolean() != g.make_boolean())),
    "and is mul": (2, lambda f, g: (f & g, f.make_boolean() * g.make_boolean())),
    "and min": (2, lambda f, g: (f & g, sc.min([f.make_boolean(), g.make_boolean()]))),
    "or max": (2, lambda f, g: (f | g, sc.max([f.make_boolean(), g.make_boolean()]))),
    "f & f": (1, lambda f: (f & f, f | f)),
    "f ^ f": (1, lambda f: (f ^ f, f * 0)),
    "lt gt": (2, lambda f, g: (f < g, g > f)),
    "le ge": (2, lambda f, g: (f <= g, g >= f)),
    "lt not ge": (2, lambda f, g: (f < g, ~(f >= g))),
    "eq not ne": (2, lambda f, g: (f == g, ~(f != g))),
    "eq commutes": (2, lambda f, g: (f == g, g == f)),
    "le": (2, lambda f, g: (f <= g, (f < g) | (f == g))),
    "trichotomy": (2, lambda f, g: ((f < g) + (f == g) + (f > g), (f - g) * 0 + 1)),
    "eq diff": (2, lambda f, g: (f == g, (f - g) == 0)),
    "eq self": (1, lambda f: (f == f, f * 0 + 1)),
    "ne self": (1, lambda f: (f != f, f * 0)),
    "mask where": (2, lambda f, g: (f.mask(g), f.where(~g))),
    "where mask": (2, lambda f, g: (f.where(g), f.mask(~g))),
    "mask bool": (2, lambda f, g: (f.mask(g), f.mask(g.make_boolean()))),
    "mask twice": (3, lambda f, g, h: (f.mask(g).mask(h), f.mask(h).mask(g))),
    "mask or": (3, lambda f, g, h: (f.mask(g).mask(h), f.mask(g | h))),
    "where and": (3, lambda f, g, h: (f.where(g).where(h), f.where(g & h))),
    "mask over add": (3, lambda f, g, h: ((f + g).mask(h), f.mask(h) + g)),
    "where over mul": (3, lambda f, g, h: ((f * g).where(h), f * g.where(h))),
    "isna notna": (1, lambda f: (f.isna(), ~f.notna())),
    "isna + notna": (1, lambda f: (f.isna() + f.notna(), sc.Stairs(initial_value=1))),
    "isna sum": (2, lambda f, g: ((f + g).isna(), f.isna() | g.isna())),
    "where notna": (1, lambda f: (f.where(f.notna()), f)),
    "mask isna": (1, lambda f: (f.mask(f.isna()), f)),
    "fillna mask": (1, lambda f: (f.fillna(7).mask(f.isna()), f)),
    "fillna self": (1, lambda f: (f.fillna(f), f)),
    "fillna twice": (1, lambda f: (f.fillna(3).fillna(5), f.fillna(3))),
    "fillna stairs": (2, lambda f, g: (f.fillna(g).where(f.notna()), f)),
    "fillna const": (1, lambda f: (f.fillna(sc.Stairs(initial_value=2, closed=f.closed)), f.fillna(2))),
    "pad ffill": (1, lambda f: (f.fillna("pad"), f.fillna("ffill"))),
    "bfill backfill": (1, lambda f: (f.fillna("bfill"), f.fillna("backfill"))),
    "min max": (2, lambda f, g: (sc.min([f, g]) + sc.max([f, g]), f + g)),
    "sum": (3, lambda f, g, h: (sc.sum([f, g, h]), f + g + h)),
    "max": (2, lambda f, g: (sc.max([f, g]), (f >= g) * f + (f < g) * g)),
    "mean 2": (2, lambda f, g: (sc.mean([f, g]), (f + g) / 2)),
    "median 3": (3, lambda f, g, h: (sc.median([f, g, h]), f + g + h - sc.min([f, g, h]) - sc.max([f, g, h]))),
    "logical_or": (3, lambda f, g, h: (sc.logical_or([f, g, h]), f | g | h)),
    "logical_and": (3, lambda f, g, h: (sc.logical_and([f, g, h]), f & g & h)),
    "copy": (1, lambda f: (f.copy(), f)),
    "clip": (1, lambda f: (f.clip(None, None), f)),
}
LAW_NAMES = list(LAWS)


def room(fs, factors):
    """products of so many of the values, and sums of these, fit a float exactly"""
    vs = {v for f in fs for v in f.vals if v}
    if not vs:
        return True
    den = math.lcm(*(v.denominator for v in vs))
    ns = [abs(int(v * den)) for v in vs]
    return (max(ns) // math.gcd(*ns)) ** factors < 2**49


def laws(ctx, i):
    rng = ctx.rng
    b = Builder(ctx, domains.pick(rng))
    name = LAW_NAMES[i % len(LAW_NAMES)]
    n, fn = LAWS[name]
    fs, xs = operands(ctx, b, n)
    # scalars may stand for step-free members (not first)
    args = [pynum(f.vals[0]) if j and not f.pts and f.vals[0] is not None and rng.random() < 0.2
            and name.split()[0] in ("add", "mul", "distributes") else x
            for j, (f, x) in enumerate(zip(fs, xs))]
    ctx.log("law", name, *fs)
    l, r = ctx.call("law", fn, *args)
    what = f"law '{name}' for {fs}"
    ctx.count("laws")
    if not isinstance(l, sc.Stairs) or not isinstance(r, sc.Stairs):
        return
    exact = name not in ("f / f",) or all(f.exact for f in fs)
    exact = exact and room(fs, 3 if name == "mul associates" else 2 if name.startswith("distributes") else 1)
    if not exact:
        ctx.count("laws_within_rounding")
    if exact:
        equal_both(ctx, l, r, what)
    well_formed(ctx, l, None, b.dom, what + " (left)")
    well_formed(ctx, r, None, b.dom, what + " (right)")
    ctx.note("law", name, [f.key() for f in fs], b.dom.kind)


def program(ctx, i):
    """compose without verifying in between: every intermediate result is minimal"""
    rng = ctx.rng
    b = Builder(ctx, domains.pick(rng))
    fs, xs = operands(ctx, b, 3)
    for step in range(rng.randint(2, 6)):
        o = rng.choice(ops.ALL)
        n = o.arity if o.arity != "n" else rng.randint(1, 3)
        js = [rng.randrange(len(fs)) for _ in range(n)]
        args = [fs[j] for j in js]
        p = o.draw(rng, b.dom, args)
        m = o.model(args, p)
        if not m.exact or any(v is not None and abs(v) > 2**40 for v in m.vals) or len(m.pts) > 60:
            continue
        r = ctx_run(ctx, o, b, [xs[j] for j in js], p)
        what = f"step {step}: {o}{p} of {args}"
        if rng.random() < 0.3:
            judge(ctx, b, r, m, what)
        else:
            well_formed(ctx, r, m, b.dom, what)
        if r.closed != (xs[js[0]].closed if not m.pts else r.closed):
            pass
        fs.append(m.with_closed(r.closed)), xs.append(r)
        ctx.note("prog", o.name, m.key())


def layers(ctx, i):
    """layering that partly or wholly cancels; from_values with redundant rows"""
    rng = ctx.rng
    b = Builder(ctx, domains.pick(rng))
    dom = b.dom
    f = rich(rng, dom, rng.choice(["left", "right"]))
    st = b.operand(f)
    well_formed(ctx, st, f, dom, "operand")
    hist = []
    for _ in range(rng.randint(1, 4)):
        pts = list(f.pts) + [F(0), F(2)]
        if hist and rng.random() < 0.5:
            s, e, v = rng.choice(hist)
            ts = [(s, e, -v)]
        else:
            ts = [(rng.choice(pts + [None]), rng.choice(pts + [None]), F(rng.choice([1, -1, 2])))
                  for _ in range(rng.randint(1, 3))]
        f2 = f.layered(ts)
        b.layer_any(st, ts)
        hist += ts
        f = f2
        judge(ctx, b, st, f, f"after layering {ts}")
    ctx.count("layer_histories")
    ctx.note("layers", f.key(), hist)


def interior_minimal(ctx, r, dom, end, what):
    """percentile / fractile functions carry their end points 0 and 100 (1), which the
    repository's own tests require; everything between is minimal"""
    o = frame(r, dom, ctx.call)
    ctx.count("minimality_checks")
    for p, a, c in zip(o.pts, o.vals, o.vals[1:]):
        if (a == c or (a is None and c is None)) and p != 0 and abs(p - end) > F(1, 10**9):
            raise Mismatch(f"{what} is not minimal: redundant step point {p} in {o}")
    n = ctx.call("number_of_steps", lambda: r.number_of_steps)
    ctx.expect(n == len(o.pts), f"{what}: number_of_steps {n}, but {len(o.pts)} rows in {o}")
    return o


def xtile_ends(ctx, i):
    """the same objects, end points included (see known_findings.json)"""
    rng = ctx.rng
    b = Builder(ctx, domains.pick(rng))
    f = stat_sf(rng, b.dom, closed=rng.choice(["left", "right"]))
    st = b.operand(f)
    n = rng.choice(["percentile", "fractile"])
    end = {"percentile": 100, "fractile": 1}[n]
    r = ctx.call(n, getattr, st, n)
    o = interior_minimal(ctx, r, domains.NumDomain("float", 0, 1, 1), end, f"{n} of {f}")
    ctx.tags.add("xtile-end-points")
    ctx.note("ends", f.key(), n)
    minimal(o, f"end points of {n} of {f}")


def stats(ctx, i):
    """distribution objects and resampled functions are step functions too"""
    rng = ctx.rng
    b = Builder(ctx, domains.pick(rng))
    f = stat_sf(rng, b.dom, closed=rng.choice(["left", "right"]))
    st = b.operand(f)
    num_dom = domains.NumDomain("float", 0, 1, 1)
    for n in rng.sample(["ecdf", "percentile", "fractile"], 2):
        r = ctx.call(n, getattr, st, n)
        if n == "ecdf":
            well_formed(ctx, r, None, num_dom, f"{n} of {f}")
        else:
            interior_minimal(ctx, r, num_dom, {"percentile": 100, "fractile": 1}[n], f"{n} of {f}")
        equal_both(ctx, r, ctx.call(n, getattr, b.operand(f), n), f"{n} of {f}, asked of two equal functions")
    lo, hi = f.pts[0] - 1, f.pts[-1] + 2
    cuts = sorted({lo, hi} | {F(rng.randint(int(lo), int(hi))) for _ in range(rng.randint(1, 4))})
    ii = pd.IntervalIndex.from_breaks(b.dom.array(cuts), closed=rng.choice(["left", "right"]))
    how = rng.choice(["max", "min", "mode", "mean"])
    if how == "mode" and not all(f.restrict(a, z).finite_defined() for a, z in zip(cuts, cuts[1:])):
        how = "max"      # no mode where nothing is defined
    ctx.log("resample", how, ii)
    r = ctx.call("resample", lambda: st.slice(ii).resample(how))
    well_formed(ctx, r, None, b.dom, f"resample({how}) of {f} on {cuts}")
    ctx.note("stats", f.key(), cuts, how)


_V = [None, F(0), F(1)]
SMALL = [SF([], [v]) for v in (*_V, F(2))] + [SF([F(0)], [u, v]) for u in _V for v in _V if u != v] + \
        [SF([F(0), F(1)], [u, v, w]) for u in _V for v in _V for w in (*_V, F(2)) if u != v and v != w]


def exhaustive(ctx, i):
    rng = ctx.rng
    dom = domains.NumDomain("int", 0, 1, 1)
    b = Builder(ctx, dom)
    o = ops.ALL[i % len(ops.ALL)]
    f = SMALL[(i // len(ops.ALL)) % len(SMALL)]
    x = b.operand(f)
    if o.arity == 1:
        for _ in range(6):
            p = o.draw(rng, dom, [f])
            r = ctx_run(ctx, o, b, [x], p)
            well_formed(ctx, r, o.model([f], p), dom, f"{o}{p} of {f}")
    else:
        for g in SMALL:
            y = b.operand(g, depth=1)
            p = o.draw(rng, dom, [f, g])
            m = o.model([f, g], p)
            r = ctx_run(ctx, o, b, [x, y], p)
            well_formed(ctx, r, m, dom, f"{o}{p} of {f}, {g}")
            if m.exact and rng.random() < 0.2:
                equal_both(ctx, r, b.plain(m), f"{o} of {f}, {g}")
    ctx.note("exh", o.name, f.key())


def exh_identical(ctx, i):
    """identical() on every ordered pair of the small set"""
    dom = domains.NumDomain("int", 0, 1, 1)
    b = Builder(ctx, dom)
    f = SMALL[i % len(SMALL)]
    x = b.operand(f)
    for g in SMALL:
        y = b.operand(g, depth=1)
        (equal_both if f.same(g) else differ_both)(ctx, x, y, f"{f} and {g}")
    for c in (*_V, F(2)):
        s = scalar_value(c, ctx.rng)
        (equal_both if f.same(SF.const(c)) else differ_both)(ctx, x, s, f"{f} and {s!r}")
    t = ctx.call("bool", bool, x)
    ctx.expect(t is f.same(SF.const(F(1))), f"bool({f}) is {t}")
    ctx.note("exhid", f.key())


def large(ctx, i):
    rng = ctx.rng
    b = Builder(ctx, domains.pick(rng))
    closed = rng.choice(["left", "right"])
    o = rng.choice(ops.BIN + ops.UNARY)
    fs = [gen.sf(rng, b.dom, gen.PALETTES["bool"], closed, n=gen.big(rng, 100, 200)) for _ in range(o.arity)]
    xs = [b.operand(f, depth=0) for f in fs]
    p = o.draw(rng, b.dom, fs)
    judge(ctx, b, ctx_run(ctx, o, b, xs, p), o.model(fs, p), f"{o}{p}")
    ctx.note("large", o.name, [f.key() for f in fs])


KINDS = {"single": single, "pairs": pairs, "laws": laws, "program": program, "layers": layers, "stats": stats, "ends": xtile_ends,
         "exh": exhaustive, "exhid": exh_identical, "large": large}
REQUIRE = {"minimality_checks": 15000, "identical_checks": 10000, "different_checks": 8000, "laws": 900,
           "layer_histories": 300, "ops:binary": 200, "ops:masking": 150, "ops:agg": 150}


def plan(tier):
    n = len(SMALL) * len(ops.ALL)
    if tier == "quick":
        return [("single", 1400), ("pairs", 700), ("laws", 1200), ("program", 500), ("layers", 400), ("stats", 250), ("ends", 20),
                ("exh", n), ("exhid", len(SMALL) * 2), ("large", 40)]
    return [("single", 40000), ("pairs", 15000), ("laws", 40000), ("program", 20000), ("layers", 8000), ("stats", 5000), ("ends", 20),
            ("exh", n * 4), ("exhid", len(SMALL) * 20), ("large", 800)]
