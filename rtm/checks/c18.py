"""C18 collection aggregations and array operators are pointwise over the members."""
from __future__ import annotations

import functools
import math
import operator
from fractions import Fraction as F

import numpy as np
import pandas as pd

import staircase as sc
from .. import domains, gen, model as M, ops
from ..build import Builder, pynum, scalar_value
from ..ctx import Skip, Violation
from ..model import SF
from ..observe import Mismatch, check_same, declabel, frame, num, near, same_function
from . import c19
from ._pointwise import follow_up

RULE = ("collections of 1..8 members (duplicates, the same object twice, step-free, everywhere or partly undefined, disjoint, "
        "interleaved and coinciding steps, either closed side) of every provenance in 5 domains, in every container type and "
        "through the top-level functions, StairsArray methods, pandas reductions and the Series accessor: each aggregation "
        "against the exact pointwise aggregate, sum against folding +; custom agg functions; every element-wise operator "
        "(magic and named, reflected, Series level) against scalars, step functions and array-likes; bool, negate, sample / "
        "limit tables, cov / corr matrices against the exact and the pairwise answers; an enumerated small set of collections")
AGGS = list(M.AGGS)
NPAGG = {"ptp": (np.ptp, lambda vs: max(vs) - min(vs)), "amax": (np.max, max), "amin": (np.min, min),
         "npsum": (np.sum, lambda vs: sum(vs, F(0))), "npmean": (np.mean, M.AGGS["mean"]), "npmedian": (np.median, M.median),
         "npprod": (np.prod, lambda vs: functools.reduce(operator.mul, vs, F(1))),
         "any>": (lambda a, axis=None: np.where(np.isnan(np.sum(a, axis=axis)), np.nan, np.max(a, axis=axis) > 1),
                  lambda vs: F(max(vs) > 1))}
SHAPES = ["mixed", "mixed", "mixed", "shared", "disjoint", "dups", "const", "undef", "one", "interleaved"]


def members(rng, dom, closed, n=None, pal=None):
    """model members; values of one palette, so that sums are exact"""
    pal = pal or gen.palette(rng)
    shape = rng.choice(SHAPES)
    if n is None and rng.random() < 0.015:
        n = rng.randint(12, 40)         # a crowd
    n = n or (1 if shape == "one" else rng.choice([1, 2, 2, 3, 3, 4, 5, 8]))
    p_nan = rng.choice([0, 0, 0, 0.2, None] if n < 12 else [0, 0, 0.05])
    fs = []
    base = gen.points(rng, rng.randint(1, 5), dom)
    for j in range(n):
        if shape == "shared":
            f = gen.sf(rng, dom, pal, closed, pts=list(base), p_nan=p_nan)
        elif shape == "disjoint":
            f = gen.sf(rng, dom, pal, closed, lo=1, hi=3, p_nan=p_nan)
            if fs and fs[-1].pts and f.pts:
                f = f.shift(fs[-1].pts[-1] - f.pts[0] + rng.choice([0, 1, 3]))
        elif shape == "interleaved":
            f = gen.sf(rng, dom, pal, closed, pts=[p + F(j, dom.den) for p in base[:rng.randint(1, len(base))]], p_nan=p_nan)
        elif shape == "const" and rng.random() < 0.7:
            f = SF.const(rng.choice(pal), rng.choice(["left", "right"]))
        elif shape == "undef" and rng.random() < 0.3:
            f = SF.const(None, rng.choice(["left", "right"]))
        else:
            f = gen.sf(rng, dom, pal, closed, p_nan=p_nan)
        if shape == "dups" and fs and rng.random() < 0.6:
            f = rng.choice(fs)
        if not f.pts and rng.random() < 0.5:
            f = f.with_closed(rng.choice(["left", "right"]))
        fs.append(f)
    return fs


def operands(ctx, b, fs, depth=2):
    out, seen = [], {}
    for f in fs:
        k = (f.key(), f.closed)
        if k in seen and ctx.rng.random() < 0.5:
            out.append(seen[k])         # the very same object
            ctx.count("same_object_members")
            continue
        st = b.operand(f, depth=depth)
        seen[k] = st
        out.append(st)
    return out


# ------------------------------------------------------------------ containers
def array_of(ctx, xs):
    """a StairsArray holding xs, through the extension-array plumbing"""
    rng = ctx.rng
    n = len(xs)
    k = rng.choice(["list", "list", "ndarray", "series", "copy", "slice", "take", "mask", "concat", "astype", "again", "dict"])
    ctx.route("array:" + k)
    A = lambda v: sc.StairsArray(v)
    if k == "list":
        return A(rng.choice([list, tuple])(xs))
    if k == "ndarray":
        return A(ops.contain(_B(ctx), xs, "ndarray")[1])
    if k == "dict":
        return A({f"k{i}": x for i, x in enumerate(xs)})
    if k == "series":
        return A(pd.Series(list(xs), index=domains.any_index(n, rng)))
    if k == "copy":
        return A(list(xs)).copy()
    if k == "again":
        return A(A(list(xs)))
    if k == "slice":
        return A([xs[0], *xs, xs[-1]])[1:n + 1]
    if k == "take":
        order = rng.sample(range(n), n)
        a = A([xs[i] for i in order])
        where = [order.index(i) for i in range(n)]
        return a.take(where) if rng.random() < 0.5 else a[where]
    if k == "mask":
        a = A([xs[0], *xs])
        return a[np.array([False] + [True] * n)]
    if k == "concat":
        j = rng.randint(1, n)
        parts = [pd.Series(list(p), dtype="Stairs") for p in (xs[:j], xs[j:]) if len(p)]
        return pd.concat(parts, ignore_index=True).values
    return pd.Series(list(xs)).astype("Stairs").values


class _B:
    def __init__(self, ctx):
        self.rng = ctx.rng


def collect(ctx, xs, k=None):
    k = k or ctx.rng.choice(ops.CONTAINERS)
    ctx.count("container:" + k)
    if k == "array":
        return k, array_of(ctx, xs)
    return ops.contain(_B(ctx), xs, k)


def series_of(ctx, xs):
    rng = ctx.rng
    idx = rng.choice([None, rng.sample(range(200), len(xs)), [f"m{i}" for i in range(len(xs))], [7] * len(xs)])
    k = rng.random()
    if k < 0.5:
        return pd.Series(list(xs), dtype="Stairs", index=idx)
    if k < 0.8:
        return pd.Series(list(xs), index=idx).astype("Stairs")
    return pd.Series(array_of(ctx, xs), index=idx)


def aggregate(ctx, name, xs):
    rng = ctx.rng
    k = rng.random()
    ctx.count("agg:" + name)
    if k < 0.6:
        kind, c = collect(ctx, xs)
        ctx.log("sc." + name, kind, len(xs))
        return ctx.call("sc." + name, getattr(sc, name), c), "sc." + name
    if k < 0.8:
        a = array_of(ctx, xs)
        ctx.log("StairsArray." + name, len(xs))
        return ctx.call("StairsArray." + name, getattr(a, name)), "StairsArray." + name
    s = series_of(ctx, xs)
    ctx.log("Series " + name, len(xs))
    if name.startswith("logical"):
        return ctx.call("Series.sc." + name, getattr(s.sc, name)), "Series.sc." + name
    if rng.random() < 0.15:
        return ctx.call("Series.agg:" + name, s.agg, name), "Series.agg." + name
    return ctx.call("Series." + name, getattr(s, name)), "Series." + name


def judge(ctx, b, r, m, what, fs):
    extra = tuple(sorted(set().union(*[f.pts for f in fs])))[:40]
    check_same(r, m, b.dom, ctx, what, extra=extra)
    if any(f.pts for f in fs):
        ctx.expect(r.closed == m.closed, f"{what} is {r.closed}-closed, members are {m.closed}-closed")
    ctx.count("aggregates_observed")


def aggs(ctx, i):
    rng, b = ctx.rng, Builder(ctx, domains.pick(ctx.rng))
    closed = rng.choice(["left", "right"])
    fs = members(rng, b.dom, closed)
    xs = operands(ctx, b, fs)
    for name in rng.sample(AGGS, 2):
        m = M.aggregate(fs, M.AGGS[name])
        r, what = aggregate(ctx, name, xs)
        what = f"{what} of {fs}"
        judge(ctx, b, r, m, what, fs)
        if name == "sum" and len(xs) > 1:
            order = rng.sample(range(len(xs)), len(xs))
            fold = ctx.call("fold", functools.reduce, operator.add, [xs[j] for j in order])
            same_function(frame(fold, b.dom, ctx.call), m, "folding +")
            if m.exact:
                ctx.expect(ctx.call("identical", r.identical, fold) is True or not any(f.pts for f in fs),
                           f"{what} is not identical to folding +")
                ctx.count("folds")
        if rng.random() < 0.35:
            follow_up(ctx, b, r, m.with_closed(r.closed))
        ctx.note(name, [f.key() for f in fs], b.dom.kind, closed)
    if rng.random() < 0.2:
        # the members are what they were
        j = rng.randrange(len(xs))
        check_same(xs[j], fs[j], b.dom, ctx, "member after aggregation")


def custom(ctx, i):
    rng, b = ctx.rng, Builder(ctx, domains.pick(ctx.rng))
    fs = members(rng, b.dom, rng.choice(["left", "right"]), pal=gen.palette(rng, ["small", "bool", "two", "pos", "frac"]))
    xs = operands(ctx, b, fs)
    n = rng.choice(list(NPAGG))
    fn, mf = NPAGG[n]
    m = M.aggregate(fs, mf)
    if n == "npprod" and not m.exact:
        return
    if rng.random() < 0.5:
        k, c = collect(ctx, xs)
        ctx.log("sc.agg", n, k)
        r = ctx.call("sc.agg", sc.agg, c, fn)
    else:
        ctx.log("StairsArray.agg", n)
        r = ctx.call("StairsArray.agg", array_of(ctx, xs).agg, fn)
    judge(ctx, b, r, m, f"agg({n}) of {fs}", fs)
    ctx.note("custom", n, [f.key() for f in fs], b.dom.kind)


# ------------------------------------------------------------- opposite zones
def zones(ctx, i):
    """members whose labels carry different zones: the same instants"""
    rng = ctx.rng
    d = domains.tz_domain(rng)
    b = Builder(ctx, d)
    closed = rng.choice(["left", "right"])
    fs = members(rng, d, closed)
    fs = [f for f in fs if f.pts][:4] or [SF([F(1), F(2)], [F(0), F(1), None], closed)]
    xs = []
    for f in fs:
        z = rng.choice(["UTC", "Asia/Tokyo", "America/New_York", d.tz])
        v = pd.Series([float("nan") if v is None else float(v) for v in f.vals[1:]], index=d.array(f.pts).tz_convert(z))
        xs.append(sc.Stairs.from_values(float("nan") if f.vals[0] is None else float(f.vals[0]), v, closed=closed))
    name = rng.choice(AGGS)
    m = M.aggregate(fs, M.AGGS[name])
    r, what = aggregate(ctx, name, xs)
    t = [(pd.Timestamp(s), v) for s, v in zip(r.step_values.index, r.step_values)] if ctx.call("n", lambda: r.number_of_steps) else []
    got = [(F(int(s.as_unit("ns").value) - d.origin_ns, d.unit_ns), v) for s, v in t]
    from ..observe import Obs
    o = Obs([p for p, _ in got], [num(r.initial_value)] + [num(v) for _, v in got])
    same_function(o, m, f"{what} of members in different zones {fs}")
    ctx.count("zones_observed")
    ctx.note("zones", name, [f.key() for f in fs])


def mixed(ctx, i):
    """integer and float labels in one collection"""
    rng = ctx.rng
    a, c = Builder(ctx, domains.NumDomain("int", 0, 1, 1)), Builder(ctx, domains.NumDomain("float", 0, 1, 2))
    closed = rng.choice(["left", "right"])
    pal = gen.palette(rng)
    fs, xs = [], []
    for j in range(rng.randint(2, 4)):
        bb = rng.choice([a, c])
        f = gen.sf(rng, bb.dom, pal, closed)
        fs.append(f)
        xs.append(bb.operand(f))
    name = rng.choice(AGGS)
    m = M.aggregate(fs, M.AGGS[name])
    r, what = aggregate(ctx, name, xs)
    judge(ctx, c, r, m, f"{what} (int and float labels) of {fs}", fs)
    ctx.note("mixed", name, [f.key() for f in fs])


# --------------------------------------------------------------- element-wise
NAMED = {"ge": operator.ge, "gt": operator.gt, "le": operator.le, "lt": operator.lt, "eq": operator.eq, "ne": operator.ne,
         "add": operator.add, "subtract": operator.sub, "multiply": operator.mul, "divide": operator.truediv}
RNAMED = {"radd": "add", "rsubtract": "subtract", "rmultiply": "multiply", "rdivide": "divide"}
MIRROR = {"ge": "le", "gt": "lt", "le": "ge", "lt": "gt", "eq": "eq", "ne": "ne"}
SCAL = [F(0), F(0), F(1), F(-1), F(2), F(1, 2), F(-5, 4), F(100)]


def elements(ctx, r, n, what, index=None):
    if isinstance(r, pd.Series):
        if index is not None and list(r.index) != list(index):
            raise Mismatch(f"{what} is indexed by {list(r.index)}, expected {list(index)}")
    elif not isinstance(r, (sc.StairsArray, np.ndarray)):
        raise Mismatch(f"{what} is a {type(r).__name__}")
    if len(r) != n:
        raise Mismatch(f"{what} has {len(r)} elements for {n} members")
    out = list(r)
    return out


def elementwise(ctx, i):
    rng, b = ctx.rng, Builder(ctx, domains.pick(ctx.rng))
    dom = b.dom
    closed = rng.choice(["left", "right"])
    pal = gen.palette(rng)
    fs = members(rng, dom, closed, n=rng.choice([1, 2, 3, 3, 4]), pal=pal)
    fs = [f if f.pts else f.with_closed(closed) for f in fs]
    xs = operands(ctx, b, fs)
    for _ in range(2):
        against = rng.choice(["scalar", "stairs", "array", "array", "listlike"])
        refl = rng.random() < 0.35
        name = rng.choice(list(RNAMED)) if refl else rng.choice(list(NAMED))
        op = RNAMED.get(name, name)
        series = rng.random() < 0.3
        left = series_of(ctx, xs) if series else array_of(ctx, xs)
        if against == "scalar":
            c = rng.choice(SCAL + [v for v in fs[0].vals if v is not None][:3])
            other = scalar_value(c, rng, small=False)
            gs = [SF.const(c, closed)] * len(fs)
        elif against == "stairs":
            g = gen.sf(rng, dom, pal, closed) if rng.random() < 0.8 else rng.choice(fs)
            other = b.operand(g) if rng.random() < 0.8 or g not in fs else xs[fs.index(g)]
            gs = [g] * len(fs)
        else:
            gs = [gen.sf(rng, dom, pal, closed) for _ in fs]
            if rng.random() < 0.2:
                gs[rng.randrange(len(gs))] = fs[0]
            ys = operands(ctx, b, gs, depth=1)
            if against == "array":
                other = array_of(ctx, ys)
            else:
                other = ops.contain(_B(ctx), ys, rng.choice(["list", "tuple", "ndarray", "series", "series_obj"]))[1]
                if rng.random() < 0.3 and isinstance(other, list):
                    j = rng.randrange(len(other))
                    c = rng.choice(SCAL)
                    other[j], gs[j] = scalar_value(c, rng, small=False), SF.const(c, closed)
        ms = [M.binary(op, *((g, f) if refl else (f, g))) for f, g in zip(fs, gs)]
        index = left.index if series else None
        if series:
            if isinstance(other, pd.Series):
                other = pd.Series(list(other), dtype="Stairs", index=left.index)
            if isinstance(other, tuple) or isinstance(other, pd.Series) and left.index.has_duplicates:
                continue
        numpy_scalar = isinstance(other, np.generic)
        how = rng.choice(["magic", "named"]) if not series else "magic"
        what = f"{'Series' if series else 'StairsArray'} {how} {name} {against}"
        ctx.log(what)
        ctx.count("elementwise:" + against)
        ctx.count("operator:" + name)
        if how == "named":
            r = ctx.call("array." + name, getattr(left, name), other)
        elif refl:
            if against == "scalar" and not numpy_scalar or against == "array" and not series or \
                    against == "stairs" and rng.random() < 0.6:
                ctx.count("on_the_left:" + against)
                r = ctx.call("array " + name, NAMED[op], other, left)
            else:
                magic = {"rsubtract": "__rsub__", "rmultiply": "__rmul__", "rdivide": "__rtruediv__", "radd": "__radd__"}[name]
                r = ctx.call("array " + magic, getattr(left, magic), other)
        elif against == "stairs" and op in MIRROR and rng.random() < 0.5:
            ctx.count("on_the_left:compared")
            r = ctx.call("array mirrored " + name, NAMED[MIRROR[op]], other, left)
        else:
            r = ctx.call("array " + name, NAMED[op], left, other)
        if r is NotImplemented:
            raise Mismatch(f"{what} is NotImplemented")
        if not series and not numpy_scalar and not isinstance(other, pd.Series) and not isinstance(r, sc.StairsArray):
            raise Mismatch(f"{what} is a {type(r).__name__}, not a StairsArray")
        els = elements(ctx, r, len(fs), what, index)
        for j, (e, m) in enumerate(zip(els, ms)):
            check_same(e, m, dom, ctx, f"{what}[{j}] of {fs[j]}, {gs[j]}")
            ctx.count("elements_observed")
        # the operators of Stairs themselves, pair by pair
        if rng.random() < 0.3 and against in ("stairs", "array"):
            j = rng.randrange(len(fs))
            y = other if against == "stairs" else list(other)[j]
            p = ctx.call("pairwise", lambda: NAMED[op](y, xs[j]) if refl else NAMED[op](xs[j], y))
            if ms[j].exact and not ms[j].has_undefined():
                ctx.expect(ctx.call("identical", els[j].identical, p), f"{what}[{j}] differs from the Stairs operator")
        if rng.random() < 0.2:
            j = rng.randrange(len(fs))
            follow_up(ctx, b, els[j], ms[j].with_closed(els[j].closed))
        ctx.note(name, against, [f.key() for f in fs], [g.key() for g in gs], dom.kind)


def unary(ctx, i):
    rng, b = ctx.rng, Builder(ctx, domains.pick(ctx.rng))
    dom = b.dom
    closed = rng.choice(["left", "right"])
    pal = gen.palette(rng, ["small", "bool", "bool", "pos", "frac"])
    fs = members(rng, dom, closed, pal=pal)
    for j, f in enumerate(fs):
        if rng.random() < 0.5:
            # nowhere zero over its finite pieces, or nearly so
            fs[j] = SF(f.pts, [F(1) if v is None or v == 0 else v for v in f.vals], f.closed)
    xs = operands(ctx, b, fs)
    a = array_of(ctx, xs)
    k = rng.choice(["bool", "bool", "negate", "neg", "series-neg"])
    ctx.log("array", k)
    ctx.count("unary:" + k)
    if k == "bool":
        r = ctx.call("array.bool", a.bool)
        if len(r) != len(fs):
            raise Mismatch(f"bool() has {len(r)} entries for {len(fs)} members")
        for j, (o, x, f) in enumerate(zip(r, xs, fs)):
            e = ctx.call("bool", bool, x)
            if bool(o) is not e or not isinstance(o, (bool, np.bool_)):
                raise Mismatch(f"array bool()[{j}] is {o!r} but bool of the member {f} is {e}")
    else:
        left = series_of(ctx, xs) if k == "series-neg" else a
        r = ctx.call("array.negate", a.negate if k == "negate" else lambda: -left)
        for j, (e, f) in enumerate(zip(elements(ctx, r, len(fs), k, left.index if k == "series-neg" else None), fs)):
            check_same(e, M.negate(f), dom, ctx, f"negate[{j}] of {f}")
    ctx.note(k, [f.key() for f in fs], dom.kind)


# --------------------------------------------------------------------- tables
def tables(ctx, i):
    rng, b = ctx.rng, Builder(ctx, domains.pick(ctx.rng))
    dom = b.dom
    fs = members(rng, dom, rng.choice(["left", "right"]))
    xs = operands(ctx, b, fs)
    pts = sorted(set().union(*[f.pts for f in fs])) or [F(0), F(1)]
    pool = pts + [p + F(1, dom.den) for p in pts] + [pts[0] - 1, pts[-1] + 1]
    for _ in range(2):
        qs = [rng.choice(pool) for _ in range(rng.choice([1, 2, 3, 6]))]
        k = rng.random()
        if k < 0.6:
            qs = sorted(set(qs))
        elif k < 0.8:
            qs = list(dict.fromkeys(qs))
        if rng.random() < 0.2:
            qs = qs[:1]
            q = dom.enc(qs[0])
        else:
            arr = dom.array(qs)
            form = rng.choice(["index", "list", "ndarray", "series", "tuple"])
            q = {"index": arr, "list": list(arr), "tuple": tuple(arr), "series": pd.Series(arr),
                 "ndarray": arr.to_numpy() if getattr(dom, "tz", None) is None else arr}[form]
        what = rng.choice(["sample", "limit", "limit"])
        side = None if what == "sample" else rng.choice(["left", "right", "right"])
        kw = {} if what == "sample" or side == "right" and rng.random() < 0.4 else {"side": side}
        route = rng.choice(["top", "array", "accessor"])
        index = None
        if route == "top":
            kind, c = collect(ctx, xs)
            index = list(c.index) if isinstance(c, pd.Series) else list(c) if kind == "dict" else list(range(len(xs)))
            ctx.log("sc." + what, kind, q, **kw)
            r = ctx.call("sc." + what, getattr(sc, what), c, q, **kw)
        elif route == "array":
            index = list(range(len(xs)))
            ctx.log("StairsArray." + what, q, **kw)
            r = ctx.call("StairsArray." + what, getattr(array_of(ctx, xs), what), q, **kw)
        else:
            s = series_of(ctx, xs)
            index = list(s.index)
            ctx.log("Series.sc." + what, q, **kw)
            r = ctx.call("Series.sc." + what, getattr(s.sc, what), q, **kw)
        name = f"{route} {what} table"
        if not isinstance(r, pd.DataFrame):
            raise Mismatch(f"{name} is a {type(r).__name__}")
        if r.shape != (len(fs), len(qs)):
            raise Mismatch(f"{name} has shape {r.shape} for {len(fs)} members and {len(qs)} points")
        if list(r.index) != index:
            raise Mismatch(f"{name} rows are labelled {list(r.index)}, expected {index}")
        cols = [declabel(c, dom) for c in r.columns]
        if cols != qs:
            raise Mismatch(f"{name} columns are {cols}, expected {qs}")
        got = r.to_numpy()
        for j, f in enumerate(fs):
            for n, x in enumerate(qs):
                e = f.at(x) if what == "sample" else f.lim(x, side)
                o = num(got[j][n], name)
                if not near(o, e, f.exact):
                    raise Mismatch(f"{name} ({side}) of member {j} at {x} is {o}, expected {e}; member {f}")
                ctx.count("table_entries")
        j = rng.randrange(len(fs))
        one = ctx.call("member", getattr(xs[j], what), q, **({"side": side} if side else {}))
        for o, p in zip(np.atleast_1d(one), got[j]):
            ctx.expect(num(o) == num(p), f"{name} of member {j} has {p}, the member itself says {o}")
        ctx.note(what, side, [f.key() for f in fs], qs, dom.kind)


# ------------------------------------------------------------------- matrices
def matrices(ctx, i):
    rng, b = ctx.rng, Builder(ctx, domains.pick(ctx.rng))
    dom = b.dom
    closed = rng.choice(["left", "right"])
    fine = dom.is_time and dom.unit_ns < 10 ** 6
    pal = gen.palette(rng, ["small", "pos", "bool", "two"] + ([] if fine else ["frac"]))
    for _ in range(20):
        fs = [f if f.pts else f.with_closed(closed) for f in members(rng, dom, closed, n=rng.choice([1, 2, 2, 3, 4]), pal=pal)]
        pts = sorted(set().union(*[f.pts for f in fs])) or [F(0), F(3)]
        lo, hi = rng.choice(pts) + F(rng.choice([-1, 0, 0, 1])), rng.choice(pts) + F(rng.choice([0, 0, 1, 2]))
        if rng.random() < 0.15:
            lo = hi = None
        if lo is not None and lo >= hi:
            continue
        moms = [[c19.moments(f, g, lo, hi) for g in fs] for f in fs]
        if all(m for row in moms for m in row):
            break
    else:
        ctx.count("no_common_region")
        return
    xs = operands(ctx, b, fs)
    w = {} if lo is None and rng.random() < 0.5 else {"where": (c19.lab(rng, dom, lo, -1), c19.lab(rng, dom, hi, 1))}
    what = rng.choice(["cov", "corr"])
    route = rng.choice(["top", "array", "accessor"])
    index = None
    ctx.log(route, what, **w)
    ctx.count("matrix:" + what)
    if route == "top":
        kind, c = collect(ctx, xs)
        index = list(c.index) if isinstance(c, pd.Series) else list(c) if kind == "dict" else list(range(len(xs)))
        r = ctx.call("sc." + what, getattr(sc, what), c, **w)
    elif route == "array":
        r = ctx.call("StairsArray." + what, getattr(array_of(ctx, xs), what), **w)
    else:
        s = series_of(ctx, xs)
        index = list(s.index)
        r = ctx.call("Series.sc." + what, getattr(s.sc, what), **w)
    name = f"{route} {what} matrix over {lo}..{hi} of {fs}"
    if index is not None:
        if not isinstance(r, pd.DataFrame):
            raise Mismatch(f"{name} is a {type(r).__name__}")
        if list(r.index) != index or list(r.columns) != index:
            raise Mismatch(f"{name} is labelled {list(r.index)} x {list(r.columns)}, expected {index}")
        r = r.to_numpy()
    if r.shape != (len(fs), len(fs)):
        raise Mismatch(f"{name} has shape {r.shape}")
    for j in range(len(fs)):
        for k in range(len(fs)):
            o = r[j][k]
            if what == "cov":
                c19.check_cov(ctx, dom, o, moms[j][k], f"{name} [{j}, {k}]")
            else:
                c19.check_corr(ctx, dom, o, moms[j][k], f"{name} [{j}, {k}]")
            if not (o == r[k][j] or o != o and r[k][j] != r[k][j]):
                raise Mismatch(f"{name} is not symmetric: {r.tolist()}")
            ctx.count("matrix_entries")
    j, k = rng.randrange(len(fs)), rng.randrange(len(fs))
    p = ctx.call("pairwise " + what, getattr(xs[j], what), xs[k], **w)
    if not (abs(p - r[j][k]) <= 1e-7 * max(1, abs(p)) or p != p and r[j][k] != r[j][k]) and not dom.is_time:
        raise Mismatch(f"{name} [{j}, {k}] is {r[j][k]}, pairwise {p}")
    ctx.note(what, [f.key() for f in fs], lo, hi, dom.kind)


# ----------------------------------------------------------------- enumerated
_V = [None, F(0), F(2)]
SMALL = [SF([], [v]) for v in (None, F(0), F(1))] + [SF([F(p)], [u, v]) for p in (0, 1) for u in _V for v in _V if u != v] + \
        [SF([F(0), F(1)], [u, v, w]) for u in (None, F(1)) for v in (F(0), F(3)) for w in (F(0), F(-1), None) if u != v and v != w]


def exhaustive(ctx, i):
    rng = ctx.rng
    n = len(SMALL)
    name = AGGS[(i // n) % len(AGGS)]
    closed = ["left", "right"][(i // (n * len(AGGS))) % 2]
    dom = domains.NumDomain("int", 0, 1, 1) if rng.random() < 0.6 else domains.naive_domain(rng)
    b = Builder(ctx, dom)
    f = SMALL[i % n].with_closed(closed)
    x = b.operand(f)
    if name == AGGS[0]:
        r, what = aggregate(ctx, name, [x])
        judge(ctx, b, r, M.aggregate([f], M.AGGS[name]), what, [f])
    ys = [(g.with_closed(closed), b.operand(g.with_closed(closed), depth=0)) for g in SMALL]
    for g, y in ys:
        fs, xs = [f, g], [x, y]
        if rng.random() < 0.4:
            h, z = rng.choice(ys)
            fs.append(h)
            xs.append(z)
        m = M.aggregate(fs, M.AGGS[name])
        k, c = collect(ctx, xs)
        r = ctx.call("sc." + name, getattr(sc, name), c)
        same_function(frame(r, dom, ctx.call), m, f"sc.{name} of {fs}")
        ctx.count("aggregates_observed")
    ctx.note("exh", name, f.key(), closed)


def large(ctx, i):
    rng, b = ctx.rng, Builder(ctx, domains.pick(ctx.rng))
    closed = rng.choice(["left", "right"])
    pal = gen.palette(rng, ["small", "bool", "pos"])
    n = rng.choice([20, 60])
    fs = [gen.sf(rng, b.dom, pal, closed, n=rng.choice([0, 2, 10, 30]), p_nan=rng.choice([0, 0, 0, 0.01])) for _ in range(n)]
    xs = [b.operand(f, depth=0) for f in fs]
    name = AGGS[i % len(AGGS)]
    r, what = aggregate(ctx, name, xs)
    judge(ctx, b, r, M.aggregate(fs, M.AGGS[name]), f"{what} of {n} members", fs)
    ctx.note("large", name, [f.key() for f in fs])


KINDS = {"aggs": aggs, "custom": custom, "zones": zones, "mixed": mixed, "elementwise": elementwise, "unary": unary,
         "tables": tables, "matrices": matrices, "exh": exhaustive, "large": large}
REQUIRE = {"aggregates_observed": 3000, "elements_observed": 1500, "table_entries": 4000, "matrix_entries": 800, "folds": 150,
           "same_object_members": 50, "zones_observed": 60,
           **{"agg:" + a: 250 for a in AGGS}, **{"container:" + c: 150 for c in ops.CONTAINERS},
           **{"operator:" + o: 30 for o in [*NAMED, *RNAMED]}}


def plan(tier):
    e = len(SMALL) * len(AGGS) * 2
    if tier == "quick":
        return [("aggs", 1500), ("custom", 250), ("zones", 100), ("mixed", 200), ("elementwise", 800), ("unary", 250),
                ("tables", 500), ("matrices", 300), ("exh", e), ("large", 28)]
    return [("aggs", 40000), ("custom", 6000), ("zones", 2000), ("mixed", 5000), ("elementwise", 20000), ("unary", 5000),
            ("tables", 12000), ("matrices", 8000), ("exh", e * 3), ("large", 420)]
