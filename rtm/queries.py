"""Catalogue of public queries (everything that does not return a step function on the
same domain), each split into abstract parameters and a run that maps the answer back
to the abstract line.  Two answers to one query can then be compared although they
were given by differently built functions, or in different domains.

Canonical answers are trees of
    ("num", float|None)  ("pt", Fraction)  ("len", Fraction|None)  ("str", s)
    ("fn", points, values, closed)  ("list", [...])
"""
from __future__ import annotations

import copy
import math
from fractions import Fraction as F

import numpy as np
import pandas as pd

import staircase as sc
from . import domains, gen, model as M
from .build import pynum
from .domains import LabelError
from .model import SF
from .observe import Mismatch, declabel, frame, num
from .checks._stats import bin_amount, dyadic, fits, window_with_finite

UNIT = domains.NumDomain("float", 0, 1, 1)


# ------------------------------------------------------------------- canonical
def cnum(v):
    if v is pd.NaT:
        return ("num", None)
    return ("num", num(v))


def cnums(vs):
    return ("list", [cnum(v) for v in vs])


def cpt(dom, label):
    return ("pt", declabel(label, dom))


def clen(dom, v):
    if v is None or v is pd.NaT or (isinstance(v, (float, np.floating)) and math.isnan(v)):
        return ("len", None)
    try:
        return ("len", dom.dec_len(v))
    except (LabelError, TypeError, ValueError) as e:
        raise Mismatch(f"length {v!r}: {e}")


def cfn(b, st, dom=None):
    if not isinstance(st, sc.Stairs):
        raise Mismatch(f"a {type(st).__name__} instead of a step function")
    o = frame(copy.deepcopy(st), dom or b.dom, b.ctx.call)
    return ("fn", list(o.pts), list(o.vals), st.closed)


def cseries(s, key, val):
    if not isinstance(s, pd.Series):
        raise Mismatch(f"a {type(s).__name__} instead of a Series")
    return ("list", [("list", [key(k), val(v)]) for k, v in zip(s.index, s)])


def civ(dom, i):
    return ("list", [cpt(dom, i.left), cpt(dom, i.right), ("str", i.closed)])


def same(a, b, tol, ltol, path="answer"):
    """None, or where two canonical answers differ"""
    if a[0] != b[0]:
        return f"{path}: {a} versus {b}"
    if a[0] == "list":
        if len(a[1]) != len(b[1]):
            return f"{path}: {len(a[1])} versus {len(b[1])} entries: {show(a)} versus {show(b)}"
        for j, (x, y) in enumerate(zip(a[1], b[1])):
            r = same(x, y, tol, ltol, f"{path}[{j}]")
            if r:
                return r
        return None
    if a[0] == "num":
        return None if near(a[1], b[1], tol) else f"{path}: {a[1]} versus {b[1]}"
    if a[0] == "len":
        x, y = a[1], b[1]
        if x is None or y is None:
            return None if x is y else f"{path}: {x} versus {y}"
        return None if abs(x - y) <= ltol + 1e-9 * max(1.0, abs(float(x))) else f"{path}: {float(x)} versus {float(y)} units"
    if a[0] == "fn":
        if a[1] != b[1]:
            return f"{path}: steps at {a[1]} versus {b[1]}"
        for x, y in zip(a[2], b[2]):
            if not near(x, y, tol):
                return f"{path}: {a[2]} versus {b[2]}"
        return None if a[3] == b[3] else f"{path}: {a[3]}- versus {b[3]}-closed"
    return None if a[1] == b[1] else f"{path}: {a[1]} versus {b[1]}"


def near(x, y, tol):
    if x is None or y is None:
        return x is y
    if math.isinf(x) or math.isinf(y):
        return x == y
    return abs(x - y) <= tol * max(1.0, abs(x), abs(y))


def show(a):
    if a[0] == "list":
        return "[" + ", ".join(show(x) for x in a[1]) + "]"
    return str(a[1:] if len(a) > 2 else a[1])


# --------------------------------------------------------------------- helpers
class Q:
    def __init__(self, name, need, draw, run):
        self.name, self.need, self.draw, self.run = name, need, draw, run


QUERIES: dict[str, Q] = {}
ANY = lambda f: True
FIN = lambda f: bool(f.finite_defined())


def query(name, need=ANY, draw=lambda rng, dom, f: ()):
    def deco(run):
        QUERIES[name] = Q(name, need, draw, run)
        return run
    return deco


def well_posed(f, q):
    """the q-quantile is not decided by rounding"""
    return dyadic(f) or not any(abs(s - q) < F(1, 10**9) for _, s in f.cum()[:-1])


def median_ok(f):
    return f.finite_defined() and well_posed(f, F(1, 2))


def mode_ok(f):
    if not f.finite_defined():
        return False
    vs = sorted(f.value_sums().values())
    return len(vs) == 1 or vs[-1] != vs[-2]


def points(rng, dom, f):
    pts = list(f.pts) or [F(1), F(3)]
    xs = pts[:12] + [pts[0] - 1, pts[-1] + 1] + [(a + c) / 2 for a, c in zip(pts, pts[1:])][:6]
    xs = [x for x in xs if (x * dom.den).denominator == 1]
    xs = rng.sample(xs, min(len(xs), 7))
    return tuple(sorted(xs) if rng.random() < 0.5 else xs)


def window(rng, dom, f):
    """a bounded, half-bounded or unbounded window in which f has a finite defined piece"""
    if not f.finite_defined():
        return None
    lo, hi, g = window_with_finite(rng, f, dom)
    if not fits(g, dom):
        return None
    return lo, hi


def bounded(rng, dom, f):
    pts = list(f.pts) or [F(0), F(3)]
    for _ in range(20):
        lo = rng.choice(pts) + rng.choice([-1, 0, 0, -2])
        hi = rng.choice(pts) + rng.choice([1, 0, 0, 2])
        if lo < hi:
            return lo, hi
    return pts[0] - 1, pts[-1] + 1


def wlab(b, p):
    lo, hi = p
    rng = b.rng
    a = b.dom.scalar(lo, rng) if lo is not None else rng.choice([None, -sc.inf])
    z = b.dom.scalar(hi, rng) if hi is not None else rng.choice([None, sc.inf])
    return rng.choice([(a, z), [a, z]])


def vector(b, xs):
    rng = b.rng
    k = rng.choice(["index", "list", "ndarray", "series", "tuple"])
    if k in ("list", "tuple"):
        labels = [b.dom.scalar(x, rng) for x in xs]
        return labels if k == "list" else tuple(labels)
    a = b.dom.array(xs)
    if rng.random() < 0.1:
        a = domains.narrow(a, rng)
    if k == "series":
        return pd.Series(a)
    if k == "ndarray" and getattr(b.dom, "tz", None) is None:
        return a.to_numpy()
    return a


# -------------------------------------------------------------------- sampling
@query("sample", ANY, lambda rng, dom, f: (points(rng, dom, f),))
def _sample(b, x, p):
    k = b.rng.random()
    v = vector(b, p[0])
    if k < 0.4:
        return cnums(b.ctx.call("sample", x, v))
    if k < 0.7:
        return cnums(b.ctx.call("sample", x.sample, v))
    if k < 0.85:
        s = b.ctx.call("sample", x.sample, v, include_index=True)
        return cnums(s)
    return cnums([b.ctx.call("sample", x, b.dom.scalar(t, b.rng)) for t in p[0]])


@query("limit", ANY, lambda rng, dom, f: (points(rng, dom, f), rng.choice(["left", "right"])))
def _limit(b, x, p):
    if b.rng.random() < 0.7:
        return cnums(b.ctx.call("limit", x.limit, vector(b, p[0]), p[1]))
    return cnums([b.ctx.call("limit", x.limit, b.dom.scalar(t, b.rng), side=p[1]) for t in p[0]])


@query("indexed", ANY, lambda rng, dom, f: (points(rng, dom, f), rng.choice(["left", "right"])))
def _indexed(b, x, p):
    s = b.ctx.call("limit", x.limit, b.dom.array(p[0]), p[1], include_index=True)
    return cseries(s, lambda k: cpt(b.dom, k), cnum)


# ----------------------------------------------------------------------- views
@query("number_of_steps")
def _nsteps(b, x, p):
    return ("str", b.ctx.call("number_of_steps", lambda: int(x.number_of_steps)))


@query("step_values", lambda f: f.pts)
def _svalues(b, x, p):
    return cseries(b.ctx.call("step_values", lambda: x.step_values), lambda k: cpt(b.dom, k), cnum)


@query("step_changes", lambda f: f.pts)
def _schanges(b, x, p):
    return cseries(b.ctx.call("step_changes", lambda: x.step_changes), lambda k: cpt(b.dom, k), cnum)


@query("step_points", lambda f: f.pts)
def _spoints(b, x, p):
    return ("list", [cpt(b.dom, l) for l in b.ctx.call("step_points", lambda: list(x.step_points))])


@query("frame")
def _frame(b, x, p):
    return cfn(b, x)


@query("initial_value")
def _initial(b, x, p):
    return ("list", [cnum(x.initial_value), ("str", x.closed), ("str", bool(b.ctx.call("bool", bool, x)))])


# ------------------------------------------------------------------ statistics
for _n in ("mean", "var", "std", "min", "max"):
    def _run(b, x, p, n=_n):
        return cnum(b.ctx.call(n, getattr(x, n)))
    query(_n, FIN)(_run)


@query("integral", FIN)
def _integral(b, x, p):
    return clen(b.dom, b.ctx.call("integral", x.integral))


@query("median", median_ok)
def _median(b, x, p):
    return cnum(b.ctx.call("median", x.median))


@query("mode", mode_ok)
def _mode(b, x, p):
    return cnum(b.ctx.call("mode", x.mode))


def _draw_agg(rng, dom, f):
    w = window(rng, dom, f)
    if w is None:
        return None
    g = f.restrict(*w)
    names = ["mean", "integral", "var", "std", "min", "max"]
    if median_ok(g):
        names.append("median")
    if mode_ok(g):
        names.append("mode")
    return w, tuple(rng.sample(names, rng.randint(1, 4)))


@query("agg", FIN, _draw_agg)
def _agg(b, x, p):
    w, names = p
    arg = names[0] if len(names) == 1 and b.rng.random() < 0.5 else list(names)
    r = b.ctx.call("agg", x.agg, arg, where=wlab(b, w))
    vals = [r] if isinstance(arg, str) else [r[n] for n in names]
    return ("list", [clen(b.dom, v) if n == "integral" else cnum(v) for n, v in zip(names, vals)])


CLOSED = ["left", "right", "both", "neither"]


def _draw_range(rng, dom, f):
    w = bounded(rng, dom, f) if rng.random() < 0.7 else (None, None)
    return w, rng.choice(CLOSED), rng.choice(["min", "max", "values_in_range"])


@query("range", ANY, _draw_range)
def _range(b, x, p):
    w, closed, n = p
    if n == "values_in_range":
        r = b.ctx.call(n, x.values_in_range, where=wlab(b, w), closed=closed)
    else:
        r = b.ctx.call("agg:" + n, x.agg, n, where=wlab(b, w), closed=closed)
    return ("list", sorted((cnum(v) for v in r), key=lambda t: (t[1] is None, t[1] or 0.0))) if n == "values_in_range" else cnum(r)


@query("value_sums", FIN, lambda rng, dom, f: (rng.random() < 0.7,))
def _vs(b, x, p):
    s = b.ctx.call("value_sums", x.value_sums, group=p[0])
    return cseries(s, cnum, lambda v: clen(b.dom, v))


def _describe_ok(f):
    return f.finite_defined() and all(well_posed(f, F(k, 4)) for k in (1, 2, 3))


@query("describe", _describe_ok)
def _describe(b, x, p):
    return cnums(b.ctx.call("describe", x.describe))


def _draw_hist(rng, dom, f):
    vs = list(f.value_sums())
    edges = sorted({vs[0] - rng.choice([0, 1]), vs[-1] + rng.choice([1, F(1, 2)])} | set(rng.sample(vs, rng.randint(1, len(vs)))))
    closed, stat = rng.choice(["left", "right"]), rng.choice(["sum", "frequency", "density", "probability"])
    if not any(bin_amount(f, lo, hi, closed) for lo, hi in zip(edges, edges[1:])):
        return None
    return tuple(edges), closed, stat


@query("hist", FIN, _draw_hist)
def _hist(b, x, p):
    edges, closed, stat = p
    s = b.ctx.call("hist", x.hist, bins=[pynum(e) for e in edges], closed=closed, stat=stat)
    val = (lambda v: clen(b.dom, v)) if stat in ("sum", "frequency") else cnum
    return cseries(s, lambda i: ("str", (float(i.left), float(i.right), i.closed)), val)


# ---------------------------------------------------------------- distribution
def _draw_ecdf(rng, dom, f):
    vs = list(f.value_sums())
    return (tuple(rng.sample(vs + [vs[0] - 1, vs[-1] + 1, vs[0] + F(1, 2)], min(len(vs) + 3, 5))),)


@query("ecdf", FIN, _draw_ecdf)
def _ecdf(b, x, p):
    ys = [pynum(y) for y in p[0]]
    return cnums(b.ctx.call("ecdf", x.ecdf, ys))


@query("ecdf_fn", FIN)
def _ecdf_fn(b, x, p):
    return cfn(b, b.ctx.call("ecdf", lambda: x.ecdf), UNIT)


def _draw_q(rng, dom, f):
    qs = [F(k, 100) for k in (0, 100, 50, 25, 75, 10, 90)] + [F(rng.randint(1, 999), 1000) for _ in range(3)]
    if dyadic(f):
        qs += [s for _, s in f.cum()]
    return tuple(q for q in rng.sample(qs, 5) if well_posed(f, q))


@query("percentile", FIN, lambda rng, dom, f: (_draw_q(rng, dom, f),))
def _percentile(b, x, p):
    if not p[0]:
        return ("list", [])
    ps = [float(q * 100) for q in p[0]]
    return cnums(b.ctx.call("percentile", x.percentile, ps))


@query("fractile", FIN, lambda rng, dom, f: (_draw_q(rng, dom, f),))
def _fractile(b, x, p):
    if not p[0]:
        return ("list", [])
    return cnums([b.ctx.call("fractile", x.fractile, float(q)) for q in p[0]])


def _draw_quantiles(rng, dom, f):
    n = rng.choice([2, 3, 4, 5, 10])
    return (n,) if all(well_posed(f, F(i, n)) and (n & (n - 1) == 0 or not any(abs(s - F(i, n)) < F(1, 10**9) for _, s in f.cum()))
                       for i in range(1, n)) else None


@query("quantiles", FIN, _draw_quantiles)
def _quantiles(b, x, p):
    return cnums(b.ctx.call("quantiles", x.quantiles, p[0]))


# --------------------------------------------------------------------- slicing
def _draw_slice(rng, dom, f):
    pts = list(f.pts) or [F(0), F(3)]
    c = set()
    while len(c) < 2:
        c |= {rng.choice(pts) + rng.choice([0, 0, 1, -1]) for _ in range(rng.randint(2, 5))} | {pts[0] - rng.choice([0, 1])}
    c = sorted(c)
    iv = list(zip(c, c[1:]))
    gs = [f.restrict(*i) for i in iv]
    if not all(fits(g, dom) for g in gs):
        return None
    names = ["mean", "min", "max"]
    if any(g.finite_defined() for g in gs):
        names.append("integral")
    if all(median_ok(g) for g in gs):
        names.append("median")
    if all(mode_ok(g) for g in gs):
        names.append("mode")
    k = rng.choice(["one", "one", "agg", "resample", "apply", "hist"])
    closed = rng.choice(["left", "right"])
    if k == "hist":
        if not all(g.finite_defined() for g in gs):
            return None
        vs = [v for g in gs for v in g.value_sums()]
        if max(vs) - min(vs) > 40:          # the default bins have width 1
            return None
        names = rng.sample(["sum", "frequency"], 1)
    elif k == "resample":
        names = rng.sample([n for n in names if n != "integral"], 1)
    else:
        names = rng.sample(names, 1 if k == "one" else rng.randint(1, len(names)))
    return tuple(c), closed, k, tuple(names)


@query("slice", ANY, _draw_slice)
def _slice(b, x, p):
    c, closed, k, names = p
    dom, ctx, rng = b.dom, b.ctx, b.rng
    ii = pd.IntervalIndex.from_breaks(dom.array(c), closed=closed)
    if rng.random() < 0.5:
        sl = ctx.call("slice", x.slice, ii)
    else:
        sl = ctx.call("slice", x.slice, dom.array(c), closed=closed)
    val = lambda n: (lambda v: clen(dom, v)) if n == "integral" else cnum
    if k == "one":
        return cseries(ctx.call("slice:" + names[0], getattr(sl, names[0])), lambda i: civ(dom, i), val(names[0]))
    if k == "agg":
        df = ctx.call("slice:agg", sl.agg, list(names))
        return ("list", [cseries(df[n], lambda i: civ(dom, i), val(n)) for n in names])
    if k == "resample":
        return cfn(b, ctx.call("resample", sl.resample, names[0]))
    if k == "hist":
        df = ctx.call("slice:hist", sl.hist, stat=names[0])
        return ("list", [("list", [civ(dom, i)] + [clen(dom, v) for v in row]) for i, row in zip(df.index, df.to_numpy().tolist() if not dom.is_time
                                                                                       else [list(df.iloc[r]) for r in range(len(df))])])
    s = ctx.call("slice:apply", sl.apply, lambda t: t)
    return cseries(s, lambda i: civ(dom, i), lambda t: cfn(b, t))


# -------------------------------------------------------------- rolling, moments
def _draw_rolling(rng, dom, f):
    l, r = rng.choice([(-1, 0), (0, 1), (-1, 1), (-2, 3), (-4, -1), (1, 2)])
    w = (None, None) if rng.random() < 0.6 else bounded(rng, dom, f)
    if w[0] is not None and w[1] - w[0] <= r - l:
        w = (None, None)
    return F(l), F(r), w


@query("rolling_mean", lambda f: f.finite_defined() and len(f.pts) < 15, _draw_rolling)
def _rolling(b, x, p):
    l, r, w = p
    kw = {} if w == (None, None) else {"where": wlab(b, w)}
    s = b.ctx.call("rolling_mean", x.rolling_mean, (b.dom.delta(l, b.rng), b.dom.delta(r, b.rng)), **kw)
    return cseries(s, lambda k: cpt(b.dom, k), cnum)


def _draw_moment(rng, dom, f):
    """a partner (as an abstract function of f), a bounded window"""
    if not f.finite_defined():
        return None
    k = rng.choice(["abs", "square", "shift", "pos", "shift"])
    g = PARTNERS[k](f)
    lo, hi = f.pts[0] - 1, f.pts[-1] + 1
    lag = F(rng.choice([0, 0, 1, -2]))
    gl = g.shift(-lag)
    common = f.combine(gl, lambda a, c: None if a is None or c is None else a).restrict(lo, hi)
    if sum((l for l, _ in common.finite_defined()), F(0)) < 3 or not all(fits(h, dom) for h in (f, g)):
        return None
    h2 = hi - lag if lag else hi
    pair = f.combine(gl, lambda a, c: None if a is None or c is None else a * c).restrict(lo, h2)
    a2 = f.combine(gl, lambda a, c: None if c is None else a).restrict(lo, h2)
    c2 = f.combine(gl, lambda a, c: None if a is None else c).restrict(lo, h2)
    if not all(h.finite_defined() and fits(h, dom) for h in (pair, a2, c2)):
        return None
    name = rng.choice(["cov", "corr"])
    if name == "corr" and (a2.var() == 0 or c2.var() == 0):
        name = "cov"
    return name, k, (lo, hi), lag


PARTNERS = {
    "abs": lambda f: f.map(lambda v: None if v is None else abs(v)),
    "square": lambda f: f.map(lambda v: None if v is None else v * v if abs(v) < 1000 else v),
    "pos": lambda f: f.map(lambda v: None if v is None else F(v > 0)),
    "shift": lambda f: f.shift(F(1)),
}


@query("moments", FIN, _draw_moment)
def _moments(b, x, p):
    name, k, w, lag = p
    kw = {"where": wlab(b, w)}
    if lag:
        kw["lag"] = b.dom.delta(lag, b.rng)
    return cnum(b.ctx.call(name, getattr(x, name), b.partner, **kw))


# ---------------------------------------------------------------------- tables
@query("table", ANY, lambda rng, dom, f: (points(rng, dom, f), rng.choice(["left", "right", None])))
def _table(b, x, p):
    xs, side = p
    v = b.dom.array(xs)
    k = b.rng.choice(["sc", "array", "accessor"])
    coll = {"sc": [x, x], "array": sc.StairsArray([x, x]), "accessor": pd.Series([x, x], dtype="Stairs")}[k]
    on = {"sc": sc, "array": coll, "accessor": getattr(coll, "sc", None)}[k]
    args = [coll, v] if k == "sc" else [v]
    if side:
        df = b.ctx.call("table", on.limit, *args, side=side)
    else:
        df = b.ctx.call("table", on.sample, *args)
    cols = [cpt(b.dom, c) for c in df.columns]
    return ("list", [("list", cols)] + [cnums(df.iloc[r]) for r in range(len(df))])


ALL = list(QUERIES.values())


def tolerances(f, *doms):
    """value tolerance, length tolerance for comparing answers across these domains"""
    eps = max([float(F(1, d.unit_ns)) if d.is_time else 0.0 for d in doms])
    n = len(f.pts) + 2
    top = max([1.0] + [abs(float(v)) for v in f.vals if v is not None])
    total = float(f.total()) if f.finite_defined() else 1.0
    return 1e-9 + eps * n * 4 * top / min(1.0, total), 4 * eps * n * top + 1e-9
