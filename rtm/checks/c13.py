"""C13 only layer mutates: operands stay what they are, results alias nothing."""
from __future__ import annotations

import copy
from fractions import Fraction as F

import numpy as np
import pandas as pd

import staircase as sc
from .. import domains, gen, model as M, observe, ops
from ..build import Builder, pynum
from ..ctx import Skip, Violation
from ..model import SF
from ..observe import Mismatch, frame, same_function
from ._stats import stat_sf

RULE = ("every catalogued operation, statistic, distribution, sampling, slicing and array query applied to operands of every "
        "provenance, shape (step-free, partly undefined) and materialisation; then scalar / vector layers onto results, "
        "operands and siblings in random order, with every live object compared with its shadow after every event; random "
        "histories over many live objects; operands passed twice, repeated queries returning siblings")


class Live:
    """a live object with the function it must denote"""
    __slots__ = ("st", "f", "closed", "name", "dom")

    def __init__(self, st, f, name, dom):
        self.st, self.f, self.name, self.dom = st, f, name, dom
        self.closed = st.closed


def see(ctx, l, deep):
    """observe l (on a deep copy, so that its internal forms stay as they are)"""
    return frame(copy.deepcopy(l.st) if deep else l.st, l.dom, lambda n, fn, *a: ctx.call(n, fn, *a))


def snapshot(ctx, st, name, dom):
    o = frame(copy.deepcopy(st), dom, lambda n, fn, *a: ctx.call(n, fn, *a))
    vals = [None if v is None else F(v) for v in o.vals]
    # sums of long fractions round: compared with a tolerance
    short = all(v is None or (v.denominator <= 2**30 and abs(v) < 2**40) for v in vals)
    return Live(st, SF(o.pts, vals, st.closed, short), name, dom)


def audit(ctx, live, after):
    rng = ctx.rng
    for l in live:
        o = see(ctx, l, rng.random() < 0.6)
        try:
            same_function(o, l.f, l.name)
        except Mismatch as e:
            raise Mismatch(f"{l.name} changed by {after}: {e}")
        ctx.count("shadow_comparisons")
        if l.st.closed != l.closed:
            raise Mismatch(f"{l.name} was {l.closed}-closed, is {l.st.closed}-closed after {after}")
        if rng.random() < 0.15 and l.f.pts:
            x = rng.choice(l.f.pts)
            for side in ("left", "right"):
                v = observe.num(ctx.call("limit", l.st.limit, l.dom.enc(x), side))
                if not observe.near(v, l.f.lim(x, side), l.f.exact):
                    raise Mismatch(f"{l.name}.limit({x}, {side}) is {v} after {after}, expected {l.f.lim(x, side)}")
        if rng.random() < 0.1:
            n = ctx.call("number_of_steps", lambda: l.st.number_of_steps)
            if l.f.exact and n < len(l.f.pts):
                raise Mismatch(f"{l.name} has {n} steps after {after}")


def mutate(ctx, b, l, others):
    """layer onto l, with points of its own and of its relatives"""
    rng = ctx.rng
    bb = b if l.dom is b.dom else Builder(ctx, l.dom)
    pts = list(l.f.pts)[:8] + [p for o in others if o.dom is l.dom for p in o.f.pts[:3]] + [F(0), F(3)]
    if l.dom.kind == "int":
        pts = [p for p in pts if p.denominator == 1]
    pt = lambda: rng.choice(pts + [None])
    n = 1 if rng.random() < 0.5 else rng.randint(1, 3)
    ts = [(pt(), pt(), F(rng.choice([1, 2, -1, 7, -3]))) for _ in range(n)]
    if rng.random() < 0.3 and l.f.pts and l.f.vals[0] is not None and l.f.vals[1] is not None:
        # remove a step altogether
        ts[0] = (l.f.pts[0], None, l.f.vals[0] - l.f.vals[1])
        if not all(map(M.representable, ts[0][2:])):
            ts[0] = (None, None, F(5))
    how = "scalar" if n == 1 and rng.random() < 0.7 else "vector"
    if how == "scalar":
        bb.layer_scalar(l.st, ts[0])
    else:
        bb.layer_vector(l.st, ts)
    ctx.count("mutations:" + how)
    l.f = l.f.layered(ts)
    return f"layering {ts} onto {l.name}"


# ------------------------------------------------------------------- operands
def shape(rng, dom, closed):
    k = rng.random()
    if k < 0.12:
        return SF.const(rng.choice([F(0), F(1), F(3)]), closed)
    if k < 0.17:
        return SF.const(None, closed)
    return gen.sf(rng, dom, closed=closed, lo=1, hi=5)


def operands(ctx, b, n, closed):
    rng = ctx.rng
    fs = [shape(rng, b.dom, closed) for _ in range(n)]
    return [Live(b.operand(f), f, f"operand {j}", b.dom) for j, f in enumerate(fs)]


def results_of(ctx, b, r, name, dom=None):
    """the step functions in whatever an operation returned"""
    dom = dom or b.dom
    if isinstance(r, sc.Stairs):
        return [snapshot(ctx, r, name, dom)]
    if isinstance(r, (pd.Series, sc.StairsArray, list, tuple, np.ndarray)):
        return [snapshot(ctx, s, f"{name}[{j}]", dom) for j, s in enumerate(r) if isinstance(s, sc.Stairs)]
    return []


def distinct(live):
    for i, l in enumerate(live):
        for k in live[:i]:
            if l.st is k.st:
                raise Mismatch(f"{l.name} is the very object {k.name}")


UNIT = domains.NumDomain("float", 0, 1, 1)


# -------------------------------------------------------------------- queries
def q_stats(ctx, b, x, f):
    for n in ctx.rng.sample(["mean", "integral", "var", "std", "min", "max", "median", "mode", "value_sums", "values_in_range",
                             "describe", "hist"], 3):
        ctx.log(n)
        ctx.call(n, getattr(x, n))
    return []


def q_dist(ctx, b, x, f):
    out = []
    for n in ctx.rng.sample(["ecdf", "percentile", "fractile"], 2):
        ctx.log(n)
        out += results_of(ctx, b, ctx.call(n, getattr, x, n), n, UNIT)
    return out


def q_dist_again(ctx, b, x, f):
    n = ctx.rng.choice(["ecdf", "percentile", "fractile"])
    ctx.log(n, "twice")
    r1 = ctx.call(n, getattr, x, n)
    r2 = ctx.call(n, getattr, x, n)
    return results_of(ctx, b, r1, n + " (first)", UNIT) + results_of(ctx, b, r2, n + " (second)", UNIT)


def q_dist_values(ctx, b, x, f):
    ctx.call("percentile", x.percentile, ctx.rng.choice([0, 25, 50, 100]))
    ctx.call("fractile", x.fractile, [0.25, 0.5])
    ctx.call("ecdf", x.ecdf, [0, 1, 2])
    ctx.call("quantiles", x.quantiles, 4)
    return []


def q_agg(ctx, b, x, f):
    lo, hi = f.pts[0] - 1, f.pts[-1] + 1
    w = (b.dom.enc(lo), b.dom.enc(hi))
    ctx.call("agg", x.agg, ["mean", "max", "min"], where=w)
    ctx.call("agg", x.agg, "integral")
    ctx.call("describe", x.describe, where=w)
    ctx.call("values_in_range", x.values_in_range, where=w)
    return []


def cuts(ctx, b, f):
    rng = ctx.rng
    lo, hi = f.pts[0] - 1, f.pts[-1] + 2
    c = sorted({lo, hi} | {F(rng.randint(int(lo), int(hi))) for _ in range(rng.randint(1, 4))})
    return pd.IntervalIndex.from_breaks(b.dom.array(c), closed=rng.choice(["left", "right"]))


def q_slice(ctx, b, x, f):
    rng = ctx.rng
    sl = ctx.call("slice", x.slice, cuts(ctx, b, f))
    n = rng.choice(["mean", "max", "min", "integral"])
    ctx.log("slice", n)
    ctx.call("slice." + n, getattr(sl, n))
    out = []
    if rng.random() < 0.6:
        n = rng.choice(["max", "min", "mean"])
        ctx.log("resample", n)
        out += results_of(ctx, b, ctx.call("resample", sl.resample, n), "resample")
    if rng.random() < 0.6:
        ctx.log("slice.apply(copy)")
        out += results_of(ctx, b, ctx.call("slice.apply", sl.apply, sc.Stairs.copy), "slice copy")
    if rng.random() < 0.6:
        ctx.log("slice.apply(shift)")
        out += results_of(ctx, b, ctx.call("slice.apply", sl.apply, lambda s: s.shift(b.dom.delta(F(0)))), "slice shifted")
    if rng.random() < 0.4:
        ctx.log("slice.apply(identity)")
        for k in range(2):
            out += results_of(ctx, b, ctx.call("slice.apply", sl.apply, lambda s: s), f"slice (call {k})")
    return out


def q_sample(ctx, b, x, f):
    pts = list(f.pts) or [F(0)]
    a = b.dom.array([*pts, pts[-1] + 1])
    ctx.call("sample", x, a)
    ctx.call("sample", x.sample, a, include_index=True)
    ctx.call("limit", x.limit, a, "left")
    ctx.call("limit", x.limit, b.dom.enc(pts[0]), "right")
    return []


def q_views(ctx, b, x, f):
    for n in ctx.rng.sample(["to_frame", "step_values", "step_changes", "step_points", "number_of_steps", "bool", "str",
                             "identical", "identical_scalar", "hash", "initial_value", "pieces"], 5):
        ctx.log(n)
        if n == "to_frame":
            df = ctx.call(n, x.to_frame)
            df["value"] = 99                 # the caller's own frame
        elif n == "pieces":
            s = ctx.call(n, lambda: x.step_values)
            s[:] = 77                        # the caller's own series
            s = ctx.call(n, lambda: x.step_changes)
            s[:] = 77
        elif n == "bool":
            ctx.call(n, bool, x)
        elif n == "str":
            ctx.call(n, str, x), ctx.call(n, repr, x)
        elif n == "identical":
            ctx.call(n, x.identical, x)
        elif n == "identical_scalar":
            ctx.call("identical", x.identical, 3)
        elif n == "hash":
            try:
                hash(x)
            except TypeError:
                pass
        else:
            ctx.call(n, getattr, x, n)
    return []


def q_rolling(ctx, b, x, f):
    ctx.log("rolling_mean")
    ctx.call("rolling_mean", x.rolling_mean, (b.dom.delta(F(-1)), b.dom.delta(F(2))))
    return []


def q_array(ctx, b, x, f):
    rng = ctx.rng
    g = gen.sf(rng, b.dom, closed=f.closed, lo=1)
    y = b.operand(g)
    arr = sc.StairsArray([x, y, x])
    ly = Live(y, g, "array member", b.dom)
    k = rng.choice(["add", "gt", "neg", "table", "agg", "series", "mulself", "sc"])
    ctx.log("array", k)
    if k == "add":
        r = ctx.call("array", lambda: arr + rng.choice([1, 0, x]))
    elif k == "gt":
        r = ctx.call("array", lambda: arr > y)
    elif k == "neg":
        r = ctx.call("array", lambda: -arr)
    elif k == "mulself":
        r = ctx.call("array", lambda: arr * arr)
    elif k == "agg":
        r = [ctx.call("array", getattr(arr, n)) for n in ("sum", "max", "median", "logical_or")]
    elif k == "sc":
        one = sc.StairsArray([x])
        r = [ctx.call("array", getattr(one, n)) for n in ("sum", "max", "min", "mean", "median")]
    elif k == "series":
        s = pd.Series([x, y], dtype="Stairs")
        ctx.call("array", lambda: s.sc.sample(b.dom.array([f.pts[0], f.pts[-1]])))
        ctx.call("array", lambda: s.sc.limit(b.dom.array([f.pts[0]])))
        r = [ctx.call("array", lambda: s.sc.logical_and())]
    else:
        ctx.call("array", arr.sample, b.dom.array([f.pts[0], f.pts[-1]]))
        ctx.call("array", arr.limit, b.dom.array([f.pts[0]]), "left")
        ctx.call("array", arr.bool)
        r = []
    return [ly] + results_of(ctx, b, r, "array " + k)


def q_cov(ctx, b, x, f):
    lo, hi = f.pts[0] - 1, f.pts[-1] + 1
    y = b.operand(f.map(lambda v: None if v is None else v * v))
    w = (b.dom.enc(lo), b.dom.enc(hi))
    ctx.log("cov/corr", w)
    l = Live(y, f.map(lambda v: None if v is None else v * v), "partner", b.dom)
    ctx.call("cov", x.cov, y, where=w)
    ctx.call("corr", x.corr, y, where=w)
    return [l]


def q_hist(ctx, b, x, f):
    h = ctx.call("hist", x.hist, bins=[-10, 0, 1, 2, 10], closed=ctx.rng.choice(["left", "right"]),
                 stat=ctx.rng.choice(["sum", "probability", "frequency"]))
    h[:] = 0
    vs = ctx.call("value_sums", x.value_sums)
    vs[:] = 0
    return []


def q_plot(ctx, b, x, f):
    import matplotlib
    matplotlib.use("Agg")
    import matplotlib.pyplot as plt
    fig, ax = plt.subplots()
    try:
        ctx.log("plot")
        ctx.call("plot", x.plot, ax=ax)
        if b.dom.kind in ("int", "float"):
            ctx.call("plot", x.plot, ax=ax, arrows=True)
            ctx.call("plot", x.plot, ax=ax, style="hlines")
    finally:
        plt.close(fig)
    return []


QUERIES = {"stats": q_stats, "dist": q_dist, "dist2": q_dist_again, "distv": q_dist_values, "agg": q_agg, "slice": q_slice,
           "sample": q_sample, "views": q_views, "rolling": q_rolling, "array": q_array, "cov": q_cov, "hist": q_hist}


# -------------------------------------------- operations that change nothing
def _whole(b, f):
    lo, hi = (f.pts[0] - 5, f.pts[-1] + 5) if f.pts else (F(-5), F(5))
    return b.dom.enc(lo), b.dom.enc(hi)


def _sided(b, f, v):
    st = sc.Stairs(initial_value=v, closed=b.rng.choice([f.closed, "left"]))
    return st


NOOPS = {
    "copy": lambda b, x, f: x.copy(),
    "deepcopy": lambda b, x, f: copy.deepcopy(x),
    "shift0": lambda b, x, f: x.shift(b.dom.delta(F(0))),
    "clip": lambda b, x, f: x.clip(),
    "clip_none": lambda b, x, f: x.clip(None, None),
    "clip_inf": lambda b, x, f: x.clip(-sc.inf, sc.inf),
    "where_inf": lambda b, x, f: x.where((None, None)),
    "mask_const": lambda b, x, f: x.mask(_sided(b, f, 0)),
    "where_const": lambda b, x, f: x.where(_sided(b, f, 2)),
    "mask_notcovering": lambda b, x, f: x.mask(x.isna()),
    "where_notna": lambda b, x, f: x.where(x.notna()),
    "fillna": lambda b, x, f: x.fillna(b.rng.choice([5, float("nan")]) if not f.has_undefined() else float("nan")),
    "fillna_fn": lambda b, x, f: x.fillna(x),
    "fillna_const": lambda b, x, f: x.fillna(_sided(b, f, float("nan"))),
    "fillna_method": lambda b, x, f: x.fillna(b.rng.choice(["ffill", "bfill", "pad", "backfill"]) if not f.has_undefined() else x),
    "plus0": lambda b, x, f: x + 0,
    "0plus": lambda b, x, f: 0 + x,
    "radd0": lambda b, x, f: x.radd(0.0),
    "minus0": lambda b, x, f: x - 0,
    "plus_const": lambda b, x, f: x + _sided(b, f, 0),
    "const_plus": lambda b, x, f: _sided(b, f, 0) + x,
    "minus_const": lambda b, x, f: x - _sided(b, f, 0),
    "times1": lambda b, x, f: x * 1,
    "1times": lambda b, x, f: 1 * x,
    "times_const": lambda b, x, f: x * _sided(b, f, 1),
    "over1": lambda b, x, f: x / 1,
    "over_const": lambda b, x, f: x / _sided(b, f, 1),
    "negneg": lambda b, x, f: -(-x),
    "sum1": lambda b, x, f: sc.sum([x]),
    "sum2": lambda b, x, f: sc.sum([x, sc.Stairs()]),
    "sum2r": lambda b, x, f: sc.sum([sc.Stairs(), x]),
    "max1": lambda b, x, f: sc.max([x]),
    "min1": lambda b, x, f: sc.min((x,)),
    "mean1": lambda b, x, f: sc.mean([x]),
    "median1": lambda b, x, f: sc.median([x]),
    "max2": lambda b, x, f: sc.max([x, x]),
    "median3": lambda b, x, f: sc.median([x, x, x]),
    "array_plus0": lambda b, x, f: (sc.StairsArray([x]) + 0)[0],
    "array_sum": lambda b, x, f: sc.StairsArray([x]).sum(),
    "series_plus0": lambda b, x, f: (pd.Series([x], dtype="Stairs") + 0).iloc[0],
    "slice_copy": lambda b, x, f: None,
}
BOOL_NOOPS = {
    "make_boolean": lambda b, x, f: x.make_boolean(),
    "invinv": lambda b, x, f: ~~x,
    "or0": lambda b, x, f: x | 0,
    "and1": lambda b, x, f: x & 1,
    "0or": lambda b, x, f: 0 | x,
    "1and": lambda b, x, f: 1 & x,
    "xor0": lambda b, x, f: x ^ 0,
    "orself": lambda b, x, f: x | x,
    "andself": lambda b, x, f: x & x,
    "or_const": lambda b, x, f: x | _sided(b, f, 0),
    "and_const": lambda b, x, f: x & _sided(b, f, 1),
    "ne0": lambda b, x, f: x != 0,
    "gt0": lambda b, x, f: x > 0,
    "eq1": lambda b, x, f: x == 1,
    "logical_or1": lambda b, x, f: sc.logical_or([x]),
    "logical_and1": lambda b, x, f: sc.logical_and([x]),
    "isnot": lambda b, x, f: x.where(x.notna()),
}
del NOOPS["slice_copy"]


# ---------------------------------------------------------------------- kinds
def noop(ctx, i):
    """an operation whose result equals its operand is where sharing is tempting: every
    such call x operand with either internal form or both x layers that meet its steps"""
    rng = ctx.rng
    names = [*NOOPS, *BOOL_NOOPS]
    name = names[i % len(names)]
    b = Builder(ctx, domains.pick(rng))
    closed = rng.choice(["left", "right"])
    pal = gen.PALETTES["bool"] if name in BOOL_NOOPS else gen.PALETTES["small"]
    f = gen.sf(rng, b.dom, pal=pal, closed=closed, lo=1, hi=4, p_nan=rng.choice([0, 0, 0.4]))
    if rng.random() < 0.1:
        f = SF.const(F(rng.choice([0, 1])), closed)
    form = rng.choice(["as_built", "deltas", "values", "both"])
    x = b.operand(f)
    if form in ("values", "both"):
        b.read(x, "step_values")
    if form in ("deltas", "both"):
        b.read(x, "step_changes")
    if rng.random() < 0.3:
        ctx.call("mean", lambda: x.mean() if f.finite_defined() else None)
    fn = {**NOOPS, **BOOL_NOOPS}[name]
    ctx.log("no-op", name, form)
    r = ctx.call("noop", fn, b, x, f)
    live = [Live(x, f, "operand", b.dom)] + results_of(ctx, b, r, f"result of {name}")
    if rng.random() < 0.4:
        live += results_of(ctx, b, ctx.call("noop", fn, b, x, f), f"second result of {name}")
    distinct(live)
    ctx.count("noops")
    for _ in range(2):
        l = rng.choice(live)
        pts = [p for p in f.pts] or [F(0)]
        p, v = rng.choice(pts), F(rng.choice([5, -3]))
        t = rng.choice([(p, None, v), (None, p, v), (None, None, v), (p, rng.choice(pts), v)])
        if rng.random() < 0.65:
            b.layer_scalar(l.st, t)
        else:
            b.layer_vector(l.st, [t])
        l.f = l.f.layered([t])
        audit(ctx, live, f"layering {t} onto {l.name} after {name} of {f}")
    ctx.note("noop", name, f.key(), form)


def aftermath(ctx, b, live, what, rounds=3):
    rng = ctx.rng
    distinct(live)
    audit(ctx, live, what)
    for _ in range(rng.randint(1, rounds)):
        l = rng.choice(live)
        m = mutate(ctx, b, l, live)
        audit(ctx, live, m + " after " + what)


def op(ctx, i):
    rng = ctx.rng
    b = Builder(ctx, domains.pick(rng))
    o = ops.ALL[i % len(ops.ALL)]
    n = o.arity if o.arity != "n" else rng.randint(1, 4)
    live = operands(ctx, b, n, rng.choice(["left", "right"]))
    xs, fs = [l.st for l in live], [l.f for l in live]
    if n > 1 and rng.random() < 0.15:
        xs[1], fs[1] = xs[0], fs[0]          # one object in both places
    p = o.draw(rng, b.dom, fs)
    r = o.run(b, xs, p)
    res = results_of(ctx, b, r, f"result of {o}{p}")
    if rng.random() < 0.4:                   # a sibling: the same operation again
        res += results_of(ctx, b, o.run(b, xs, p), f"second result of {o}{p}")
    ctx.count("ops:" + o.group)
    aftermath(ctx, b, live + res, f"{o}{p} of {fs}")
    ctx.note(o.name, p, [f.key() for f in fs], b.dom.kind)


def query(ctx, i):
    rng = ctx.rng
    b = Builder(ctx, domains.pick(rng))
    name = list(QUERIES)[i % len(QUERIES)]
    for _ in range(50):
        f = stat_sf(rng, b.dom, closed=rng.choice(["left", "right"]), pals=["small", "bool", "two", "pos"])
        if len(f.pts) <= 12:
            break
    x = b.operand(f)
    live = [Live(x, f, "operand", b.dom)]
    live += QUERIES[name](ctx, b, x, f)
    ctx.count("queries:" + name)
    aftermath(ctx, b, live, name)
    ctx.note(name, f.key(), b.dom.kind)


def plot(ctx, i):
    rng = ctx.rng
    b = Builder(ctx, domains.MAKERS[rng.choice(["int", "float"])](rng))
    f = stat_sf(rng, b.dom, closed=rng.choice(["left", "right"]), pals=["small", "bool"])
    x = b.operand(f)
    q_plot(ctx, b, x, f)
    aftermath(ctx, b, [Live(x, f, "operand", b.dom)], "plot")
    ctx.note("plot", f.key())


def slicer(ctx, i):
    """a slicer made before a mutation keeps answering for the function it sliced"""
    rng = ctx.rng
    b = Builder(ctx, domains.pick(rng))
    f = stat_sf(rng, b.dom, closed=rng.choice(["left", "right"]), pals=["small", "pos"], p_nan=0)
    x = b.operand(f)
    c = cuts(ctx, b, f)
    n = rng.choice(["mean", "max", "min", "integral", "median", "mode"])
    early = ctx.call("slice", x.slice, c)
    ref = ctx.call("slice", b.operand(f).slice, c)
    want = ctx.call("slice." + n, getattr(ref, n))
    if rng.random() < 0.5:
        ctx.call("slice.mean", early.mean)
    live = Live(x, f, "operand", b.dom)
    m = mutate(ctx, b, live, [])
    got = ctx.call("slice." + n, getattr(early, n))
    a, e = list(got), list(want)
    ok = all(u == v or (pd.isna(u) and pd.isna(v)) or
             (isinstance(u, (float, np.floating)) and abs(u - v) <= 1e-9 * max(1, abs(v))) for u, v in zip(a, e))
    if not ok or len(a) != len(e):
        raise Mismatch(f"slicer.{n}() of {f} on {c}, sliced before {m}: {a}, expected {e}")
    if rng.random() < 0.4:
        want = snapshot(ctx, ctx.call("resample", ref.resample, "max"), "reference", b.dom)
        got = ctx.call("resample", early.resample, "max")
        same_function(frame(got, b.dom, ctx.call), want.f, f"resample of {f} on {c}, sliced before {m}")
    audit(ctx, [live], "slicing")
    ctx.count("slicers")
    ctx.note("slicer", f.key(), n)


def history(ctx, i):
    """many live objects, random operations, queries and mutations"""
    rng = ctx.rng
    b = Builder(ctx, domains.pick(rng))
    closed = rng.choice(["left", "right"])
    live = operands(ctx, b, rng.randint(2, 3), closed)
    what = "construction"
    for step in range(rng.randint(4, 9)):
        k = rng.random()
        small = [l for l in live if l.dom is b.dom and len(l.f.pts) <= 25 and l.f.exact and (l.closed == closed or not l.f.pts)
                 and all(v is None or abs(v) < 2**40 for v in l.f.vals)]
        if k < 0.5 and small:
            o = rng.choice(ops.ALL)
            n = o.arity if o.arity != "n" else rng.randint(1, 3)
            args = [rng.choice(small) for _ in range(n)]
            p = o.draw(rng, b.dom, [l.f for l in args])
            r = o.run(b, [l.st for l in args], p)
            what = f"step {step}: {o}{p} of {[l.name for l in args]}"
            live += results_of(ctx, b, r, f"result {step} ({o})")
        elif k < 0.62 and small:
            l = rng.choice(small)
            if l.f.finite_defined():
                name = rng.choice([q for q in QUERIES if q not in ("array", "cov")])
                what = f"step {step}: {name} of {l.name}"
                live += QUERIES[name](ctx, b, l.st, l.f)
        else:
            what = f"step {step}: " + mutate(ctx, b, rng.choice(live), live)
        distinct(live)
        audit(ctx, live, what)
        if len(live) > 12:
            live = rng.sample(live, 8)
    ctx.count("histories")
    ctx.note("history", *[l.f.key() for l in live])


_V = [None, F(0), F(2)]
SMALL = [SF([], [v]) for v in _V] + [SF([F(1)], [u, v]) for u in _V for v in _V if u != v] + \
        [SF([F(1), F(3)], [u, v, w]) for u in (None, F(0)) for v in (None, F(2)) for w in _V if u != v and v != w]
PLAIN = ["r_ctor", "r_from_values", "r_vector", "r_scalar"]
MUTS = [("result", "scalar"), ("result", "vector"), ("operand", "scalar"), ("operand", "vector")]


def exhaustive(ctx, i):
    """operation x shape x which object is layered onto x how"""
    rng = ctx.rng
    dom = domains.NumDomain("int", 0, 1, 1)
    b = Builder(ctx, dom)
    o = ops.ALL[i % len(ops.ALL)]
    f = SMALL[(i // len(ops.ALL)) % len(SMALL)]
    n = 1 if o.arity == 1 else rng.choice([2, 3]) if o.arity == "n" else o.arity
    for who, how in MUTS:
        fs = [f] + [rng.choice(SMALL) for _ in range(n - 1)]
        if o.arity == "n" and rng.random() < 0.4:
            fs = fs[:1]
        rng.shuffle(fs)
        live = [Live(b.operand(g), g, f"operand {j}", dom) for j, g in enumerate(fs)]
        p = o.draw(rng, dom, fs)
        res = results_of(ctx, b, o.run(b, [l.st for l in live], p), f"result of {o}{p}")
        alive = live + res
        distinct(alive)
        t = rng.choice([(F(1), None, F(5)), (None, None, F(5)), (F(2), F(4), F(5)), (None, F(1), F(5)), (F(1), F(3), F(-2))])
        l = rng.choice(res if who == "result" else live)
        (b.layer_scalar if how == "scalar" else (lambda s, t: b.layer_vector(s, [t])))(l.st, t)
        l.f = l.f.layered([t])
        ctx.count("mutations:" + how)
        audit(ctx, alive, f"layering {t} onto {l.name} after {o}{p} of {fs}")
    ctx.note("exh", o.name, f.key())


def within_timedelta(case):
    """an integral which no Timedelta can hold is refused, rightly: it says nothing of the operands"""
    def run(ctx, i):
        try:
            case(ctx, i)
        except Violation as e:
            if e.kind == "raise:OverflowError" and "Integral calculation" in str(e):
                raise Skip("integral beyond the Timedelta range")
            raise
    return run


KINDS = {"op": op, "query": query, "plot": plot, "slicer": slicer, "noop": noop, "history": history, "exh": exhaustive}
REQUIRE = {"shadow_comparisons": 20000, "mutations:scalar": 2000, "mutations:vector": 1500, "histories": 250, "noops": 800, "slicers": 150,
           "queries:slice": 50, "queries:dist": 50, "queries:array": 50, "ops:masking": 200, "ops:binary": 250}

KINDS = {k: within_timedelta(c) for k, c in KINDS.items()}


def plan(tier):
    n = len(SMALL) * len(ops.ALL)
    if tier == "quick":
        return [("op", 1500), ("query", 900), ("plot", 20), ("slicer", 250), ("noop", 57 * 16), ("history", 350), ("exh", n)]
    return [("op", 60000), ("query", 25000), ("plot", 200), ("slicer", 8000), ("noop", 57 * 600), ("history", 20000), ("exh", n * 10)]
