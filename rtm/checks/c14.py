"""C14 statistics always reflect the function as it is, whatever was asked or layered before."""
from __future__ import annotations

import copy
import math
from fractions import Fraction as F

import numpy as np
import pandas as pd

import staircase as sc
from .. import domains, gen, model as M, ops
from ..build import Builder
from ..ctx import Skip, Violation, short
from ..model import SF
from ..observe import Mismatch, frame, same_function
from ._stats import stat_sf

RULE = ("histories that interleave every statistic / distribution query with scalar, vector and frame layers (including layers "
        "that change only the initial value, cancel earlier ones, add or remove all steps, or change nothing), on functions of "
        "every provenance, defined or not; after each event the same query is put to a freshly built equal function and the "
        "two outcomes (value or exception) are compared; queries repeated before and after; branches through copy / deepcopy; "
        "every query x mutation pattern enumerated")


# ----------------------------------------------------------------- the queries
def windows(dom, f):
    lo = (f.pts[0] if f.pts else F(0)) - 1
    hi = (f.pts[-1] if f.pts else F(2)) + 1
    return (dom.enc(lo), dom.enc(hi))


def inner(dom, f):
    if len(f.pts) < 2:
        return windows(dom, f)
    return (dom.enc(f.pts[0]), dom.enc(f.pts[-1]))


def last(dom, f, d=0):
    return dom.enc((f.pts[-1] if f.pts else F(2)) + d)


def first(dom, f, d=0):
    return dom.enc((f.pts[0] if f.pts else F(0)) + d)


def mid(dom, f):
    return dom.enc(f.pts[len(f.pts) // 2] if f.pts else F(1))


ALLSTATS = ["mean", "integral", "std", "median"]


QUERIES = {
    "agg_until": lambda s, d, f: s.agg(ALLSTATS, where=(None, last(d, f, 2))),
    "agg_until_last": lambda s, d, f: s.agg(ALLSTATS, where=(-sc.inf, last(d, f))),
    "agg_from": lambda s, d, f: s.agg(ALLSTATS, where=(first(d, f, -1), None)),
    "agg_from_first": lambda s, d, f: s.agg(ALLSTATS, where=(first(d, f), sc.inf)),
    "agg_until_mid": lambda s, d, f: s.agg(["mean", "integral", "max"], where=(None, mid(d, f))),
    "agg_from_mid": lambda s, d, f: s.agg(["mean", "integral", "max"], where=(mid(d, f), None)),
    "agg_one": lambda s, d, f: s.agg("mean", where=(None, last(d, f, 1))),
    "agg_one_from": lambda s, d, f: s.agg("integral", where=(first(d, f, -3), None)),
    "agg_whole": lambda s, d, f: s.agg(ALLSTATS, where=(None, None)),
    "describe_until": lambda s, d, f: s.describe(where=(None, last(d, f, 1)), percentiles=(10, 50)),
    "range_until": lambda s, d, f: s.values_in_range(where=(None, last(d, f))),
    "range_from": lambda s, d, f: s.values_in_range(where=(first(d, f), None), closed="left"),
    "clip_mean": lambda s, d, f: s.clip(first(d, f, -1), last(d, f, 1)).mean(),
    "shift_integral": lambda s, d, f: s.shift(d.delta(F(1))).integral(),
    "integral": lambda s, d, f: s.integral(),
    "mean": lambda s, d, f: s.mean(),
    "var": lambda s, d, f: s.var(),
    "std": lambda s, d, f: s.std(),
    "min": lambda s, d, f: s.min(),
    "max": lambda s, d, f: s.max(),
    "value_sums": lambda s, d, f: s.value_sums(),
    "value_sums_nan": lambda s, d, f: s.value_sums(dropna=False),
    "ecdf": lambda s, d, f: s.ecdf([-3, -1, 0, 0.5, 1, 2, 5]),
    "ecdf_fn": lambda s, d, f: s.ecdf,
    "percentile": lambda s, d, f: s.percentile([0, 10, 25, 50, 90, 100]),
    "percentile_1": lambda s, d, f: s.percentile(40),
    "percentile_fn": lambda s, d, f: s.percentile,
    "fractile": lambda s, d, f: s.fractile([0, 0.2, 0.5, 0.75, 1]),
    "fractile_fn": lambda s, d, f: s.fractile,
    "median": lambda s, d, f: s.median(),
    "mode": lambda s, d, f: s.mode(),
    "hist": lambda s, d, f: s.hist(),
    "hist_bins": lambda s, d, f: s.hist(bins=[-100, -1, 0, 1, 2, 100], closed="right", stat="sum"),
    "hist_prob": lambda s, d, f: s.hist(bins=[-100, -1, 0, 1, 2, 100], stat="probability"),
    "quantiles": lambda s, d, f: s.quantiles(4),
    "describe": lambda s, d, f: s.describe(),
    "values_in_range": lambda s, d, f: s.values_in_range(),
    "agg": lambda s, d, f: s.agg(["mean", "max", "min"]),
    "agg_where": lambda s, d, f: s.agg(["mean", "integral", "max"], where=windows(d, f)),
    "agg_inner": lambda s, d, f: s.agg(["mean", "median", "min"], where=inner(d, f)),
    "describe_where": lambda s, d, f: s.describe(where=windows(d, f)),
    "range_where": lambda s, d, f: s.values_in_range(where=inner(d, f), closed="both"),
    "dist.ecdf": lambda s, d, f: s.dist.ecdf([-1, 0, 1, 2]),
    "dist.percentile": lambda s, d, f: s.dist.percentile([25, 75]),
    "dist.fractile": lambda s, d, f: s.dist.fractile([0.25, 0.5]),
    "dist.hist": lambda s, d, f: s.dist.hist(),
    "slice_mean": lambda s, d, f: s.slice(pd.IntervalIndex.from_breaks(list(windows(d, f)))).mean(),
    "var_cov": lambda s, d, f: s.cov(s, where=windows(d, f)),
    "number_of_steps": lambda s, d, f: s.number_of_steps,
    "step_values": lambda s, d, f: s.step_values,
    "step_changes": lambda s, d, f: s.step_changes,
    "sample": lambda s, d, f: s(d.array([*f.pts, F(0), F(1)])),
    "limit": lambda s, d, f: s.limit(d.array([*f.pts, F(0), F(1)]), "left"),
}
CORE = ["integral", "mean", "var", "std", "min", "max", "value_sums", "ecdf", "ecdf_fn", "percentile", "percentile_fn",
        "fractile", "fractile_fn", "median", "mode", "hist", "hist_bins", "hist_prob", "quantiles", "describe", "dist.ecdf",
        "dist.percentile"]


DRAWN = {}       # queries over a window drawn for the case at hand


def drawn(ctx, dom, f):
    """a statistic over any window: one-sided, between steps, at them, beyond them"""
    rng = ctx.rng
    pts = list(f.pts)[:1] + list(f.pts)[-2:] + rng.sample(list(f.pts), min(2, len(f.pts))) or [F(0), F(2)]
    xs = sorted({*pts, *((a + c) / 2 for a, c in zip(pts, pts[1:])), pts[0] - 1, pts[-1] + 2})
    xs = [x for x in xs if (x * dom.den).denominator == 1]
    for _ in range(20):
        lo, hi = rng.choice(xs + [None]), rng.choice(xs + [None, None])
        if lo is None or hi is None or lo < hi:
            break
    else:
        lo = hi = None
    w = (None if lo is None else dom.enc(lo), None if hi is None else dom.enc(hi))
    k = rng.choice(["agg", "agg", "agg1", "describe", "range", "clip"])
    n = rng.choice(["mean", "integral", "median", "std", "max", "min", "var"])
    name = f"{k} {n} over {lo}..{hi}"
    DRAWN.clear()
    DRAWN[name] = {
        "agg": lambda s, d, f: s.agg(["mean", "integral", n], where=w),
        "agg1": lambda s, d, f: s.agg(n, where=w),
        "describe": lambda s, d, f: s.describe(where=w),
        "range": lambda s, d, f: s.values_in_range(where=w),
        "clip": lambda s, d, f: getattr(s.clip(*w), n)(),
    }[k]
    ctx.count("drawn_windows")
    return name


def ask(ctx, name, st, dom, f):
    ctx.counts["calls"] += 1
    ctx.counts["query:" + name] += 1
    try:
        return "value", (QUERIES.get(name) or DRAWN[name])(st, dom, f)
    except Exception as e:
        return "raises", e


def alike(a, b):
    """the same answer (floats up to rounding)"""
    if isinstance(a, sc.Stairs) and isinstance(b, sc.Stairs):
        return alike(a.initial_value, b.initial_value) and alike(a.step_values, b.step_values)
    if isinstance(a, pd.Series) and isinstance(b, pd.Series):
        if len(a) != len(b):
            return False
        return all(alike(x, y) for x, y in zip(a.index, b.index)) and all(alike(x, y) for x, y in zip(a, b))
    if isinstance(a, pd.DataFrame) and isinstance(b, pd.DataFrame):
        return list(a.columns) == list(b.columns) and len(a) == len(b) and all(alike(a[c], b[c]) for c in a)
    if isinstance(a, pd.Interval) and isinstance(b, pd.Interval):
        return a.closed == b.closed and alike(a.left, b.left) and alike(a.right, b.right)
    if isinstance(a, (np.ndarray, pd.Index, list, tuple)) and isinstance(b, (np.ndarray, pd.Index, list, tuple)):
        return len(a) == len(b) and all(alike(x, y) for x, y in zip(a, b))
    try:
        if pd.isna(a) and pd.isna(b):
            return True
    except (TypeError, ValueError):
        pass
    if isinstance(a, (pd.Timedelta, pd.Timestamp)) or isinstance(b, (pd.Timedelta, pd.Timestamp)):
        try:
            d = a - b
            return abs(d) <= pd.Timedelta(2, "ns") + abs(b if isinstance(b, pd.Timedelta) else pd.Timedelta(0)) * 1e-9
        except TypeError:
            return False
    try:
        x, y = float(a), float(b)
    except (TypeError, ValueError):
        return type(a) is type(b) and a == b
    if math.isinf(x) or math.isinf(y):
        return x == y
    return x == y or abs(x - y) <= 1e-9 * max(1.0, abs(x), abs(y))


def put(ctx, b, name, st, f, fresh, hist):
    """ask st and a fresh equal function"""
    if name in ("hist", "dist.hist"):
        vs = [v for v in f.vals if v is not None]
        if vs and max(vs) - min(vs) > 3000:       # a bin per unit
            return
    got = ask(ctx, name, st, b.dom, f)
    want = ask(ctx, name, fresh, b.dom, f)
    ctx.count("answers_compared")
    if got[0] != want[0]:
        raise Mismatch(f"{name} {'raised ' + repr(got[1]) if got[0] == 'raises' else 'answered ' + short(got[1])} "
                       f"but a fresh equal function {'raised ' + repr(want[1]) if want[0] == 'raises' else 'answered ' + short(want[1])}; "
                       f"function {f}, history {hist}")
    if got[0] == "raises":
        ctx.count("both_raised")
        if type(got[1]) is not type(want[1]):
            raise Mismatch(f"{name} raised {got[1]!r}, a fresh equal function {want[1]!r}; function {f}, history {hist}")
        return
    if not alike(got[1], want[1]):
        raise Mismatch(f"{name} is {short(got[1])}, of a fresh equal function {short(want[1])}; function {f}, history {hist}")


class Subject:
    def __init__(self, st, f):
        self.st, self.f, self.hist, self.past = st, f, [], []

    def branch(self, st):
        s = Subject(st, self.f)
        s.hist, s.past = [*self.hist, "branch"], list(self.past)
        return s


def layer(ctx, b, s, force=None):
    """mutate s; returns a description"""
    rng, f = ctx.rng, s.f
    pts = list(f.pts)[:6] + [F(0), F(2), F(5)]
    pt = lambda: rng.choice(pts)
    v = F(rng.choice([1, -1, 2, 3, -2]))
    k = force or rng.choice(["interval", "interval", "start", "end", "initial", "multi", "undo", "undo", "cancel_step", "nothing",
                             "flat", "back"])
    if k == "interval":
        ts = [(pt(), pt(), v)]
    elif k == "start":
        ts = [(pt(), None, v)]
    elif k == "end":
        ts = [(None, pt(), v)]
    elif k == "initial":
        ts = [(None, None, v)]
    elif k == "multi":
        ts = [(rng.choice(pts + [None]), rng.choice(pts + [None]), F(rng.choice([1, -1, 4]))) for _ in range(rng.randint(2, 3))]
    elif k == "undo":
        if not s.past:
            return layer(ctx, b, s, "interval")
        ts = [(a, z, -w) for a, z, w in s.past[-1]]
    elif k == "cancel_step":
        if not f.pts or f.has_undefined():
            return layer(ctx, b, s, "start")
        j = rng.randrange(len(f.pts))
        ts = [(f.pts[j], None, f.vals[j] - f.vals[j + 1])]
    elif k == "nothing":
        ts = rng.choice([[(pt(), pt(), F(0))], [(F(2), F(2), v)], [(F(0), F(5), v), (F(0), F(5), -v)]])
    elif k == "flat":
        if f.has_undefined() or len(f.pts) > 6:
            return layer(ctx, b, s, "multi")
        ts = [(p, None, u - w) for p, u, w in zip(f.pts, f.vals, f.vals[1:])] or [(F(0), F(1), v)]
    else:      # back to where the history began
        ts = [(a, z, -w) for past in s.past for a, z, w in past]
        if not ts or len(ts) > 12:
            return layer(ctx, b, s, "interval")
    ctx.count("layer:" + k)
    if len(ts) == 1 and rng.random() < 0.6:
        b.layer_scalar(s.st, ts[0])
        style = "scalar"
    elif rng.random() < 0.6:
        b.layer_vector(s.st, ts)
        style = "vector"
    elif rng.random() < 0.5:
        b.layer_frame(s.st, ts)
        style = "frame"
    else:
        b.layer_any(s.st, ts)
        style = "mixed"
    ctx.count("mutations:" + style)
    s.f = f.layered(ts)
    s.past.append(ts)
    s.hist.append(f"{style} layer {[(x and float(x), y and float(y), float(w)) for x, y, w in ts]}")
    return k


def fresh(ctx, b, f):
    return b.operand(f) if ctx.rng.random() < 0.3 else _plain(b, f)


def _plain(b, f):
    try:
        st = b.plain(f)
        if b.verified(st, f):
            return st
    except Exception:
        pass
    raise Skip("no fresh function")


def settled(ctx, b, s):
    """the function itself is still what it should be"""
    o = frame(copy.deepcopy(s.st) if ctx.rng.random() < 0.7 else s.st, b.dom, ctx.call)
    same_function(o, s.f, f"function after {s.hist}")


def start_function(rng, dom):
    k = rng.random()
    closed = rng.choice(["left", "right"])
    if k < 0.6:
        return stat_sf(rng, dom, closed=closed, pals=["small", "bool", "pos", "two"])
    if k < 0.75:
        return SF.const(F(rng.choice([0, 1, 3])), closed)
    if k < 0.8:
        return SF.const(None, closed)
    return gen.sf(rng, dom, closed=closed, hi=4, pal=gen.PALETTES["small"])


def derive(ctx, b, s, subjects):
    """the result of an operation answers for itself, not for its operand"""
    rng = ctx.rng
    if not s.f.exact or any(v is not None and abs(v) > 2**20 for v in s.f.vals):
        return
    for _ in range(10):
        o = rng.choice(ops.ALL)
        if not ops.has_inexact(o) and not o.name.startswith("multiply") and o.arity != "n":
            break
    else:
        return
    st, fs = [s.st], [s.f]
    if o.arity == 2:
        g = rng.choice(subjects)
        g = g if g.f.closed == s.f.closed and g.f.exact and rng.random() < 0.5 else Subject(
            *(lambda f: (b.operand(f), f))(gen.sf(rng, b.dom, closed=s.f.closed, pal=gen.PALETTES["small"], hi=4)))
        st.append(g.st)
        fs.append(g.f)
        if rng.random() < 0.5:
            st.reverse()
            fs.reverse()
    p = o.draw(rng, b.dom, fs)
    try:
        r = o.run(b, st, p)
    except Violation:
        ctx.count("derive_failed")
        return
    f = o.model(fs, p).with_closed(r.closed)
    if not f.exact or len(f.pts) > 14 or not b.verified(r, f):
        ctx.count("derive_failed")               # the operation is another property's business
        return
    d = Subject(r, f)
    d.hist = [*s.hist, f"{o}{p}"]
    subjects.append(d)
    ctx.count("derived")


def history(ctx, i):
    rng = ctx.rng
    b = Builder(ctx, domains.pick(rng))
    f = start_function(rng, b.dom)
    subjects = [Subject(b.operand(f), f)]
    favourite = rng.sample(CORE, 4)
    for step in range(rng.randint(4, 10)):
        s = rng.choice(subjects)
        k = rng.random()
        if k < 0.4:
            layer(ctx, b, s)
            ask_now = rng.sample(favourite, 2)
        elif k < 0.5 and len(subjects) < 3:
            how = rng.choice(["copy", "deepcopy", "clip", "op", "op"])
            ctx.log("branch", how)
            if how == "op":
                derive(ctx, b, s, subjects)
                continue
            c = ctx.call(how, {"copy": s.st.copy, "deepcopy": lambda: copy.deepcopy(s.st), "clip": s.st.clip}[how])
            subjects.append(s.branch(c))
            continue
        else:
            ask_now = rng.sample(list(QUERIES), rng.randint(1, 3)) + [rng.choice(favourite)]
        ref = fresh(ctx, b, s.f)
        for name in ask_now:
            ctx.log("query", name)
            put(ctx, b, name, s.st, s.f, ref if rng.random() < 0.5 else fresh(ctx, b, s.f), s.hist)
            s.hist.append(name)
        if rng.random() < 0.6:
            name = drawn(ctx, b.dom, s.f)
            ctx.log("query", name)
            put(ctx, b, name, s.st, s.f, ref, s.hist)
            s.hist.append(name)
        if rng.random() < 0.3:
            settled(ctx, b, s)
    for s in subjects:
        settled(ctx, b, s)
        for name in favourite:
            put(ctx, b, name, s.st, s.f, _plain(b, s.f), s.hist)
    ctx.count("histories")
    ctx.note("hist", f.key(), *[s.f.key() for s in subjects], b.dom.kind)


FORCES = ["interval", "start", "end", "initial", "multi", "cancel_step", "nothing", "flat"]
NAMES = list(QUERIES)


def pattern(ctx, i):
    """query, mutate, query, return, query; every query x kind of mutation"""
    rng = ctx.rng
    name = NAMES[i % len(NAMES)]
    force = FORCES[(i // len(NAMES)) % len(FORCES)]
    b = Builder(ctx, domains.pick(rng))
    for _ in range(20):
        f = stat_sf(rng, b.dom, closed=rng.choice(["left", "right"]), pals=["small", "bool", "pos"],
                    p_nan=0 if force in ("cancel_step", "flat") else rng.choice([0, 0.3]))
        if len(f.pts) <= 8:
            break
    s = Subject(b.operand(f), f)
    second = rng.choice(CORE)
    put(ctx, b, name, s.st, s.f, _plain(b, s.f), s.hist)
    put(ctx, b, second, s.st, s.f, _plain(b, s.f), s.hist)
    s.hist += [name, second]
    layer(ctx, b, s, force)
    put(ctx, b, name, s.st, s.f, _plain(b, s.f), s.hist)
    put(ctx, b, name, s.st, s.f, _plain(b, s.f), s.hist + ["asked again"])
    put(ctx, b, second, s.st, s.f, _plain(b, s.f), s.hist)
    layer(ctx, b, s, "undo")
    put(ctx, b, second, s.st, s.f, _plain(b, s.f), s.hist)
    put(ctx, b, name, s.st, s.f, _plain(b, s.f), s.hist)
    layer(ctx, b, s, rng.choice(FORCES))
    put(ctx, b, name, s.st, s.f, _plain(b, s.f), s.hist)
    settled(ctx, b, s)
    ctx.count("patterns")
    ctx.note("pattern", name, force, f.key())


def pure(ctx, i):
    """no mutation: queries in any order leave function and later answers alone"""
    rng = ctx.rng
    b = Builder(ctx, domains.pick(rng))
    f = stat_sf(rng, b.dom, closed=rng.choice(["left", "right"]))
    s = Subject(b.operand(f), f)
    names = rng.sample(NAMES, 6)
    for _ in range(2):
        rng.shuffle(names)
        for n in names:
            put(ctx, b, n, s.st, f, _plain(b, f), s.hist)
            s.hist.append(n)
            if rng.random() < 0.6:
                n = drawn(ctx, b.dom, f)
                put(ctx, b, n, s.st, f, _plain(b, f), s.hist)
                s.hist.append(n)
        settled(ctx, b, s)
    ctx.note("pure", f.key(), names)


NO_HIST = [n for n in NAMES if n not in ("hist", "dist.hist", "describe", "describe_where", "describe_until")]


def overflow(ctx, i):
    """integrals that do not fit a Timedelta: the error is no state"""
    rng = ctx.rng
    b = Builder(ctx, rng.choice([domains.StampDomain("2000-01-01", "30D"), domains.StampDomain("2020-01-01", "1h", "US/Eastern"),
                                 domains.DeltaDomain("0s", "1D")]))
    f = gen.sf_with_finite(rng, b.dom, pal=[v for v in gen.PALETTES["big"]] + [F(1)], closed=rng.choice(["left", "right"]), hi=4)
    s = Subject(b.operand(f), f)
    for _ in range(rng.randint(3, 6)):
        for name in rng.sample(["integral", "mean", "integral", "var", "median", "agg", "agg_where"], 3) + rng.sample(NO_HIST, 1):
            put(ctx, b, name, s.st, s.f, _plain(b, s.f), s.hist)
            s.hist.append(name)
        if rng.random() < 0.5:
            layer(ctx, b, s, rng.choice(["interval", "flat", "cancel_step", "initial", "nothing"]))
    try:
        s.st.integral()
    except OverflowError:
        ctx.count("overflows")
    settled(ctx, b, s)
    ctx.note("overflow", f.key(), s.f.key())


KINDS = {"history": history, "pattern": pattern, "pure": pure, "overflow": overflow}
REQUIRE = {"answers_compared": 9000, "histories": 300, "patterns": 400, "mutations:scalar": 500, "mutations:vector": 400,
           "mutations:frame": 100}


def plan(tier):
    n = len(NAMES) * len(FORCES)
    if tier == "quick":
        return [("history", 500), ("pattern", n * 2), ("pure", 150), ("overflow", 75)]
    return [("history", 25000), ("pattern", n * 60), ("pure", 5000), ("overflow", 2500)]
