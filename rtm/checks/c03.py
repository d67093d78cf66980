"""C03 one-sided limits, the closed side, and agreement of all views."""
from __future__ import annotations

import copy
from fractions import Fraction as F

import numpy as np
import pandas as pd

import staircase as sc
from .. import domains, gen, model as M
from ..build import Builder
from ..ctx import Violation
from ..model import SF
from ..observe import Mismatch, declabel, frame, near, num, probes, on_grid, same_function

RULE = ("functions of every provenance and internal form in 5 domains; limit/sample/call put to scalars and to every "
        "container of query points (unsorted, repeated, at / between / beyond step points) in every scalar flavour, with "
        "and without include_index; every structural view compared with the model and with the other views")


class Viewer(Builder):
    """operands whose views disagree with each other are this check's business"""
    VIEWS = {"step_values", "step_changes", "to_frame", "number_of_steps", "limit", "step_points", "sample"}
    failed = None

    def read(self, st, r):
        try:
            return super().read(st, r)
        except Violation as e:
            if r in self.VIEWS:
                self.failed = e
            raise

    def verified(self, st, f):
        if super().verified(st, f):
            return True
        try:
            consistent(self.ctx, copy.deepcopy(st), self.dom)
        except (Violation, Mismatch) as e:
            self.failed = e
        return False

    def operand(self, f, depth=2, route=None):
        self.failed = None
        try:
            return super().operand(f, depth, route)
        finally:
            if self.failed:
                raise self.failed


def consistent(ctx, st, dom):
    """whatever function st is, its views describe one and the same"""
    try:
        o = frame(copy.deepcopy(st), dom, ctx.call)
        sv = ctx.call("step_values", lambda: copy.deepcopy(st).step_values)
        pts, vals = [declabel(x, dom) for x in sv.index], [num(v, "step_values") for v in sv.tolist()]
        init = num(ctx.call("initial_value", lambda: st.initial_value))
        lab = list(sv.index)
        right = [num(v) for v in ctx.call("limit", copy.deepcopy(st).limit, lab, "right")] if lab else []
        left = [num(v) for v in ctx.call("limit", copy.deepcopy(st).limit, lab, "left")] if lab else []
    finally:
        ctx.count("consistency_only")
    same = lambda a, c: len(a) == len(c) and all((x is None) == (y is None) and (x is None or abs(x - y) <= 1e-9 * max(1, abs(x)))
                                                 for x, y in zip(a, c))
    if o.pts != pts:
        raise Mismatch(f"to_frame has steps at {o.pts}, step_values at {pts}")
    if not same(o.vals[1:], vals) or not same(o.vals[:1], [init]):
        raise Mismatch(f"to_frame has values {o.vals}, step_values {vals} with initial value {init}")
    if not same(right, vals):
        raise Mismatch(f"right limits {right} at the steps, step_values {vals}")
    if not same(left, o.vals[:-1]):
        raise Mismatch(f"left limits {left} at the steps of {o}")


def scale(f):
    return max([1.0] + [abs(float(v)) for v in f.vals if v is not None])


def agree(ctx, got, exp, f, what):
    o = num(got, what)
    ctx.count("answers_observed")
    if not near(o, exp, f.exact, scale(f)):
        raise Mismatch(f"{what} = {o}, expected {None if exp is None else float(exp)}; function {f}")


def queries(ctx, st, f, b):
    rng, dom = ctx.rng, b.dom
    pool = on_grid(probes(f), dom)
    which = rng.choice(["limit-left", "limit-right", "limit-default?", "sample", "call"])
    if which == "limit-default?":
        which = "limit-right"
    if which.startswith("limit"):
        side = which[6:]
        e = lambda x: f.lim(x, side)
        def fn(x, **kw):
            return ctx.call("limit", st.limit, x, side, **kw) if rng.random() < 0.5 else \
                ctx.call("limit", st.limit, x, side=side, **kw)
    elif which == "sample":
        e = f.at
        fn = lambda x, **kw: ctx.call("sample", st.sample, x, **kw)
    else:
        e = f.at
        fn = lambda x, **kw: ctx.call("call", st, x, **kw)
    ctx.route("q:" + which)
    # scalar form
    x = rng.choice(pool)
    q = dom.query(x, rng)
    ctx.log(which, q)
    got = fn(q)
    if isinstance(got, (np.ndarray, pd.Series)) and np.ndim(got):
        raise Mismatch(f"{which}({q!r}) of a scalar returned {got!r}")
    agree(ctx, got, e(x), f, f"{which}({q!r})")
    # scalar with include_index
    if rng.random() < 0.5:
        got = fn(q, include_index=True)
        indexed(ctx, got, [x], [q], e, f, dom, which)
    # vector forms
    xs = [rng.choice(pool) for _ in range(rng.choice([1, 2, 3, 6, len(pool)]))]
    if rng.random() < 0.3:
        xs = list(pool)
    if rng.random() < 0.08:
        xs = []
    if xs:
        kind, vec = dom.vec(xs, rng)
    else:
        kind, vec = "empty", rng.choice([dom.array([]), pd.Series(dom.array([])), np.array(dom.array([]))])
    ctx.log(which, kind, vec)
    got = fn(vec)
    if len(got) != len(xs):
        raise Mismatch(f"{which} returned {len(got)} values for {len(xs)} points")
    for x, o in zip(xs, list(got)):
        agree(ctx, o, e(x), f, f"{which}({x}) in a {kind}")
    if rng.random() < 0.6:
        got = fn(vec, include_index=True)
        indexed(ctx, got, xs, list(vec), e, f, dom, which + " of " + kind)


def indexed(ctx, got, xs, labels, e, f, dom, what):
    if not isinstance(got, pd.Series):
        raise Mismatch(f"{what} with include_index returned {type(got).__name__}, not a Series")
    if len(got) != len(xs):
        raise Mismatch(f"{what} with include_index returned {len(got)} entries for {len(xs)} points")
    for x, i, o in zip(xs, got.index, got.tolist()):
        if loose(i, dom) != x:
            raise Mismatch(f"{what} with include_index: index {i!r} is not the point {x} that was asked for")
        agree(ctx, o, e(x), f, f"{what} include_index at {x}")
    ctx.count("indexed_answers")


def loose(label, dom):
    """index labels echo the query, whatever zone it was in"""
    if isinstance(label, pd.Timestamp) and dom.is_time and getattr(dom, "tz", None) is not None and label.tzinfo:
        return F(int(label.as_unit("ns").value) - dom.origin_ns, dom.unit_ns)
    return declabel(label, dom)


def views(ctx, st, f, b):
    """every structural view, in random order"""
    rng, dom = ctx.rng, b.dom
    n = len(f.pts)
    def v_frame():
        o = frame(st, dom, ctx.call)
        same_function(o, f, "to_frame")
        return o.pts, o.vals
    def v_points():
        p = ctx.call("step_points", lambda: st.step_points)
        pts = [declabel(x, dom) if not isinstance(x, np.datetime64) else dom.dec(x) for x in list(p)]
        return pts
    def v_values():
        s = ctx.call("step_values", lambda: st.step_values)
        return [declabel(x, dom) for x in s.index], [num(v, "step_values") for v in s.tolist()]
    def v_changes():
        s = ctx.call("step_changes", lambda: st.step_changes)
        return [declabel(x, dom) for x in s.index], [num(v, "step_changes") for v in s.tolist()]
    def v_initial():
        return num(ctx.call("initial_value", lambda: st.initial_value), "initial_value")
    def v_n():
        return ctx.call("number_of_steps", lambda: st.number_of_steps)
    names = ["frame", "points", "values", "changes", "initial", "n"]
    rng.shuffle(names)
    got = {}
    fns = dict(frame=v_frame, points=v_points, values=v_values, changes=v_changes, initial=v_initial, n=v_n)
    for nm in names + [rng.choice(names)]:
        got[nm] = fns[nm]()
        ctx.log("view", nm)
    ctx.count("views_observed", len(names))
    pts, vals = got["frame"]
    ctx.expect(got["n"] == len(got["points"]), f"number_of_steps {got['n']} but {len(got['points'])} step_points")
    ctx.expect(got["points"] == pts, f"step_points {got['points']} differ from to_frame {pts}")
    ctx.expect(got["values"][0] == pts, f"step_values index {got['values'][0]} differs from step_points {pts}")
    ctx.expect(got["changes"][0] == pts, f"step_changes index {got['changes'][0]} differs from step_points {pts}")
    agree(ctx, got["initial"] if got["initial"] is not None else float("nan"), f.vals[0], f, "initial_value")
    for p, v in zip(*got["values"]):
        agree(ctx, v if v is not None else float("nan"), f.lim(p, "right"), f, f"step_values[{p}]")
    if not f.has_undefined():
        acc = got["initial"]
        for p, c in zip(*got["changes"]):
            ctx.expect(c is not None, f"step_changes[{p}] undefined for an everywhere-defined function")
            acc = acc + c
            e = float(f.lim(p, "right"))
            if abs(acc - e) > 1e-9 * scale(f):
                raise Mismatch(f"initial_value + running step_changes = {acc} at {p}, expected {e}; function {f}")
            ctx.count("answers_observed")


def run(ctx, f, b, st):
    rng = ctx.rng
    for _ in range(3):
        if rng.random() < 0.6:
            queries(ctx, st, f, b)
        else:
            views(ctx, st, f, b)
    ctx.expect(st.closed == f.closed, f"closed is {st.closed}, built {f.closed}")


def built(ctx, i):
    rng = ctx.rng
    b = Viewer(ctx, domains.pick(rng))
    f = gen.sf(rng, b.dom, closed=rng.choice(["left", "right"]))
    st = b.operand(f)
    run(ctx, f, b, st)
    ctx.note(f.key(), f.closed, b.dom.kind)


def mutated(ctx, i):
    """views and limits stay right while the function is layered on between reads"""
    rng = ctx.rng
    b = Viewer(ctx, domains.pick(rng))
    f = gen.sf(rng, b.dom, closed=rng.choice(["left", "right"]), hi=4)
    st = b.operand(f)
    for _ in range(rng.randint(2, 4)):
        run1 = queries if rng.random() < 0.6 else views
        run1(ctx, st, f, b)
        pts = sorted(set(gen.points(rng, 2, b.dom)) | set(f.pts[:2]))
        t = (rng.choice(pts + [None]), rng.choice(pts + [None]), F(rng.choice([1, 2, -1])))
        st2 = b.plain(SF.const(F(0), f.closed))
        b.layer_scalar(st2, t)
        f2 = f.layered([t])
        b.layer_scalar(st, t)
        f = f2
        if not b.verified(st, f):     # layering itself is C02's business
            ctx.count("layer_unverified")
            return
    queries(ctx, st, f, b)
    views(ctx, st, f, b)
    ctx.note("mut", f.key(), f.closed, b.dom.kind)


_V = [None, F(0), F(1), F(-2)]
SMALL = [SF([], [v]) for v in _V] + [SF([F(1)], [u, v]) for u in _V for v in _V if u != v] + \
        [SF([F(0), F(2)], [u, v, w]) for u in _V for v in _V for w in _V if u != v and v != w]


def exhaustive(ctx, i):
    """one small function, one domain: all query points on a grid, all views"""
    rng = ctx.rng
    f = SMALL[i % len(SMALL)].with_closed("left" if (i // len(SMALL)) % 2 else "right")
    b = Viewer(ctx, domains.MAKERS[["int", "float", "naive", "tz", "timedelta"][(i // (2 * len(SMALL))) % 5]](rng))
    st = b.operand(f, depth=1)
    for x in range(-1, 4):
        x = F(x)
        q = b.dom.query(x, rng)
        agree(ctx, ctx.call("limit", st.limit, q, "left"), f.lim(x, "left"), f, f"limit({x}, left)")
        agree(ctx, ctx.call("limit", st.limit, q, "right"), f.lim(x, "right"), f, f"limit({x}, right)")
        agree(ctx, ctx.call("sample", st.sample, q), f.at(x), f, f"sample({x})")
        agree(ctx, ctx.call("call", st, q), f.at(x), f, f"f({x})")
    views(ctx, st, f, b)
    ctx.note("exh", f.key(), f.closed, b.dom.kind)


def large(ctx, i):
    rng = ctx.rng
    b = Viewer(ctx, domains.pick(rng))
    f = gen.sf(rng, b.dom, closed=rng.choice(["left", "right"]), n=gen.big(rng, 100, 400))
    st = b.operand(f, depth=0)
    run(ctx, f, b, st)
    ctx.note("large", f.key())


KINDS = {"built": built, "mutated": mutated, "exh": exhaustive, "large": large}
REQUIRE = {"answers_observed": 20000, "views_observed": 5000, "indexed_answers": 1000}


def plan(tier):
    n = len(SMALL) * 10
    if tier == "quick":
        return [("built", 2200), ("mutated", 500), ("exh", n), ("large", 50)]
    return [("built", 60000), ("mutated", 12000), ("exh", n * 2), ("large", 1000)]
