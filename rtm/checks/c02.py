"""C02 layering builds initial value + sum of the layered intervals."""
from __future__ import annotations

import itertools
from fractions import Fraction as F

import numpy as np
import pandas as pd

import staircase as sc
from .. import domains, gen, model as M
from ..build import Builder, decompose, noise, pynum, scalar_value, value_vector
from ..ctx import Violation
from ..model import SF
from ..observe import check_same, frame, same_function

RULE = ("histories of layer calls (scalar, list/tuple/ndarray/Series/Index/frame columns, broadcast and padded vectors, "
        "missing markers, repeated and cancelling edges) on fresh, layered, step-free and partly undefined receivers in 5 "
        "domains; the receiver is read back after every call and compared with the exact sum; an enumerated set of all "
        "2-call histories over a small point set")


def triple(rng, pts, pal):
    s, e = rng.choice(pts + [None]), rng.choice(pts + [None])
    return (s, e, rng.choice(pal))


def receiver(b, dom, rng):
    """(Stairs, model) to layer onto"""
    k = rng.random()
    closed = rng.choice(["left", "right"])
    if k < 0.4:
        c = F(rng.choice([0, 0, 1, -2]))
        return b.new(c, closed), SF.const(c, closed)
    f = gen.sf(rng, dom, closed=closed, p_nan=0 if k < 0.7 else 0.35, hi=5)
    return b.operand(f), f


def history(ctx, i):
    rng = ctx.rng
    b = Builder(ctx, domains.pick(rng))
    dom = b.dom
    st, f = receiver(b, dom, rng)
    pal = gen.palette(rng, ["small", "small", "frac", "pos", "bool", "wide", "two", "specks"])
    pts = sorted(set(gen.points(rng, rng.randint(1, 5), dom) + list(f.pts[:3])))
    done = []
    for step in range(rng.choice([1, 2, 3, 5, 8])):
        k = rng.random()
        ts = [triple(rng, pts, pal) for _ in range(rng.choice([1, 1, 2, 3, 5]))]
        if k < 0.25 and done:
            # undo an earlier layer, exactly
            ts = [(s, e, -v) for s, e, v in rng.choice(done)]
        if len(ts) == 1 and rng.random() < 0.6:
            b.layer_scalar(st, ts[0])
        elif rng.random() < 0.75:
            b.layer_vector(st, ts)
        else:
            b.layer_frame(st, ts)
        done.append(ts)
        f = f.layered(ts)
        if rng.random() < 0.25:
            ctx.count("unread_calls")
            if rng.random() < 0.5:
                b.materialise(st, 1.0)
            continue
        check_same(st, f, dom, ctx, "after layer")
    check_same(st, f, dom, ctx, "after the last layer")
    ctx.expect(st.closed == f.closed, f"closed became {st.closed}")
    ctx.note(f.key(), dom.kind, len(done))


def order(ctx, i):
    """the same triples in several orders and call styles are identical"""
    rng = ctx.rng
    b = Builder(ctx, domains.pick(rng))
    dom = b.dom
    pal = gen.palette(rng, ["small", "frac", "pos", "bool", "specks"])
    pts = gen.points(rng, rng.randint(1, 5), dom)
    ts = noise([triple(rng, pts, pal) for _ in range(rng.randint(1, 6))], rng, pts)
    closed = rng.choice(["left", "right"])
    c = F(rng.choice([0, 1, -3]))
    f = SF.const(c, closed).layered(ts)
    ref = None
    for style in rng.sample(["scalar", "vector", "frame", "any", "ctor", "ctorframe"], 3):
        ts = list(ts)
        rng.shuffle(ts)
        if style in ("ctor", "ctorframe"):
            if style == "ctor":
                S, E, V = b.vector_args(ts)
                V = 1 if S is None and E is None and V is None else V
                ctx.log("Stairs", S, E, V)
                st = ctx.call("Stairs", sc.Stairs, start=S, end=E, value=V, initial_value=pynum(c), closed=closed)
            else:
                df, S, E, V = b.frame_args(ts)
                ctx.log("Stairs(frame)", df, S, E, V)
                st = ctx.call("Stairs", sc.Stairs, df, S, E, V, initial_value=pynum(c), closed=closed)
        else:
            st = b.new(c, closed)
            if style == "scalar":
                for t in ts:
                    b.layer_scalar(st, t)
            elif style == "vector":
                b.layer_vector(st, ts)
            elif style == "frame":
                b.layer_frame(st, ts)
            else:
                b.layer_any(st, ts)
        ctx.route("order:" + style)
        check_same(st, f, dom, ctx, f"built by {style}")
        if ref is not None:
            ctx.expect(ctx.call("identical", st.identical, ref), f"two layerings of the same triples are not identical ({style})")
        ref = st
    ctx.note("order", f.key(), dom.kind)


def broadcast(ctx, i):
    """scalars against vectors, shorter vectors padded with missing entries"""
    rng = ctx.rng
    b = Builder(ctx, domains.pick(rng))
    dom = b.dom
    st, f = receiver(b, dom, rng)
    pts = gen.points(rng, rng.randint(2, 6), dom)
    n = rng.randint(1, 5)
    xs = lambda k: [rng.choice(pts) if rng.random() < 0.85 else None for _ in range(k)]
    kind = rng.choice(["long_start", "long_end", "scalar_start", "scalar_end", "no_start", "no_end", "value_only"])
    m = rng.randint(0, n)
    ss, es = xs(n), xs(n)
    if kind == "long_start":
        es = es[:m]
        S, E = dom.vec(ss, rng)[1], (dom.vec(es, rng)[1] if es else rng.choice([None, []]))
    elif kind == "long_end":
        ss = ss[:m]
        S, E = (dom.vec(ss, rng)[1] if ss else rng.choice([None, []])), dom.vec(es, rng)[1]
    elif kind == "scalar_start":
        # (a scalar against a longer vector is not covered by the property)
        ss, es = [rng.choice(pts)], es[:1]
        S, E = dom.scalar(ss[0], rng), dom.vec(es, rng)[1]
    elif kind == "scalar_end":
        es, ss = [rng.choice(pts)], ss[:1]
        S, E = dom.vec(ss, rng)[1], dom.scalar(es[0], rng)
    elif kind == "no_start":
        ss = []
        S, E = rng.choice([None, [], -sc.inf]), dom.vec(es, rng)[1]
    elif kind == "no_end":
        es = []
        S, E = dom.vec(ss, rng)[1], rng.choice([None, [], sc.inf])
    else:
        # scalar interval, vector of one value
        ss, es, n = [rng.choice(pts)], [rng.choice(pts)], 1
        S, E = dom.scalar(ss[0], rng), dom.scalar(es[0], rng)
    if all(x is None for x in ss + es) and dom.is_time:
        # an all-missing vector carries no domain; nothing to disambiguate
        S, E = (None if isinstance(S, list) and not S else S), E
    n = max(len(ss), len(es))
    pad = lambda a: list(a) + [None] * (n - len(a))
    k = rng.random()
    pal = gen.palette(rng, ["small", "frac", "pos"])
    if kind == "value_only":
        vs = [rng.choice(pal)]
        V = value_vector(vs, rng)
    elif k < 0.3:
        vs, V = [F(1)] * n, None
    elif k < 0.6:
        v = rng.choice(pal)
        vs, V = [v] * n, scalar_value(v, rng)
    else:
        vs = [rng.choice(pal) for _ in range(n)]
        V = value_vector(vs, rng)
    if not n:
        return
    ts = list(zip(pad(ss), pad(es), vs))
    keep = [x.copy() if isinstance(x, (np.ndarray, pd.Series, pd.Index, list)) else x for x in (S, E, V)]
    ctx.log("layer", S, E, V)
    r = ctx.call("layer", st.layer, S, E, V)
    ctx.expect(r is st, "layer did not return its receiver")
    for nm, a, c in zip(("start", "end", "value"), keep, (S, E, V)):
        if isinstance(a, (pd.Series, pd.Index)):
            ctx.expect(a.equals(c) and (not isinstance(a, pd.Series) or a.index.equals(c.index)), f"layer modified {nm}")
        elif isinstance(a, np.ndarray):
            ctx.expect(a.shape == c.shape and pd.Series(a).equals(pd.Series(c)), f"layer modified {nm}")
        elif isinstance(a, list):
            ctx.expect(len(a) == len(c), f"layer modified {nm}")
    ctx.route("broadcast:" + kind)
    f = f.layered(ts)
    check_same(st, f, dom, ctx, f"after layer ({kind})")
    # and the function is still usable
    t = triple(rng, pts, pal)
    b.layer_scalar(st, t)
    check_same(st, f.layered([t]), dom, ctx, "after one more layer")
    ctx.note("bc", kind, f.key(), dom.kind)


# every history of two calls over the points 0, 1 -----------------------------
_P = [None, F(0), F(1)]
_T = [(s, e, v) for s in _P for e in _P for v in (F(1), F(-1), F(2))]
_R = [SF.const(F(0)), SF.const(F(2)), SF([F(0)], [F(0), F(1)]), SF([F(1)], [F(1), None]), SF([F(0)], [None, F(0)]),
      SF([F(0), F(1)], [F(0), None, F(1)]), SF([F(0), F(1)], [None, F(2), None]), SF.const(None)]


def exhaustive(ctx, i):
    dom = domains.NumDomain("int", 0, 1, 1)
    b = Builder(ctx, dom)
    t1 = _T[i % len(_T)]
    f0 = _R[(i // len(_T)) % len(_R)]
    for t2 in _T:
        st = b.plain(f0)
        if ctx.rng.random() < 0.3:
            b.materialise(st, 1.0)
        f = f0
        for t in (t1, t2):
            if ctx.rng.random() < 0.5:
                b.layer_scalar(st, t)
            else:
                b.layer_vector(st, [t])
            f = f.layered([t])
        check_same(st, f, dom, ctx, f"{f0} + {t1} + {t2}")
    ctx.note("exh", f0.key(), t1)


def large(ctx, i):
    rng = ctx.rng
    b = Builder(ctx, domains.pick(rng))
    dom = b.dom
    closed = rng.choice(["left", "right"])
    n = rng.choice([200, 500, 1500])
    pts = gen.points(rng, n // 2, dom)
    pal = gen.palette(rng, ["small", "frac", "pos", "wide", "specks"])
    ts = [triple(rng, pts, pal) for _ in range(n)]
    st = b.new(F(0), closed)
    f = SF.const(F(0), closed)
    for lo in range(0, n, n // 3 + 1):
        chunk = ts[lo:lo + n // 3 + 1]
        if rng.random() < 0.7:
            S, E, V = b.vector_args(chunk)
            ctx.call("layer", st.layer, S, E, V)
        else:
            df, S, E, V = b.frame_args([c for c in chunk])
            ctx.call("layer", st.layer, start=S, end=E, value=V, frame=df)
        f = f.layered(chunk)
    t = triple(rng, pts, pal)
    b.layer_scalar(st, t)
    f = f.layered([t])
    check_same(st, f, dom, ctx, "after long vectors")
    ctx.note("large", f.key())


def shorthand(ctx, i):
    """the constructor with every subset of start, end and value, as scalars, vectors of one, or columns"""
    rng = ctx.rng
    b = Builder(ctx, domains.pick(rng))
    dom = b.dom
    closed = rng.choice(["left", "right"])
    given = [bool(i & 1), bool(i & 2), bool(i & 4)]
    pts = gen.points(rng, 2, dom)
    if rng.random() < 0.3:
        pts.reverse()
    start, end = pts[0] if given[0] else None, pts[1] if given[1] else None
    v = rng.choice(gen.palette(rng, ["small", "frac", "pos", "wide", "specks"]))
    c = F(rng.choice([0, 0, 1, -2]))
    kw = {}
    style = rng.choice(["scalar", "scalar", "vector", "frame"])
    frame = None
    if style == "scalar":
        if given[0]:
            kw["start"] = dom.scalar(start, rng)
        if given[1]:
            kw["end"] = dom.scalar(end, rng)
        if given[2]:
            kw["value"] = scalar_value(v, rng)
    else:
        if given[0]:
            kw["start"] = dom.vec([start], rng)[1]
        if given[1]:
            kw["end"] = dom.vec([end], rng)[1]
        if given[2]:
            kw["value"] = value_vector([v], rng)
        if style == "frame" and kw:
            frame = pd.DataFrame({"c" + k: list(a) for k, a in kw.items()})
            kw = {k: "c" + k for k in kw}
    if style == "vector" and given[2] and not (given[0] or given[1]):
        kw["value"] = scalar_value(v, rng)       # no vector says how long the columns are
    if style == "frame" and given[2] and not (given[0] or given[1]):
        kw, frame = {"value": scalar_value(v, rng)}, None
    want = SF.const(c, closed)
    if any(given):
        want = want.layered([(start, end, v if given[2] else F(1))])
    if c != 0 or rng.random() < 0.5:
        kw["initial_value"] = scalar_value(c, rng)
    if closed != "left" or rng.random() < 0.5:
        kw["closed"] = closed
    ctx.log("Stairs", frame, **kw)
    st = ctx.call("Stairs", sc.Stairs, frame, **kw)
    ctx.route("shorthand:%d%d%d" % tuple(given))
    check_same(st, want, dom, ctx, f"constructed with {sorted(kw)}")
    t = triple(rng, pts, [F(1), F(-2)])
    b.layer_scalar(st, t)
    check_same(st, want.layered([t]), dom, ctx, "after one more layer")
    ctx.note("short", want.key(), dom.kind)


KINDS = {"shorthand": shorthand, "history": history, "order": order, "broadcast": broadcast, "exh": exhaustive, "large": large}
REQUIRE = {"op:layer": 8000, "functions_observed": 6000}


def plan(tier):
    n = len(_T) * len(_R)
    if tier == "quick":
        return [("shorthand", 240), ("history", 1300), ("order", 500), ("broadcast", 1100), ("exh", n), ("large", 24)]
    return [("shorthand", 4000), ("history", 40000), ("order", 12000), ("broadcast", 30000), ("exh", n * 3), ("large", 500)]
