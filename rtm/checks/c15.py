"""C15 the closed side is preserved; opposite sides are never silently merged."""
from __future__ import annotations

import copy
from fractions import Fraction as F

import numpy as np
import pandas as pd

import staircase as sc
from staircase.core.exceptions import ClosedMismatchError
from .. import domains, gen, model as M, ops
from ..build import Builder, pynum, scalar_value
from ..ctx import Skip, Violation
from ..model import SF
from ..observe import Mismatch, frame, num, on_grid
from . import c13
from ._stats import stat_sf

RULE = ("every catalogued operation on operands of each closed side and shape (steps, step-free, everywhere undefined; results "
        "with steps, step-free, undefined) of every provenance: the side reported and the side observable by sampling at the "
        "steps of the result; every combining operation (operators, reflected methods, mask / where / fillna, cov / corr, "
        "aggregations in every container, array operators) on opposite sides raises ClosedMismatchError, and does not when a "
        "partner is step-free; programs; tuple shorthands, slicing, resample and statistics on right-closed input")
SIDES = ["left", "right"]


def expected_side(fs):
    return M.result_closed(*fs)


def check_side(ctx, r, side, m, dom, what):
    if not isinstance(r, sc.Stairs):
        raise Mismatch(f"{what} is a {type(r).__name__}")
    ctx.count("sides_observed")
    if r.closed != side:
        raise Mismatch(f"{what} is {r.closed}-closed, expected {side}")
    # observable at the steps
    o = frame(copy.deepcopy(r), dom, ctx.call)
    if o.pts:
        k = ctx.rng.randrange(len(o.pts))
        xs = on_grid([o.pts[k]], dom)
        for x in xs:
            i = o.pts.index(x)
            want = o.vals[i + 1] if side == "left" else o.vals[i]
            got = num(ctx.call("sample", r, dom.enc(x)))
            ctx.count("side_samples")
            if got != want:
                raise Mismatch(f"{what} at its step {x} is {got}, expected {want} ({side}-closed): {o}")


def shape(rng, dom, side, kind=None):
    kind = kind or rng.choice(["steps", "steps", "steps", "const", "undef", "rich"])
    if kind == "const":
        return SF.const(rng.choice([F(0), F(1), F(2)]), side)
    if kind == "undef":
        return SF.const(None, side)
    if kind == "rich":
        f = gen.sf(rng, dom, gen.PALETTES["bool"], side, lo=1, hi=3)
    else:
        f = gen.sf(rng, dom, closed=side, lo=1, hi=5)
    return f


def with_steps(rng, dom, side):
    while True:
        f = shape(rng, dom, side, rng.choice(["steps", "rich"]))
        if f.pts:
            return f


def consistent(rng, dom, n):
    """operands whose members with steps share one side"""
    side = rng.choice(SIDES)
    fs = [shape(rng, dom, side) for _ in range(n)]
    return [f if f.pts else f.with_closed(rng.choice(SIDES)) for f in fs]


def op(ctx, i):
    rng = ctx.rng
    b = Builder(ctx, domains.pick(rng))
    o = ops.ALL[i % len(ops.ALL)]
    n = o.arity if o.arity != "n" else rng.randint(1, 4)
    fs = consistent(rng, b.dom, n)
    if n > 1 and rng.random() < 0.2:         # results that cancel to nothing
        fs[1] = fs[0]
    elif n == 2 and rng.random() < 0.1 and fs[0].pts:
        fs[1] = SF.const(rng.choice([None, F(0), F(1)]), "right" if fs[0].closed == "left" else "left")
        if rng.random() < 0.5:
            fs.reverse()
    xs = [b.operand(f) for f in fs]
    p = o.draw(rng, b.dom, fs)
    try:
        r = o.run(b, xs, p)
    except Violation as e:
        if isinstance(e.__cause__, ClosedMismatchError):
            raise Mismatch(f"{o}{p} of {fs} raised ClosedMismatchError")
        raise
    side = expected_side(fs)
    if n > 1 and not any(f.pts for f in fs) and o.name in ops.REFLECTED and len({f.closed for f in fs}) > 1:
        return                                # which one the receiver is depends on the spelling
    check_side(ctx, r, side, None, b.dom, f"{o}{p} of {fs}")
    # the side survives further steps
    if rng.random() < 0.4:
        r2 = ctx.call("copy", r.copy)
        check_side(ctx, r2, side, None, b.dom, f"copy of {o}{p} of {fs}")
    ctx.count("ops:" + o.group)
    ctx.note(o.name, p, [f.key() for f in fs], [f.closed for f in fs], b.dom.kind)


COMBINING = [o for o in ops.ALL if o.arity in (2, "n")]


def mismatch(ctx, i):
    """opposite sides, both with steps"""
    rng = ctx.rng
    b = Builder(ctx, domains.pick(rng))
    o = COMBINING[i % len(COMBINING)]
    side = rng.choice(SIDES)
    other = "right" if side == "left" else "left"
    fs = [with_steps(rng, b.dom, side), with_steps(rng, b.dom, other)]
    if rng.random() < 0.25:
        fs[1] = SF(fs[0].pts, fs[0].vals, other)      # the same function but for the side
    elif rng.random() < 0.2:
        fs[1] = fs[1].shift(fs[0].pts[-1] - fs[1].pts[0] + 1)      # disjoint
    if o.arity == "n":
        for _ in range(rng.randint(0, 2)):
            fs.insert(rng.randrange(len(fs) + 1), shape(rng, b.dom, rng.choice(SIDES)))
    if rng.random() < 0.3:
        rng.shuffle(fs)
    xs = [b.operand(f) for f in fs]
    ctx.counts["calls"] += 1
    try:
        r = o.run(b, xs, ())
    except Violation as e:
        if isinstance(e.__cause__, ClosedMismatchError):
            ctx.count("mismatches_raised")
            ctx.count("raised:" + o.group)
            ctx.note(o.name, [f.key() for f in fs], [f.closed for f in fs])
            return
        raise Mismatch(f"{o} of {fs}: {e}, expected ClosedMismatchError")
    raise Mismatch(f"{o} of {fs} did not raise ClosedMismatchError (result {r.closed}-closed)")


def raises_mismatch(ctx, what, fn):
    ctx.counts["calls"] += 1
    try:
        r = fn()
    except ClosedMismatchError:
        ctx.count("mismatches_raised")
        return
    except Exception as e:
        raise Mismatch(f"{what} raised {type(e).__name__}: {e}, expected ClosedMismatchError")
    raise Mismatch(f"{what} did not raise ClosedMismatchError (returned {type(r).__name__})")


def moments(ctx, i):
    """cov / corr"""
    rng = ctx.rng
    b = Builder(ctx, domains.pick(rng))
    dom = b.dom
    name = rng.choice(["cov", "corr"])
    side = rng.choice(SIDES)
    other = "right" if side == "left" else "left"
    f = stat_sf(rng, dom, closed=side, pals=["small", "pos"])
    lo, hi = f.pts[0] - 1, f.pts[-1] + 1
    w = (dom.enc(lo), dom.enc(hi))
    k = rng.choice(["mismatch", "mismatch", "const", "matrix", "same"])
    x = b.operand(f)
    if k == "mismatch":
        g = stat_sf(rng, dom, closed=other, pals=["small", "pos"])
        y = b.operand(g)
        if rng.random() < 0.5:
            x, y = y, x
        ctx.log(name, f, g)
        kw = {"where": w} if rng.random() < 0.7 else {}
        raises_mismatch(ctx, f"{name} of {f} and {g} {kw}", lambda: getattr(x, name)(y, **kw))
    elif k == "matrix":
        g = stat_sf(rng, dom, closed=other, pals=["small", "pos"])
        arr = [x, b.operand(f), b.operand(g)]
        rng.shuffle(arr)
        c = rng.choice([lambda: getattr(sc, name)(arr, where=w), lambda: getattr(sc.StairsArray(arr), name)(where=w)])
        raises_mismatch(ctx, f"{name} matrix of {f} and {g}", c)
    elif k == "const":
        g = SF.const(F(rng.choice([0, 1, 2])), other)
        y = b.operand(g)
        if rng.random() < 0.5:
            x, y = y, x
        ctx.log(name, f, g, w)
        try:
            getattr(x, name)(y, where=w)
        except ClosedMismatchError:
            raise Mismatch(f"{name} of {f} and step-free {g} over {lo}..{hi} raised ClosedMismatchError")
        except Exception as e:
            ctx.count("moment_other_error")
        ctx.count("step_free_combined")
    else:
        g = stat_sf(rng, dom, closed=side, pals=["small", "pos"])
        try:
            getattr(x, name)(b.operand(g), where=w)
        except ClosedMismatchError:
            raise Mismatch(f"{name} of {f} and {g} raised ClosedMismatchError")
        except Exception:
            ctx.count("moment_other_error")
        ctx.count("step_free_combined")
    ctx.note("moments", name, k, f.key(), side)


def arrays(ctx, i):
    """element-wise array operators, and collections through every entrance"""
    rng = ctx.rng
    b = Builder(ctx, domains.pick(rng))
    side = rng.choice(SIDES)
    other = "right" if side == "left" else "left"
    fs = [with_steps(rng, b.dom, side) for _ in range(rng.randint(1, 3))]
    name = rng.choice(["add", "subtract", "multiply", "divide", "gt", "ge", "lt", "le", "eq", "ne"])
    xs = [b.operand(f) for f in fs]
    bad = rng.random() < 0.5
    gside = other if bad else side
    if rng.random() < 0.5:
        g = with_steps(rng, b.dom, gside)
        arg = b.operand(g)
        gs = [g] * len(fs)
    else:
        gs = [with_steps(rng, b.dom, side) for _ in fs]
        if bad:
            gs[rng.randrange(len(gs))] = with_steps(rng, b.dom, other)
        elif rng.random() < 0.5:
            gs[0] = SF.const(F(1), other)
        arg = sc.StairsArray([b.operand(g) for g in gs])
    arr = sc.StairsArray(xs)
    ctx.log("array", name, bad)
    fn = ops.PYOPS[name] if rng.random() < 0.5 else lambda a, c: getattr(a, name)(c)
    what = f"array {name} of {fs} with {gs}"
    if bad:
        raises_mismatch(ctx, what, lambda: fn(arr, arg))
    else:
        r = ctx.call("array:" + name, fn, arr, arg)
        for f, g, s in zip(fs, gs, r):
            check_side(ctx, s, side, None, b.dom, what)
    ctx.note("arrays", name, bad, [f.key() for f in fs], side)


def no_mismatch(ctx, i):
    """single-operand operations on right-closed (and left-closed) input"""
    rng = ctx.rng
    b = Builder(ctx, domains.pick(rng))
    dom = b.dom
    side = rng.choice(["right", "right", "left"])
    f = stat_sf(rng, dom, closed=side, pals=["small", "pos", "bool"])
    x = b.operand(f)
    lo, hi = f.pts[0] - 1, f.pts[-1] + 2
    cut = sorted({lo, hi} | {F(rng.randint(int(lo), int(hi))) for _ in range(3)})
    c = pd.IntervalIndex.from_breaks(dom.array(cut), closed=rng.choice(["left", "right"]))
    a, z = dom.enc(f.pts[0]), dom.enc(f.pts[-1])
    k = ["resample", "mask_t", "where_t", "clip", "slices", "rolling", "describe", "agg", "hist", "diff", "shift", "layer",
         "vlayer", "var", "deepcopy", "ctor", "from_values", "slice_stats"][i % 18]
    ctx.log(k)
    try:
        if k == "resample":
            r = ctx.call(k, lambda: x.slice(c).resample(rng.choice(["mean", "max", "min"])))
        elif k == "mask_t":
            r = ctx.call(k, x.mask, rng.choice([(a, z), (None, z), (a, None)]))
        elif k == "where_t":
            r = ctx.call(k, x.where, rng.choice([(a, z), (None, z), (a, None)]))
        elif k == "clip":
            r = ctx.call(k, x.clip, *rng.choice([(a, z), (None, z), (a, None), (None, None)]))
        elif k == "slices":
            for s in ctx.call(k, lambda: x.slice(c).apply(sc.Stairs.copy)):
                check_side(ctx, s, side, None, dom, "slice of " + repr(f))
            r = x
        elif k == "rolling":
            ctx.call(k, x.rolling_mean, (dom.delta(F(-1)), dom.delta(F(1))))
            r = x
        elif k == "describe":
            ctx.call(k, x.describe), ctx.call(k, x.describe, where=(dom.enc(lo), dom.enc(hi)))
            r = x
        elif k == "agg":
            ctx.call(k, x.agg, ["mean", "max", "integral", "var"], where=(dom.enc(lo), dom.enc(hi)))
            r = x
        elif k == "hist":
            ctx.call(k, x.hist)
            r = x
        elif k == "diff":
            r = ctx.call(k, x.diff, dom.delta(F(rng.choice([0, 1, 2]))))
        elif k == "shift":
            r = ctx.call(k, x.shift, dom.delta(F(2)))
        elif k in ("layer", "vlayer"):
            (b.layer_scalar if k == "layer" else (lambda s, t: b.layer_vector(s, [t, t])))(x, (F(1), rng.choice([None, F(3)]), F(2)))
            r = x
        elif k == "var":
            ctx.call(k, x.var), ctx.call(k, x.std)
            r = x
        elif k == "deepcopy":
            r = ctx.call(k, copy.deepcopy, x)
        elif k == "ctor":
            r = ctx.call(k, sc.Stairs, start=dom.enc(F(1)), end=dom.enc(F(2)), closed=side)
        elif k == "from_values":
            r = ctx.call(k, sc.Stairs.from_values, 0, pd.Series([1.0, 2.0], index=dom.array([F(1), F(2)])), closed=side)
        else:
            sl = x.slice(c)
            for n in ("mean", "max", "min", "integral"):
                ctx.call("slice." + n, getattr(sl, n))
            r = x
    except Violation as e:
        if isinstance(e.__cause__, ClosedMismatchError):
            raise Mismatch(f"{k} of {f} raised ClosedMismatchError")
        raise
    check_side(ctx, r, side, None, dom, f"{k} of {f}")
    ctx.count("single:" + k)
    ctx.note(k, f.key(), side, dom.kind)


def program(ctx, i):
    """compositions: every intermediate result has the side of the steps that went in"""
    rng = ctx.rng
    b = Builder(ctx, domains.pick(rng))
    side = rng.choice(["right", "right", "left"])
    other = "right" if side == "left" else "left"
    fs = [shape(rng, b.dom, side) for _ in range(3)] + [SF.const(F(1), other)]
    if not any(f.pts for f in fs):
        fs[0] = with_steps(rng, b.dom, side)
    live = [(b.operand(f), f) for f in fs]
    for step in range(rng.randint(2, 6)):
        o = rng.choice(ops.ALL)
        n = o.arity if o.arity != "n" else rng.randint(1, 3)
        args = [rng.choice(live) for _ in range(n)]
        afs = [f for _, f in args]
        bad = len({f.closed for f in afs if f.pts}) > 1     # a step-free one may have been given steps by clip or mask
        p = o.draw(rng, b.dom, afs)
        try:
            r = o.run(b, [x for x, _ in args], p)
        except Violation as e:
            if isinstance(e.__cause__, ClosedMismatchError):
                if bad:
                    ctx.count("mismatches_raised")
                    continue
                raise Mismatch(f"step {step}: {o}{p} of {afs} raised ClosedMismatchError")
            raise Skip(f"{o}: {e}")          # other failures are C16's
        if bad:
            raise Mismatch(f"step {step}: {o}{p} of {afs} did not raise ClosedMismatchError")
        want = expected_side(afs)
        if not any(f.pts for f in afs) and len({f.closed for f in afs}) > 1:
            want = r.closed
        check_side(ctx, r, want, None, b.dom, f"step {step}: {o}{p} of {afs}")
        obs = c13.snapshot(ctx, r, "result", b.dom)
        if len(obs.f.pts) < 40 and all(v is None or abs(v) < 2**60 for v in obs.f.vals):
            live.append((r, obs.f))
    ctx.count("programs")
    ctx.note("program", side, [f.key() for _, f in live])


def exhaustive(ctx, i):
    """operation x (shape, side) of each operand, on one pair of step points"""
    rng = ctx.rng
    dom = domains.NumDomain("int", 0, 1, 1)
    b = Builder(ctx, dom)
    o = COMBINING[i % len(COMBINING)]
    shapes = [SF([F(0), F(2)], [F(0), F(1), F(0)]), SF([F(1)], [None, F(2)]), SF([F(1)], [F(2), None]),
              SF.const(F(0)), SF.const(F(1)), SF.const(None)]
    sides = [(s, t) for s in SIDES for t in SIDES]
    s, t = sides[(i // len(COMBINING)) % 4]
    for f in shapes:
        for g in shapes:
            f, g = f.with_closed(s), g.with_closed(t)
            x, y = b.operand(f, depth=0), b.operand(g, depth=0)
            bad = f.pts and g.pts and s != t
            try:
                r = o.run(b, [x, y], ())
            except Violation as e:
                if not isinstance(e.__cause__, ClosedMismatchError):
                    raise
                ctx.count("mismatches_raised")
                if not bad:
                    raise Mismatch(f"{o} of {f}, {g} raised ClosedMismatchError")
                continue
            if bad:
                raise Mismatch(f"{o} of {f}, {g} did not raise ClosedMismatchError")
            if not f.pts and not g.pts and s != t and o.name in ops.REFLECTED:
                continue
            check_side(ctx, r, expected_side([f, g]), None, dom, f"{o} of {f}, {g}")
    ctx.note("exh", o.name, s, t)


KINDS = {"op": op, "mismatch": mismatch, "moments": moments, "arrays": arrays, "single": no_mismatch, "program": program,
         "exh": exhaustive}
REQUIRE = {"sides_observed": 5000, "side_samples": 2500, "mismatches_raised": 1500, "raised:binary": 300, "raised:masking": 70,
           "raised:agg": 150, "step_free_combined": 80, "programs": 250}


def plan(tier):
    n = len(COMBINING) * 4
    if tier == "quick":
        return [("op", 1500), ("mismatch", 900), ("moments", 350), ("arrays", 350), ("single", 720), ("program", 400), ("exh", n)]
    return [("op", 60000), ("mismatch", 30000), ("moments", 8000), ("arrays", 10000), ("single", 18000), ("program", 20000),
            ("exh", n * 4)]
