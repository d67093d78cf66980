"""shared by C04 / C05: binary operators with a 0/1 result"""
from __future__ import annotations

from fractions import Fraction as F

import staircase as sc
from .. import domains, gen, model as M
from ..build import Builder, scalar_value
from ..ctx import Violation
from ..model import SF
from ..observe import Mismatch, check_same
from ._stats import mean_tol

SCALARS = [F(0), F(0), F(1), F(-1), F(2), F(1, 2), F(-5, 4), F(1000), None]


def follow_up(ctx, b, r, m):
    """the result is an ordinary step function: whatever works on a plainly built
    equal function works on it"""
    state = ctx.rng.getstate()
    try:
        _follow_up(ctx, b, r, m)
    except (Violation, Mismatch):
        if not m.exact:
            raise
        ctx.rng.setstate(state)
        try:
            _follow_up(ctx, b, b.plain(m), m)
        except (Violation, Mismatch):
            ctx.count("follow_up_fails_on_any_function")   # the follow-up's own fault
            return
        raise
    ctx.count("follow_ups")


def _follow_up(ctx, b, r, m):
    rng, dom = ctx.rng, b.dom
    k = rng.choice(["layer", "vlayer", "add", "identical", "negate", "mult", "invert", "compare", "clip", "mean",
                    "mask", "copy", "fillna", "sub", "div", "views"])
    ctx.route("follow:" + k)
    ctx.log("follow", k)
    pts = list(m.pts) or [F(0), F(1)]
    t = (rng.choice(pts + [None]), rng.choice(pts + [None]), F(rng.choice([1, 2, -1])))
    if k == "layer":
        b.layer_scalar(r, t)
        check_same(r, m.layered([t]), dom, ctx, "result after layer")
    elif k == "vlayer":
        ts = [t, (pts[0], None, F(3))]
        b.layer_vector(r, ts)
        check_same(r, m.layered(ts), dom, ctx, "result after vector layer")
    elif k == "add":
        g = gen.sf(rng, dom, closed=r.closed)
        check_same(ctx.call("add", lambda: r + b.operand(g)), M.binary("add", m, g), dom, ctx, "result + g")
    elif k == "sub":
        g = gen.sf(rng, dom, closed=r.closed)
        y = b.operand(g)
        check_same(ctx.call("subtract", lambda: y - r), M.binary("subtract", g, m), dom, ctx, "g - result")
    elif k == "div":
        g = gen.sf(rng, dom, closed=r.closed)
        y = b.operand(g)
        check_same(ctx.call("divide", lambda: y / r), M.binary("divide", g, m), dom, ctx, "g / result")
    elif k == "identical":
        ctx.expect(ctx.call("identical", r.identical, b.operand(m.with_closed(r.closed))) is True or not m.exact,
                   f"result is not identical() to an equal function {m}")
        d = m.layered([(pts[0], None, F(5))]).with_closed(r.closed)
        ctx.expect(not d.exact or m.has_undefined() or not ctx.call("identical", r.identical, b.operand(d)),
                   "result is identical() to a different function")
    elif k == "negate":
        check_same(ctx.call("negate", lambda: -r), M.negate(m), dom, ctx, "-result")
    elif k == "mult":
        check_same(ctx.call("multiply", lambda: r * 3), m.map(lambda v: None if v is None else 3 * v), dom, ctx, "result * 3")
    elif k == "invert":
        check_same(ctx.call("invert", lambda: ~r), M.invert(m), dom, ctx, "~result")
    elif k == "compare":
        check_same(ctx.call("gt", lambda: r > 0), M.binary("gt", m, SF.const(F(0))), dom, ctx, "result > 0")
    elif k == "clip":
        check_same(ctx.call("clip", r.clip, dom.enc(F(1)), dom.enc(F(4))), m.restrict(F(1), F(4)), dom, ctx, "result.clip")
    elif k == "mean" and m.finite_defined():
        o = ctx.call("mean", r.mean)
        ctx.expect(abs(float(o) - float(m.mean())) <= 10 * mean_tol(m, dom) + 1e-9 * abs(float(m.mean())),
                   f"mean of the result is {o}, expected {float(m.mean())}")
    elif k == "mask":
        g = gen.sf(rng, dom, closed=r.closed)
        y = b.operand(g)
        check_same(ctx.call("where", y.where, r), M.where(g, m), dom, ctx, "g.where(result)")
    elif k == "copy":
        check_same(ctx.call("copy", r.copy), m, dom, ctx, "copy of the result")
    elif k == "fillna":
        check_same(ctx.call("fillna", r.fillna, 7), M.fillna(m, F(7)), dom, ctx, "result.fillna")
    elif k == "views":
        ctx.call("step_changes", lambda: r.step_changes)
        check_same(r, m, dom, ctx, "result after step_changes")


def make(ops, PY, ROPS, use_follow=True):
    """PY: operator functions; ROPS: {op: reflected method name} (may be empty)"""
    def apply(ctx, op, x, y):
        k = ctx.rng.random()
        xs, ys = isinstance(x, sc.Stairs), isinstance(y, sc.Stairs)
        if k < 0.55 or not xs and not (ys and op in ROPS):
            ctx.log(f"operator {op}", *([] if xs else [x]), *([] if ys else [y]))
            return ctx.call(op, PY[op], x, y)
        if op in ROPS and ys and (not xs or k > 0.85):
            ctx.log(f".{ROPS[op]}", *([] if xs else [x]))
            return ctx.call(ROPS[op], getattr(y, ROPS[op]), x)
        ctx.log(f".{op}", *([] if ys else [y]))
        return ctx.call(op, getattr(x, op), y)

    def after(ctx, b, r, m):
        if use_follow and ctx.rng.random() < 0.5:
            follow_up(ctx, b, r, m.with_closed(r.closed))

    def pairs(ctx, i):
        rng, b = ctx.rng, Builder(ctx, domains.pick(ctx.rng))
        dom = b.dom
        closed = rng.choice(["left", "right"])
        pal = gen.palette(rng, ["small", "small", "bool", "two", "frac", "tiny", "wide", "pos", "specks"])
        f, g = gen.pair(rng, dom, pal, closed=closed)
        if rng.random() < 0.1:
            g = f
        elif rng.random() < 0.1 and f.pts:
            # differ on one piece only
            vals = list(f.vals)
            j = rng.randrange(len(vals))
            vals[j] = None if vals[j] is None or rng.random() < 0.2 else vals[j] + rng.choice([F(1), F(-1), F(1, 2**40)])
            g = SF(f.pts, vals, closed)
            if not g.exact:         # too close for floats to tell them apart for sure
                g = f
        if not g.pts:
            g = g.with_closed(rng.choice(["left", "right"]))
        elif not f.pts:
            f = f.with_closed(rng.choice(["left", "right"]))
        x, y = b.operand(f), b.operand(g)
        if rng.random() < 0.05:
            y, g = x, f
        for op in rng.sample(ops, 2):
            m = M.binary(op, f, g)
            r = apply(ctx, op, x, y)
            check_same(r, m, dom, ctx, f"f {op} g")
            after(ctx, b, r, m)
            ctx.note(op, f.key(), g.key(), dom.kind)

    def scalars(ctx, i):
        rng, b = ctx.rng, Builder(ctx, domains.pick(ctx.rng))
        dom = b.dom
        f = gen.sf(rng, dom, closed=rng.choice(["left", "right"]))
        x = b.operand(f)
        for _ in range(2):
            c = rng.choice(SCALARS + 2 * [v for v in f.vals if v is not None])
            s = scalar_value(c, rng)
            cs = SF.const(c, f.closed)
            op = rng.choice(ops)
            if rng.random() < 0.5:
                r, m = apply(ctx, op, x, s), M.binary(op, f, cs)
                check_same(r, m, dom, ctx, f"f {op} {s!r}")
            else:
                r, m = apply(ctx, op, s, x), M.binary(op, cs, f)
                check_same(r, m, dom, ctx, f"{s!r} {op} f")
            after(ctx, b, r, m)
            ctx.note(op, f.key(), c, dom.kind)

    def mixed(ctx, i):
        rng = ctx.rng
        a, c = Builder(ctx, domains.NumDomain("int", 0, 1, 1)), Builder(ctx, domains.NumDomain("float", 0, 1, 1))
        f, g = gen.pair(rng, a.dom, closed=rng.choice(["left", "right"]))
        x, y = a.operand(f), c.operand(g)
        if rng.random() < 0.5:
            x, y, f, g = y, x, g, f
        op = rng.choice(ops)
        check_same(apply(ctx, op, x, y), M.binary(op, f, g), c.dom, ctx, f"f {op} g (int with float labels)")
        ctx.note("mixed", op, f.key(), g.key())

    V = [None, F(0), F(1), F(-2)]
    SMALL = [SF([], [v]) for v in V] + [SF([F(p)], [u, v]) for p in (0, 1) for u in V for v in V if u != v] + \
            [SF([F(0), F(1)], [u, v, w]) for u in (None, F(0), F(3)) for v in (None, F(0), F(2))
             for w in (None, F(0), F(-1)) if u != v and v != w]

    def exhaustive(ctx, i):
        dom = domains.NumDomain("int", 0, 1, 1)
        b = Builder(ctx, dom)
        op = ops[i % len(ops)]
        f = SMALL[(i // len(ops)) % len(SMALL)]
        x = b.operand(f)
        for g in SMALL:
            y = b.operand(g, depth=1)
            check_same(apply(ctx, op, x, y), M.binary(op, f, g), dom, ctx, f"{f} {op} {g}")
        ctx.note("exh", op, f.key())

    def large(ctx, i):
        rng, b = ctx.rng, Builder(ctx, domains.pick(ctx.rng))
        dom = b.dom
        n = gen.big(rng, 150, 300)
        closed = rng.choice(["left", "right"])
        f = gen.sf(rng, dom, closed=closed, n=n)
        g = gen.sf(rng, dom, closed=closed, n=rng.choice([1, n // 3, n]))
        x, y = b.operand(f, depth=0), b.operand(g, depth=0)
        op = ops[i % len(ops)]
        m = M.binary(op, f, g)
        r = apply(ctx, op, x, y)
        check_same(r, m, dom, ctx, f"f {op} g")
        ctx.note("large", op, f.key(), g.key())

    return dict(pairs=pairs, scalars=scalars, mixed=mixed, exh=exhaustive, large=large), len(SMALL) * len(ops), apply
