"""C01 arithmetic is pointwise on the common domain."""
from __future__ import annotations

import operator
from fractions import Fraction as F

from .. import domains, gen, model as M
from ..build import Builder, scalar_value
from ..model import SF
from ..observe import check_same
from ._pointwise import follow_up

RULE = ("random pairs of step functions (5 domains, 10+ construction routes, both internal forms) or a function and a "
        "scalar, through operator, method and reflected spellings of + - * / and unary -, plus every pair of an "
        "enumerated small set; result read back by to_frame and one-sided limits at, between and beyond all points "
        "and compared with exact pointwise arithmetic")
OPS = ["add", "subtract", "multiply", "divide"]
PY = {"add": operator.add, "subtract": operator.sub, "multiply": operator.mul, "divide": operator.truediv}
RNAME = {"add": "radd", "subtract": "rsubtract", "multiply": "rmultiply", "divide": "rdivide"}
SCALARS = [F(0), F(0), F(1), F(-1), F(2), F(-2), F(1, 2), F(-5, 4), F(1000), None]


def apply(ctx, op, x, y):
    """x o y in a random spelling; x and y are Stairs or scalars, at least one a Stairs"""
    import staircase as sc
    k = ctx.rng.random()
    xs, ys = isinstance(x, sc.Stairs), isinstance(y, sc.Stairs)
    if k < 0.5:
        ctx.log(f"{op} operator", *( [] if xs else [x]), *([] if ys else [y]))
        return ctx.call(op, PY[op], x, y)
    if k < 0.8 and xs:
        ctx.log(f".{op}", *([] if ys else [y]))
        return ctx.call(op, getattr(x, op), y)
    if ys:
        ctx.log(f".{RNAME[op]}", *([] if xs else [x]))
        return ctx.call(RNAME[op], getattr(y, RNAME[op]), x)
    ctx.log(f".{op}", y)
    return ctx.call(op, getattr(x, op), y)


def after(ctx, b, r, m):
    """whatever works on a plainly built equal function works on the result"""
    if ctx.rng.random() < 0.3 and m.exact and all(v is None or abs(v) < 2**20 and v.denominator <= 2**12 for v in m.vals):
        follow_up(ctx, b, r, m.with_closed(r.closed))


def pairs(ctx, i):
    rng, b = ctx.rng, Builder(ctx, domains.pick(ctx.rng))
    dom = b.dom
    closed = rng.choice(["left", "right"])
    f, g = gen.pair(rng, dom, closed=closed)
    if rng.random() < 0.08:
        g = f
    elif rng.random() < 0.1:
        g = M.negate(f)
    if f.is_const and not g.is_const and rng.random() < 0.5 or g.is_const and rng.random() < 0.5:
        # step-free functions combine with either side
        g = g.with_closed(g.closed if g.pts else rng.choice(["left", "right"]))
    x, y = b.operand(f), b.operand(g)
    if rng.random() < 0.06:
        y, g = x, f
    for op in rng.sample(OPS, 2):
        r, m = apply(ctx, op, x, y), M.binary(op, f, g)
        check_same(r, m, dom, ctx, f"f {op} g")
        after(ctx, b, r, m)
        ctx.note(op, f.key(), g.key(), dom.kind)
    if rng.random() < 0.3:
        r = ctx.call("negate", (lambda: -x) if rng.random() < 0.5 else x.negate)
        check_same(r, M.negate(f), dom, ctx, "-f")
        after(ctx, b, r, M.negate(f))


def scalars(ctx, i):
    rng, b = ctx.rng, Builder(ctx, domains.pick(ctx.rng))
    dom = b.dom
    f = gen.sf(rng, dom, closed=rng.choice(["left", "right"]))
    x = b.operand(f)
    for _ in range(3):
        c = rng.choice(SCALARS + [v for v in f.vals if v is not None])
        s = scalar_value(c, rng)
        cs = SF.const(c, f.closed)
        op = rng.choice(OPS)
        if rng.random() < 0.5:
            r, m = apply(ctx, op, x, s), M.binary(op, f, cs)
            check_same(r, m, dom, ctx, f"f {op} {s!r}")
        else:
            r, m = apply(ctx, op, s, x), M.binary(op, cs, f)
            check_same(r, m, dom, ctx, f"{s!r} {op} f")
        after(ctx, b, r, m)
        ctx.note(op, f.key(), c, dom.kind)
    if rng.random() < 0.4:
        r = ctx.call("negate", (lambda: -x) if rng.random() < 0.5 else x.negate)
        check_same(r, M.negate(f), dom, ctx, "-f")


def mixed_labels(ctx, i):
    """operands over the same line, one labelled with ints and one with floats"""
    rng = ctx.rng
    a, c = Builder(ctx, domains.NumDomain("int", 0, 1, 1)), Builder(ctx, domains.NumDomain("float", 0, 1, 1))
    f, g = gen.pair(rng, a.dom, closed=rng.choice(["left", "right"]))
    x, y = (a.operand(f), c.operand(g))
    if rng.random() < 0.5:
        x, y, f, g = y, x, g, f
    op = rng.choice(OPS)
    check_same(apply(ctx, op, x, y), M.binary(op, f, g), c.dom, ctx, f"f {op} g (int with float labels)")
    ctx.note("mixed", op, f.key(), g.key())


# every pair out of a small set of functions on points {0,1}, every operator
_V = [None, F(0), F(1), F(-2)]
SMALL = [SF([], [v]) for v in _V] + [SF([F(p)], [u, v]) for p in (0, 1) for u in _V for v in _V if u != v] + \
        [SF([F(0), F(1)], [u, v, w]) for u in (None, F(0), F(3)) for v in (None, F(0), F(2)) for w in (None, F(0), F(-1))
         if u != v and v != w]


def exhaustive(ctx, i):
    """one left operand, every right operand, one operator"""
    dom = domains.NumDomain("int", 0, 1, 1)
    b = Builder(ctx, dom)
    op = OPS[i % 4]
    f = SMALL[(i // 4) % len(SMALL)]
    x = b.operand(f)
    for g in SMALL:
        y = b.operand(g, depth=1)
        check_same(apply(ctx, op, x, y), M.binary(op, f, g), dom, ctx, f"{f} {op} {g}")
    ctx.note("exh", op, f.key())


def large(ctx, i):
    """many steps, long vectors"""
    rng, b = ctx.rng, Builder(ctx, domains.pick(ctx.rng))
    dom = b.dom
    n = gen.big(rng, 150, 300, 700)
    closed = rng.choice(["left", "right"])
    f = gen.sf(rng, dom, closed=closed, n=n)
    g = gen.sf(rng, dom, closed=closed, n=rng.choice([1, n // 3, n]))
    x = b.operand(f, depth=0, route="r_vector" if not f.has_undefined() else "u_from_values")
    y = b.operand(g, depth=0, route="r_vector" if not g.has_undefined() else "u_from_values")
    op = OPS[i % 4]
    check_same(apply(ctx, op, x, y), M.binary(op, f, g), dom, ctx, f"f {op} g")
    ctx.note("large", op, f.key(), g.key())


def infinite(ctx, i):
    """values at the end of the float range: whatever the result is, it is never infinite"""
    rng, b = ctx.rng, Builder(ctx, domains.pick(ctx.rng))
    dom = b.dom
    pal = [F(2)**1000, -F(2)**1023, F(2)**1023, F(2)**600, F(2)**-600, F(0), F(1)]
    mk = lambda: gen.sf(rng, dom, pal=pal, closed="left", hi=4)
    f, g = mk(), mk()
    x, y = b.build(f, route="u_from_values"), b.build(g, route="u_from_values")
    op = rng.choice(OPS)
    k = rng.random()
    if k < 0.3:
        g = SF.const(rng.choice(pal), "left")
        y = float(g.vals[0])
    if rng.random() < 0.5:
        x, y, f, g = y, x, g, f
    r = apply(ctx, op, x, y)
    if op in ("multiply", "divide"):
        top = F(2)**1024
        m = M.binary(op, f, g)
        m = SF(m.pts, [None if v is None or abs(v) >= top else v for v in m.vals], m.closed)
        m.exact = all(map(M.representable, m.vals))      # products and quotients are rounded one by one
        check_same(r, m, dom, ctx, f"{f} {op} {g}")
    vals = [*r.to_frame()["value"]]
    if any(abs(v) == float("inf") for v in vals):
        if op in ("add", "subtract"):
            ctx.tags.add("sum-beyond-the-float-range")
        ctx.expect(False, f"{op} of {f} and {g} takes an infinite value: {vals}")
    ctx.count("range_ends")
    ctx.note("infinite", op, f.key(), g.key())


KINDS = {"infinite": infinite, "pairs": pairs, "scalars": scalars, "mixed": mixed_labels, "exh": exhaustive, "large": large}
REQUIRE = {"functions_observed": 5000, "op:divide": 500, "op:rdivide": 100, "op:negate": 200}


def plan(tier):
    n = len(SMALL) * 4
    if tier == "quick":
        return [("pairs", 2600), ("scalars", 1600), ("mixed", 300), ("exh", n), ("large", 40), ("infinite", 200)]
    return [("pairs", 60000), ("scalars", 40000), ("mixed", 6000), ("exh", n * 3), ("large", 800), ("infinite", 3000)]
