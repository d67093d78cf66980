"""C05 logical operators act pointwise on truthiness and propagate undefinedness."""
from __future__ import annotations

import operator

from .. import domains, gen, model as M
from ..build import Builder
from ..observe import check_same
from . import _pointwise

RULE = ("random and enumerated pairs of functions (5 domains, all construction routes, both internal forms) or a function "
        "and a scalar on either side, through operators, methods and reflected methods of & | ^, and ~ / invert / "
        "make_boolean; results compared pointwise with exact truth tables; half of them used in a follow-up operation")
OPS = ["logical_and", "logical_or", "logical_xor"]
KINDS, N, _ = _pointwise.make(
    OPS, {"logical_and": operator.and_, "logical_or": operator.or_, "logical_xor": operator.xor},
    {"logical_and": "logical_rand", "logical_or": "logical_ror", "logical_xor": "logical_rxor"})


def unary(ctx, i):
    rng, b = ctx.rng, Builder(ctx, domains.pick(ctx.rng))
    f = gen.sf(rng, b.dom, closed=rng.choice(["left", "right"]), hi=8)
    x = b.operand(f)
    for _ in range(3):
        k = rng.choice(["~", "invert", "make_boolean", "~~"])
        if k == "~":
            r, m = ctx.call("invert", lambda: ~x), M.invert(f)
        elif k == "invert":
            r, m = ctx.call("invert", x.invert), M.invert(f)
        elif k == "make_boolean":
            r, m = ctx.call("make_boolean", x.make_boolean), M.make_boolean(f)
        else:
            r, m = ctx.call("invert", lambda: ~~x), M.make_boolean(f)
        ctx.log(k)
        check_same(r, m, b.dom, ctx, k)
        if rng.random() < 0.3:
            _pointwise.follow_up(ctx, b, r, m.with_closed(r.closed))
    ctx.note("unary", f.key(), b.dom.kind)


KINDS["unary"] = unary
REQUIRE = {"functions_observed": 6000, "op:logical_and": 400, "op:logical_or": 400, "op:logical_xor": 400,
           "op:invert": 400, "op:make_boolean": 200}


def plan(tier):
    if tier == "quick":
        return [("pairs", 2000), ("scalars", 1600), ("mixed", 250), ("exh", N), ("large", 40), ("unary", 900)]
    return [("pairs", 50000), ("scalars", 50000), ("mixed", 5000), ("exh", N * 3), ("large", 800), ("unary", 25000)]
