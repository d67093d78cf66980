"""C04 relational operators are pointwise 0/1 indicators on the common domain."""
from __future__ import annotations

import operator

from . import _pointwise

RULE = ("random and enumerated pairs of functions (5 domains, all construction routes, both internal forms) or a function "
        "and a scalar in every numeric flavour on either side, through operators and methods of < <= > >= == !=; the "
        "result compared pointwise with the exact indicator, then used in a follow-up operation (layer, arithmetic, "
        "identical, clip, mean, ...) that is checked too")
OPS = ["lt", "le", "gt", "ge", "eq", "ne"]
KINDS, N, _ = _pointwise.make(OPS, {o: getattr(operator, o) for o in OPS}, {})
REQUIRE = {"functions_observed": 6000, "op:eq": 400, "op:lt": 400, "op:ne": 400}


def plan(tier):
    if tier == "quick":
        return [("pairs", 2000), ("scalars", 1800), ("mixed", 250), ("exh", N), ("large", 40)]
    return [("pairs", 50000), ("scalars", 50000), ("mixed", 5000), ("exh", N * 3), ("large", 800)]
