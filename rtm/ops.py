"""Catalogue of the public operations that return a step function on the same domain.

An operation is split into: `draw` (abstract parameters, no labels), `run` (the real
calls) and `model` (the pointwise definition), so that one program can be replayed in
another domain, with other call styles, or on differently built operands.
"""
from __future__ import annotations

import operator
from fractions import Fraction as F

import numpy as np
import pandas as pd

import staircase as sc
from . import model as M
from .build import pynum, scalar_value
from .domains import any_index
from .model import SF

SCALARS = [F(0), F(0), F(1), F(1), F(-1), F(2), F(3), F(1, 2), F(-4), None]
FILL = [F(0), F(1), F(-2), F(7), F(1, 4), None]
METHODS = ["ffill", "pad", "bfill", "backfill"]

PYOPS = {"add": operator.add, "subtract": operator.sub, "multiply": operator.mul, "divide": operator.truediv,
         "lt": operator.lt, "le": operator.le, "gt": operator.gt, "ge": operator.ge, "eq": operator.eq, "ne": operator.ne,
         "logical_and": operator.and_, "logical_or": operator.or_, "logical_xor": operator.xor}
REFLECTED = {"add": "radd", "subtract": "rsubtract", "multiply": "rmultiply", "divide": "rdivide"}


class Op:
    def __init__(self, name, arity, group, draw, run, model):
        self.name, self.arity, self.group = name, arity, group
        self.draw, self.run, self.model = draw, run, model

    def __repr__(self):
        return self.name


OPS: dict[str, Op] = {}


def op(name, arity, group, draw=lambda rng, dom, fs: (), model=None):
    def deco(run):
        OPS[name] = Op(name, arity, group, draw, run, model)
        return run
    return deco


def _scalar(b, v):
    return scalar_value(v, b.rng)


# ---------------------------------------------------------------------- binary
def _binary(name):
    def run(b, xs, p):
        x, y = xs
        k = b.rng.random()
        b.ctx.log("f", name, "g")
        if k < 0.6:
            return b.ctx.call(name, PYOPS[name], x, y)
        if name in REFLECTED and k > 0.85:
            return b.ctx.call(name, getattr(y, REFLECTED[name]), x)
        return b.ctx.call(name, getattr(x, name), y)
    OPS[name] = Op(name, 2, "binary", lambda rng, dom, fs: (), run, lambda fs, p: M.binary(name, fs[0], fs[1]))

    def run_s(b, xs, p):
        v, left = p
        s, (x,) = _scalar(b, v), xs
        b.ctx.log(f"{s!r} {name} f" if left else f"f {name} {s!r}")
        k = b.rng.random()
        if left:
            if name in REFLECTED and k < 0.4:
                return b.ctx.call(name, getattr(x, REFLECTED[name]), s)
            return b.ctx.call(name, PYOPS[name], s, x)
        if k < 0.6:
            return b.ctx.call(name, PYOPS[name], x, s)
        return b.ctx.call(name, getattr(x, name), s)

    def model_s(fs, p):
        v, left = p
        c = SF.const(v, fs[0].closed)
        return M.binary(name, c, fs[0]) if left else M.binary(name, fs[0], c)

    def draw_s(rng, dom, fs):
        vs = [v for v in fs[0].vals if v is not None]
        return rng.choice(SCALARS + vs[:4]), rng.random() < 0.5
    OPS[name + ":scalar"] = Op(name + ":scalar", 1, "scalar", draw_s, run_s, model_s)


for _n in M.BINARY:
    _binary(_n)


# ----------------------------------------------------------------------- unary
def _unary(name, fn, call):
    def run(b, xs, p):
        b.ctx.log(name)
        return b.ctx.call(name, call(b), xs[0])
    OPS[name] = Op(name, 1, "unary", lambda rng, dom, fs: (), run, lambda fs, p: fn(fs[0]))


_pick = lambda *fns: (lambda b: b.rng.choice(fns))
_unary("negate", M.negate, _pick(operator.neg, lambda x: x.negate()))
_unary("invert", M.invert, _pick(operator.invert, lambda x: x.invert()))
_unary("make_boolean", M.make_boolean, _pick(lambda x: x.make_boolean()))
_unary("isna", M.isna, _pick(lambda x: x.isna()))
_unary("notna", M.notna, _pick(lambda x: x.notna()))
_unary("copy", lambda f: f, _pick(lambda x: x.copy()))


# --------------------------------------------------------------------- masking
@op("mask", 2, "masking", model=lambda fs, p: M.mask(*fs))
def _mask(b, xs, p):
    b.ctx.log("f.mask(g)")
    return b.ctx.call("mask", xs[0].mask, xs[1])


@op("where", 2, "masking", model=lambda fs, p: M.where(*fs))
def _where(b, xs, p):
    b.ctx.log("f.where(g)")
    return b.ctx.call("where", xs[0].where, xs[1])


@op("fillna", 2, "masking", model=lambda fs, p: M.fillna(*fs))
def _fillna(b, xs, p):
    b.ctx.log("f.fillna(g)")
    return b.ctx.call("fillna", xs[0].fillna, xs[1])


def _window(rng, dom, fs):
    pts = [p for f in fs for p in f.pts] or [F(1), F(3)]
    for _ in range(50):
        def one():
            k = rng.random()
            if k < 0.2:
                return None
            if k < 0.6:
                return rng.choice(pts)
            return rng.choice([rng.choice(pts) + 1, rng.choice(pts) - 1, pts[0] - 2, pts[-1] + 2,
                               rng.choice(pts) + F(1, dom.den)])
        lo, hi = one(), one()
        if lo is None or hi is None or lo < hi:
            return lo, hi
    return None, None


def _edge(b, x):
    return b.dom.scalar(x, b.rng) if x is not None else None


def _inf_edge(b, x, s):
    if x is not None:
        return b.dom.scalar(x, b.rng)
    return b.rng.choice([None, sc.inf if s > 0 else -sc.inf])


@op("clip", 1, "masking", _window, lambda fs, p: fs[0].restrict(*p))
def _clip(b, xs, p):
    a, z = _inf_edge(b, p[0], -1), _inf_edge(b, p[1], 1)
    b.ctx.log("clip", a, z)
    return b.ctx.call("clip", xs[0].clip, a, z)


@op("where:tuple", 1, "masking", _window, lambda fs, p: fs[0].restrict(*p))
def _where_t(b, xs, p):
    t = (_edge(b, p[0]), _edge(b, p[1]))
    b.ctx.log("where", t)
    return b.ctx.call("where:tuple", xs[0].where, t)


@op("mask:tuple", 1, "masking", _window, lambda fs, p: fs[0].blank(*p))
def _mask_t(b, xs, p):
    t = (_edge(b, p[0]), _edge(b, p[1]))
    b.ctx.log("mask", t)
    return b.ctx.call("mask:tuple", xs[0].mask, t)


@op("fillna:scalar", 1, "masking", lambda rng, dom, fs: (rng.choice(FILL + [v for v in fs[0].vals if v is not None][:3]),),
    lambda fs, p: M.fillna(fs[0], p[0]))
def _fill_s(b, xs, p):
    s = _scalar(b, p[0])
    b.ctx.log("fillna", s)
    return b.ctx.call("fillna:scalar", xs[0].fillna, s)


@op("fillna:method", 1, "masking", lambda rng, dom, fs: (rng.choice(METHODS),), lambda fs, p: M.fillna(fs[0], p[0]))
def _fill_m(b, xs, p):
    b.ctx.log("fillna", p[0])
    return b.ctx.call("fillna:method", xs[0].fillna, p[0])


# ----------------------------------------------------------------- translation
def _amount(rng, dom, fs):
    return (F(rng.choice([-7, -3, -2, -1, 1, 1, 2, 3, 5, 0, 0])),)


@op("shift", 1, "shift", _amount, lambda fs, p: fs[0].shift(p[0]))
def _shift(b, xs, p):
    d = b.dom.delta(p[0], b.rng)
    b.ctx.log("shift", d)
    return b.ctx.call("shift", xs[0].shift, d)


@op("diff", 1, "shift", _amount, lambda fs, p: M.binary("subtract", fs[0], fs[0].shift(p[0])))
def _diff(b, xs, p):
    d = b.dom.delta(p[0], b.rng)
    b.ctx.log("diff", d)
    return b.ctx.call("diff", xs[0].diff, d)


# ---------------------------------------------------------------- collections
CONTAINERS = ["list", "tuple", "dict", "ndarray", "series", "series_obj", "array"]


def contain(b, xs, k=None):
    rng = b.rng
    k = k or rng.choice(CONTAINERS)
    if k == "list":
        return k, list(xs)
    if k == "tuple":
        return k, tuple(xs)
    if k == "dict":
        keys = rng.choice([[f"k{i}" for i in range(len(xs))], list(range(len(xs), 0, -1)), [(i % 2, -i) for i in range(len(xs))],
                           ["z", *range(len(xs))][:len(xs)]])
        return k, dict(zip(keys, xs))
    if k == "ndarray":
        a = np.empty(len(xs), dtype=object)
        a[:] = xs
        return k, a
    if k == "series":
        return k, pd.Series(list(xs), dtype="Stairs", index=any_index(len(xs), rng) if len(xs) else None)
    if k == "series_obj":
        return k, pd.Series(list(xs), index=any_index(len(xs), rng) if len(xs) else None)
    return k, sc.StairsArray(list(xs))


def _agg(name):
    def run(b, xs, p):
        k, c = contain(b, xs)
        b.ctx.log("sc." + name, k, len(xs))
        if k == "array" and b.rng.random() < 0.5:
            return b.ctx.call("agg:" + name, getattr(c, name))
        return b.ctx.call("agg:" + name, getattr(sc, name), c)
    OPS["agg:" + name] = Op("agg:" + name, "n", "agg", lambda rng, dom, fs: (), run,
                            lambda fs, p: M.aggregate(fs, M.AGGS[name]))


for _n in M.AGGS:
    _agg(_n)

UNARY = [o for o in OPS.values() if o.arity == 1]
BIN = [o for o in OPS.values() if o.arity == 2]
NARY = [o for o in OPS.values() if o.arity == "n"]
ALL = list(OPS.values())


def has_inexact(o):
    return o.name.startswith("divide") or o.name in ("agg:mean",)
