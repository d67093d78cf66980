"""Exact reference model of a step function.

A model is a strictly increasing tuple of exact points, one value per piece
(None = undefined; Fraction otherwise; vals[0] belongs to (-inf, pts[0])) and a
closed side.  Everything is computed pointwise from the mathematical
definitions; nothing here knows how staircase represents a function.

`exact` is False once a value was computed that a float cannot hold exactly;
comparisons then use a tolerance.
"""
from __future__ import annotations

from bisect import bisect_left, bisect_right
from fractions import Fraction as F
import math


def representable(v) -> bool:
    if v is None:
        return True
    try:
        return F(float(v)) == v
    except OverflowError:
        return False


def compact(vals) -> bool:
    """values and their differences all fit a float exactly, with room for partial sums"""
    vs = {v for v in vals if v}
    if not vs:
        return True
    if len(vs) == 1:
        return representable(next(iter(vs)))
    den = math.lcm(*(v.denominator for v in vs))
    ns = [int(v * den) for v in vs]
    g = math.gcd(*ns)
    return max(map(abs, ns)) // g < 2**49 and all(map(representable, vs))


class SF:
    __slots__ = ("pts", "vals", "closed", "exact")

    def __init__(self, pts, vals, closed="left", exact=True):
        pts = list(pts)
        vals = list(vals)
        assert len(vals) == len(pts) + 1
        np_, nv = [], [vals[0]]
        for p, v in zip(pts, vals[1:]):
            assert not np_ or p > np_[-1]
            if v != nv[-1]:
                np_.append(p)
                nv.append(v)
        self.pts = tuple(np_)
        self.vals = tuple(nv)
        self.closed = closed
        self.exact = exact and compact(nv)

    # ---------------------------------------------------------------- basics
    @classmethod
    def const(cls, v, closed="left"):
        return cls((), (v,), closed)

    def __repr__(self):
        def s(v):
            return "nan" if v is None else (str(v) if v.denominator == 1 else f"{float(v):g}")
        out = s(self.vals[0])
        for p, v in zip(self.pts, self.vals[1:]):
            out += f" |{s(p)}| {s(v)}"
        return f"<{out} {self.closed}>"

    def key(self):
        return (self.pts, self.vals)

    def same(self, other):
        return self.key() == other.key()

    def lim(self, x, side):
        i = bisect_right(self.pts, x) if side == "right" else bisect_left(self.pts, x)
        return self.vals[i]

    def at(self, x):
        return self.lim(x, "right" if self.closed == "left" else "left")

    @property
    def is_const(self):
        return not self.pts

    def with_closed(self, closed):
        return SF(self.pts, self.vals, closed, self.exact)

    def pieces(self):
        """(lo, hi, value), with None for an infinite bound."""
        b = [None, *self.pts, None]
        return [(b[i], b[i + 1], v) for i, v in enumerate(self.vals)]

    def finite(self):
        return [(lo, hi, v) for lo, hi, v in self.pieces()
                if lo is not None and hi is not None]

    def finite_defined(self):
        return [(hi - lo, v) for lo, hi, v in self.finite() if v is not None]

    def has_undefined(self):
        return any(v is None for v in self.vals)

    # ------------------------------------------------------------ pointwise
    def map(self, fn):
        return SF(self.pts, [fn(v) for v in self.vals], self.closed, self.exact)

    def combine(self, other, fn, closed=None):
        pts = sorted(set(self.pts) | set(other.pts))
        vals = [fn(self.vals[0], other.vals[0])]
        for p in pts:
            vals.append(fn(self.lim(p, "right"), other.lim(p, "right")))
        if closed is None:
            closed = result_closed(self, other)
        return SF(pts, vals, closed, self.exact and other.exact)

    def restrict(self, lo, hi):
        """undefined outside (lo, hi); None = unbounded"""
        pts = sorted(set(self.pts) | {x for x in (lo, hi) if x is not None})
        def keep(a, b):
            return (lo is None or (a is not None and a >= lo)) and \
                   (hi is None or (b is not None and b <= hi))
        b = [None, *pts, None]
        vals = [self.lim(p, "right") for p in pts]
        vals = [self.vals[0], *vals]
        vals = [v if keep(b[i], b[i + 1]) else None for i, v in enumerate(vals)]
        return SF(pts, vals, self.closed, self.exact)

    def blank(self, lo, hi):
        """undefined inside (lo, hi); None = unbounded"""
        ind = indicator(lo, hi, self.closed)
        return mask(self, ind).with_closed(self.closed)

    def shift(self, d):
        return SF([p + d for p in self.pts], self.vals, self.closed, self.exact)

    def layered(self, triples):
        """previous value plus, per triple, +v from start on and -v from end on"""
        f = self
        pts = set(self.pts)
        for s, e, _ in triples:
            pts |= {x for x in (s, e) if x is not None}
        pts = sorted(pts)
        base = sum((v for s, e, v in triples if s is None), F(0))
        jump = {}
        for s, e, v in triples:
            if s is not None:
                jump[s] = jump.get(s, 0) + v
            if e is not None:
                jump[e] = jump.get(e, 0) - v
        vals, acc = [], base
        add = lambda a, b: None if a is None else a + b
        vals.append(add(f.vals[0], acc))
        for p in pts:
            acc += jump.get(p, 0)
            vals.append(add(f.lim(p, "right"), acc))
        return SF(pts, vals, self.closed, self.exact)

    # ---------------------------------------------------------- distribution
    def value_sums(self):
        out = {}
        for l, v in self.finite_defined():
            out[v] = out.get(v, 0) + l
        return dict(sorted(out.items()))

    def total(self):
        return sum((l for l, _ in self.finite_defined()), F(0))

    def integral(self):
        return sum((l * v for l, v in self.finite_defined()), F(0))

    def mean(self):
        return self.integral() / self.total()

    def var(self):
        m = self.mean()
        return sum((l * (v - m) ** 2 for l, v in self.finite_defined()), F(0)) / self.total()

    def std(self):
        return math.sqrt(self.var())

    def cum(self):
        """[(value, cumulative share)]"""
        t = self.total()
        out, acc = [], F(0)
        for v, l in self.value_sums().items():
            acc += l
            out.append((v, acc / t))
        return out

    def ecdf(self, y, strict=False):
        t = self.total()
        return sum((l for l, v in self.finite_defined() if (v < y if strict else v <= y)), F(0)) / t

    def quantile(self, q):
        """midpoint of the lower and upper q-quantiles"""
        c = self.cum()
        if q <= 0:
            return c[0][0]
        if q >= 1:
            return c[-1][0]
        lower = next(v for v, s in c if s >= q)
        upper = next(v for v, s in c if s > q)
        return (lower + upper) / 2

    def quantile_bounds(self, q):
        c = self.cum()
        if q <= 0:
            return c[0][0], c[0][0]
        if q >= 1:
            return c[-1][0], c[-1][0]
        return next(v for v, s in c if s >= q), next(v for v, s in c if s > q)

    # ----------------------------------------------------------------- range
    def values_on(self, lo, hi, closed):
        """Set of values taken at defined points of the interval lo..hi."""
        out = set()
        for a, b, v in self.pieces():
            # piece as a set: open interior plus one endpoint by self.closed
            a_in = self.closed == "left"      # piece contains its left end
            b_in = self.closed == "right"
            # intersect [a,b with a_in,b_in] with [lo,hi with lo_in,hi_in]
            lo_in = closed in ("left", "both")
            hi_in = closed in ("right", "both")
            L, L_in = a, a_in
            if lo is not None:
                if L is None or lo > L:
                    L, L_in = lo, lo_in
                elif lo == L:
                    L_in = L_in and lo_in
            R, R_in = b, b_in
            if hi is not None:
                if R is None or hi < R:
                    R, R_in = hi, hi_in
                elif hi == R:
                    R_in = R_in and hi_in
            if L is not None and R is not None:
                if L > R or (L == R and not (L_in and R_in)):
                    continue
            if v is not None:
                out.add(v)
        return out


def result_closed(*fs):
    for f in fs:
        if f.pts:
            return f.closed
    return fs[0].closed


def indicator(lo, hi, closed="left", inside=F(1), outside=F(0)):
    pts, vals = [], []
    if lo is None:
        vals.append(inside)
    else:
        vals += [outside, inside]
        pts.append(lo)
    if hi is not None:
        pts.append(hi)
        vals.append(outside)
    return SF(pts, vals, closed)


# ------------------------------------------------------------------ operators
def _strict(fn):
    return lambda a, b: None if a is None or b is None else fn(a, b)


ARITH = {
    "add": _strict(lambda a, b: a + b),
    "subtract": _strict(lambda a, b: a - b),
    "multiply": _strict(lambda a, b: a * b),
    "divide": _strict(lambda a, b: None if b == 0 else a / b),
}
REL = {
    "lt": _strict(lambda a, b: F(a < b)),
    "le": _strict(lambda a, b: F(a <= b)),
    "gt": _strict(lambda a, b: F(a > b)),
    "ge": _strict(lambda a, b: F(a >= b)),
    "eq": _strict(lambda a, b: F(a == b)),
    "ne": _strict(lambda a, b: F(a != b)),
}
LOGIC = {
    "logical_and": _strict(lambda a, b: F(bool(a) and bool(b))),
    "logical_or": _strict(lambda a, b: F(bool(a) or bool(b))),
    "logical_xor": _strict(lambda a, b: F(bool(a) != bool(b))),
}
BINARY = {**ARITH, **REL, **LOGIC}


def binary(name, f, g):
    return f.combine(g, BINARY[name])


def negate(f):
    return f.map(lambda v: None if v is None else -v)


def invert(f):
    return f.map(lambda v: None if v is None else F(v == 0))


def make_boolean(f):
    return f.map(lambda v: None if v is None else F(v != 0))


def isna(f):
    return f.map(lambda v: F(v is None))


def notna(f):
    return f.map(lambda v: F(v is not None))


def mask(f, g):
    return f.combine(g, lambda a, b: a if (b is not None and b == 0) else None)


def where(f, g):
    return f.combine(g, lambda a, b: a if (b is not None and b != 0) else None)


def fillna(f, how):
    if isinstance(how, SF):
        return f.combine(how, lambda a, b: b if a is None else a)
    if how in ("ffill", "pad"):
        vals, last = [], None
        for v in f.vals:
            last = v if v is not None else last
            vals.append(last)
        return SF(f.pts, vals, f.closed, f.exact)
    if how in ("bfill", "backfill"):
        vals, last = [], None
        for v in reversed(f.vals):
            last = v if v is not None else last
            vals.append(last)
        return SF(f.pts, vals[::-1], f.closed, f.exact)
    return f.map(lambda v: how if v is None else v)


def aggregate(fs, fn, closed=None):
    """pointwise aggregate; undefined where any member is undefined"""
    pts = sorted(set().union(*[set(f.pts) for f in fs]))
    def red(vs):
        return None if any(v is None for v in vs) else fn(vs)
    vals = [red([f.vals[0] for f in fs])]
    for p in pts:
        vals.append(red([f.lim(p, "right") for f in fs]))
    if closed is None:
        closed = result_closed(*fs)
    return SF(pts, vals, closed, all(f.exact for f in fs))


def median(vs):
    s = sorted(vs)
    n = len(s)
    return s[n // 2] if n % 2 else (s[n // 2 - 1] + s[n // 2]) / 2


AGGS = {
    "sum": lambda vs: sum(vs, F(0)),
    "mean": lambda vs: sum(vs, F(0)) / len(vs),
    "median": median,
    "min": min,
    "max": max,
    "logical_or": lambda vs: F(any(v != 0 for v in vs)),
    "logical_and": lambda vs: F(all(v != 0 for v in vs)),
}
