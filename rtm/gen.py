"""Random model functions."""
from __future__ import annotations

from fractions import Fraction as F

from .model import SF

PALETTES = {
    "small": [F(v) for v in (-3, -2, -1, 0, 0, 1, 1, 2, 3)],
    "bool": [F(0), F(1)],
    "frac": [F(v, 4) for v in (-7, -4, -2, -1, 0, 1, 2, 3, 4, 6, 10)],
    "pos": [F(v) for v in (1, 2, 3, 4, 5, 8)],
    "wide": [F(v) for v in (-1048576, -1000, -7, 0, 1, 13, 255, 65536)] + [F(1, 1024), F(3, 4096)],
    "two": [F(-1), F(2)],
    "big": [F(k) * 2**40 for k in (-3, -1, 0, 1, 1, 2, 5)],      # their products outgrow 64 bits
    "specks": [F(k, 2**45) for k in (-3, -1, 0, 0, 1, 2, 5)],    # a tolerance would swallow these
    "many": [F(k) for k in range(-40, 41)],
    "tiny": [F(0), F(1), F(1, 2**30), F(1) + F(1, 2**30), F(-1, 2**30)],
}


def palette(rng, names=None):
    return PALETTES[rng.choice(names or ["small", "small", "small", "bool", "frac", "frac", "pos", "wide", "tiny", "two", "big", "specks", "many"])]


def skewed(rng, xs, dom):
    """make pieces of very different lengths"""
    for _ in range(rng.randint(1, 3)):
        j, gap = rng.randrange(1, len(xs)), min(rng.choice([64, 512, 4096]), dom.longest)
        if not dom.is_time or gap * dom.unit_ns < 4 * 10 ** 16:    # some sixteen months
            xs = xs[:j] + [x + gap for x in xs[j:]]
    return xs


def regular(rng, xs, dom):
    """points of a pattern in which pandas recognises a frequency"""
    if dom.kind == "timedelta" and n_hours(dom) and rng.random() < 0.3:
        gaps = [F(g) * n_hours(dom) for g in rng.choice([(1, 17), (1, 65)])]     # business hours, to pandas
        out = [xs[0]]
        for j in range(1, len(xs)):
            out.append(out[-1] + (gaps[j - 1] if j < 3 else rng.choice(gaps)))
        return out
    g = F(rng.choice([1, 1, 2, 3]), rng.choice([1, dom.den]))
    return [xs[0] + j * g for j in range(len(xs))]


def n_hours(dom):
    """an hour in units of dom, if that is a whole number of its points"""
    h = F(3600 * 10 ** 9, dom.unit_ns)
    return h if (h * dom.den).denominator == 1 and h <= 60 else None


def points(rng, n, dom, span=None):
    den = dom.den if rng.random() < 0.4 else 1
    span = span or max(6, 2 * n)
    xs = sorted(F(x, den) for x in rng.sample(range(0, span * den), n))
    if n > 1 and rng.random() < (0.15 if dom.is_time else 0.04):
        xs = regular(rng, xs, dom)
    elif n > 1 and rng.random() < 0.06:
        xs = skewed(rng, xs, dom)
    return xs


def npoints(rng, lo=0, hi=6):
    r = rng.random()
    if r < 0.006:
        return rng.randint(80, 240)
    if r < 0.03:
        return rng.randint(20, 60)
    return rng.randint(lo, hi)


def big(rng, *sizes):
    """number of steps of a large function, now and then a very large one"""
    return rng.randint(1100, 1500) if rng.random() < 0.12 else rng.choice(sizes)


def sf(rng, dom, pal=None, closed="left", n=None, p_nan=None, lo=0, hi=6, pts=None, const=0.12):
    pal = pal or palette(rng)
    if n is None and pts is None:
        n = 0 if (lo == 0 and rng.random() < const) else npoints(rng, max(lo, 1), hi)
    if pts is None:
        pts = points(rng, n, dom)
    else:
        n = len(pts)
    if p_nan is None:
        p_nan = rng.choice([0, 0, 0.25, 0.25, 0.5])
    vals = [None if rng.random() < p_nan else rng.choice(pal) for _ in range(n + 1)]
    if p_nan and n >= 1:
        r = rng.random()
        if r < 0.15:
            vals[0] = None
        elif r < 0.3:
            vals[-1] = None
        elif r < 0.4:
            vals[0] = vals[-1] = None
    return SF(pts, vals, closed)


def sf_with_finite(rng, dom, **kw):
    """at least one finite defined piece"""
    kw.setdefault("lo", 2)
    for _ in range(200):
        f = sf(rng, dom, **kw)
        if f.finite_defined():
            return f
    raise RuntimeError("generator could not produce a finite defined piece")


def pair(rng, dom, pal=None, closed="left", **kw):
    """two functions whose step points coincide, interleave, abut or are disjoint"""
    f = sf(rng, dom, pal, closed, **kw)
    g = sf(rng, dom, pal, closed, **kw)
    r = rng.random()
    if f.pts and g.pts:
        if r < 0.2:      # identical step points
            g = sf(rng, dom, pal, closed, pts=list(f.pts), **{k: v for k, v in kw.items() if k == "p_nan"})
        elif r < 0.3:    # disjoint
            g = g.shift(f.pts[-1] - g.pts[0] + 1)
        elif r < 0.4:    # adjacent
            g = g.shift(f.pts[-1] - g.pts[0])
        elif r < 0.5:
            g = g.shift(F(1, dom.den))
    return f, g
