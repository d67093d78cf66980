"""C17 numeric, Timestamp (naive or tz-aware) and Timedelta domains behave identically."""
from __future__ import annotations

import copy
from fractions import Fraction as F

import numpy as np
import pandas as pd

import staircase as sc
from .. import domains, gen, model as M, ops, queries
from ..build import Builder, pynum
from ..ctx import Skip, Violation
from ..domains import NumDomain
from ..model import SF
from ..observe import Mismatch, frame
from ._stats import fits

RULE = ("one abstract program (leaves by scalar / vector / frame / constructor layering or from_values, then operations of the "
        "catalogue, aggregations, translations, then queries: sampling, views, statistics, distributions, slicing, rolling means, "
        "covariance, tables) replayed over int, float, naive, tz-aware (fixed offset and across both DST changes) and Timedelta "
        "labels; every intermediate function and every answer mapped back to the abstract line and compared across the domains, an "
        "error in one being compared as well; operands whose labels are differently typed (int / float, nanosecond / coarse, "
        "numpy / python / pandas flavours, ISO strings) combined with each other; means whose integral overflows a Timedelta")
REF = NumDomain("float", 0, 1, 1)
REF.name = "reference"
REF.longest = 64        # the points are labelled in domains with units of 30 days


def spread(rng):
    """one domain of each kind"""
    out = [NumDomain("int", rng.choice([0, -3, 1000, 10**6, 2**40, -5]), rng.choice([1, 1, 2, 7]), 1),
           domains.float_domain(rng), domains.naive_domain(rng), domains.tz_domain(rng), domains.delta_domain(rng)]
    if rng.random() < 0.35:
        out.append(domains.tz_domain(rng))
    return out


# ---------------------------------------------------------------- abstract plans
def draw_leaf(rng, closed, hi=5):
    pal = gen.palette(rng, ["small", "small", "bool", "two", "frac", "pos"])
    k = rng.random()
    if k < 0.25:
        f = gen.sf(rng, REF, pal=pal, closed=closed, hi=hi)
        return ("values", f), f
    init = rng.choice([F(0), F(0), F(0), F(1), F(-2), F(1, 2)])
    f = SF.const(init, closed)
    chunks = []
    for _ in range(rng.randint(0 if rng.random() < 0.15 else 1, 4)):
        style = rng.choice(["scalar", "vector", "vector", "frame"])
        ts = []
        for _ in range(1 if style == "scalar" else rng.randint(1, 4)):
            a = F(rng.randint(0, 12)) if rng.random() < 0.85 else None
            z = F(rng.randint(0, 14)) if rng.random() < 0.75 else None
            ts.append((a, z, rng.choice([v for v in pal if v is not None])))
        f = f.layered(ts)
        chunks.append((style, ts))
    return ("layers", init, closed, chunks, rng.random() < 0.4), f


def make_leaf(b, leaf):
    if leaf[0] == "values":
        f = leaf[1]
        init = float("nan") if f.vals[0] is None else pynum(f.vals[0])
        if not f.pts:
            return b.ctx.call("Stairs", lambda: sc.Stairs(initial_value=init, closed=f.closed))
        s = pd.Series([float("nan") if v is None else float(v) for v in f.vals[1:]], index=index(b, f.pts))
        return b.ctx.call("from_values", sc.Stairs.from_values, init, s, closed=f.closed)
    _, init, closed, chunks, ctor = leaf
    st, chunks = None, list(chunks)
    if ctor and chunks:
        style, ts = chunks.pop(0)
        kw = dict(initial_value=pynum(init), closed=closed)
        if style == "frame":
            df, S, E, V = b.frame_args(ts)
            st = b.ctx.call("Stairs(...)", lambda: sc.Stairs(frame=df, start=S, end=E, value=V if not (S is None and E is None and V is None) else 1, **kw))
        else:
            S, E, V = b.vector_args(ts)
            st = b.ctx.call("Stairs(...)", lambda: sc.Stairs(start=S, end=E, value=V if not (S is None and E is None and V is None) else 1, **kw))
    else:
        st = b.ctx.call("Stairs", lambda: sc.Stairs(initial_value=pynum(init), closed=closed))
    for style, ts in chunks:
        if style == "scalar":
            b.layer_scalar(st, ts[0])
        elif style == "vector":
            b.layer_vector(st, ts)
        else:
            b.layer_frame(st, ts)
    return st


def index(b, pts):
    ix = b.dom.array(pts)
    return domains.narrow(ix, b.rng) if b.rng.random() < 0.12 else ix


# ------------------------------------------------------------------- comparison
def outcome(fn):
    try:
        return "value", fn()
    except (Violation, Mismatch) as e:
        return "error", e


def agree(ctx, what, f, outs, doms):
    """outs[0] is the reference domain's"""
    ref = outs[0]
    bad = [(d, o) for d, o in zip(doms[1:], outs[1:]) if o[0] != ref[0]]
    ctx.count("answers_compared", len(outs) - 1)
    if bad:
        d, o = bad[0]
        msg = lambda o: f"fails ({o[1]})" if o[0] == "error" else f"gives {queries.show(o[1])[:300]}"
        raise Mismatch(f"{what}: over {d} it {msg(o)}, over {doms[0]} it {msg(ref)} ({len(bad)} of {len(outs) - 1} domains differ)")
    if ref[0] == "error":
        ctx.count("failed_in_every_domain")
        return False
    for d, o in zip(doms[1:], outs[1:]):
        tol, ltol = queries.tolerances(f, doms[0], d)
        r = queries.same(ref[1], o[1], tol, ltol)
        if r:
            raise Mismatch(f"{what}: {doms[0]} versus {d}: {r}")
    return True


def tame(m):
    return len(m.pts) <= 40 and all(v is None or (abs(v) < 2**30 and v.denominator <= 2**16) for v in m.vals)


def views(b, x):
    """a function, and the agreement of its label-carrying views"""
    fn = queries.cfn(b, x)
    c = copy.deepcopy(x)
    ch = b.ctx.call("step_changes", lambda: c.step_changes)
    sv = b.ctx.call("step_values", lambda: c.step_values)
    sp = b.ctx.call("step_points", lambda: c.step_points)
    lab = lambda ls: ("list", [queries.cpt(b.dom, l) for l in ls]) if len(fn[1]) else ("list", [])
    return ("list", [fn, lab(ch.index), lab(sv.index), lab(list(sp)), ("str", b.ctx.call("number_of_steps", lambda: int(c.number_of_steps)))])


def ask(ctx, bs, xs, f, n, names=None):
    rng = ctx.rng
    doms = [b.dom for b in bs]
    if not all(fits(f, d) for d in doms):
        return
    pool = [queries.QUERIES[k] for k in names] if names else rng.sample(queries.ALL, min(len(queries.ALL), 3 * n))
    for q in pool:
        if n <= 0:
            return
        if not q.need(f):
            continue
        p = q.draw(rng, REF, f)
        if p is None:
            continue
        n -= 1
        what = f"{q.name}{p} of {f}"
        ctx.log(what)
        outs = []
        for b, x in zip(bs, xs):
            if q.name == "moments":
                b.partner = b.operand(queries.PARTNERS[p[1]](f))
            outs.append(outcome(lambda: q.run(b, x, p)))
        g = f
        if q.name == "moments":
            g = f.map(lambda v: None if v is None else v * v)
        agree(ctx, what, g, outs, doms)
        ctx.count("query:" + q.name)


def replay(ctx, i):
    rng = ctx.rng
    doms = [REF] + spread(rng)
    bs = [Builder(ctx, d) for d in doms]
    closed = rng.choice(["left", "right"])
    fs, live = [], [[] for _ in bs]

    def add(what, f, makers):
        outs = [outcome(m) for m in makers]
        seen = [("value", views(b, o[1])) if o[0] == "value" else o for b, o in zip(bs, [(o[0], o[1]) for o in outs])] \
            if all(o[0] == "value" for o in outs) else outs
        if not all(o[0] == "value" for o in outs):
            seen = [(o[0], ("str", "a result")) if o[0] == "value" else o for o in outs]
        ok = agree(ctx, what, f, [s if s[0] == "error" else s for s in seen], doms)
        if not ok:
            return False
        fs.append(f.with_closed(outs[0][1].closed))
        for l, o in zip(live, outs):
            l.append(o[1])
        return True

    for _ in range(rng.randint(1, 3)):
        leaf, f = draw_leaf(rng, closed)
        ctx.log("leaf", str(leaf))
        if not add(f"leaf {leaf}", f, [lambda b=b: make_leaf(b, leaf) for b in bs]):
            return
    for step in range(rng.randint(0, 4)):
        o = rng.choice(ops.ALL) if i % 3 else ops.ALL[(i // 3 + step) % len(ops.ALL)]
        n = o.arity if o.arity != "n" else rng.randint(1, 3)
        ix = [rng.randrange(len(fs)) if rng.random() < 0.6 else len(fs) - 1 for _ in range(n)]
        afs = [fs[j] for j in ix]
        if len({f.closed for f in afs if f.pts}) > 1:
            continue
        p = o.draw(rng, REF, afs)
        m = o.model(afs, p)
        if not tame(m):
            continue
        what = f"step {step}: {o}{p} of {afs}"
        ctx.log(what)
        if not add(what, m, [lambda b=b, l=l: o.run(b, [l[j] for j in ix], p) for b, l in zip(bs, live)]):
            return
        ctx.count("ops:" + o.group)
    j = len(fs) - 1
    ask(ctx, bs, [l[j] for l in live], fs[j], 2)
    if rng.random() < 0.5:
        j = rng.randrange(len(fs))
        ask(ctx, bs, [l[j] for l in live], fs[j], 1)
    ctx.note("replay", [f.key() for f in fs], [d.name for d in doms])


def asked(ctx, i):
    """every query in turn, on one function over all domains"""
    rng = ctx.rng
    doms = [REF] + spread(rng)
    bs = [Builder(ctx, d) for d in doms]
    q = queries.ALL[i % len(queries.ALL)]
    for _ in range(30):
        f = gen.sf(rng, REF, closed=rng.choice(["left", "right"]), lo=2,
                   pal=gen.palette(rng, ["small", "pos", "two", "bool", "frac"]))
        if q.need(f) and all(fits(f, d) for d in doms):
            break
    else:
        raise Skip("no function for the query")
    xs = [b.operand(f) for b in bs]
    ask(ctx, bs, xs, f, 2, names=[q.name, q.name])
    ctx.note("asked", q.name, f.key(), [d.name for d in doms])


# ---------------------------------------------------- flavours of the same label
class View:
    """a domain whose labels are all spelt in one flavour"""

    def __init__(self, dom, name, conv, vconv=None):
        self._dom, self._name, self._conv, self._vconv = dom, name, conv, vconv

    def __getattr__(self, k):
        return getattr(self._dom, k)

    def __repr__(self):
        return f"{self._dom.name}/{self._name}"

    def enc(self, x):
        return self._conv(self._dom.enc(x))

    def scalar(self, x, rng):
        return self.enc(x)

    query = scalar

    def delta(self, d, rng=None):
        return self._dom.delta(d)

    def array(self, xs):
        ix = self._dom.array(xs)
        return self._vconv(ix) if self._vconv else ix

    def vec(self, xs, rng, kinds=None):
        k = rng.choice(kinds or ["list", "tuple", "ndarray", "series", "index"])
        return k, self._wrap([self.enc(x) if x is not None else self._dom.missing(rng) for x in xs], k, rng)

    def _series(self, labels):
        s = self._dom._series(labels)
        return pd.Series(self._vconv(pd.Index(s))) if self._vconv and not s.isna().any() else s

    def _wrap(self, labels, k, rng):
        if k in ("list", "tuple"):
            return labels if k == "list" else tuple(labels)
        s = self._series(labels)
        return s.to_numpy() if k == "ndarray" and getattr(self._dom, "tz", None) is None else pd.Index(s) if k == "index" else s


def flavours(dom):
    out = []
    if not dom.is_time:
        for t in (int, float, np.int64, np.int32, np.int16, np.float64, np.float32):
            v = None if t in (int, float) else t
            out.append(View(dom, t.__name__, lambda x, t=t: t(x), (lambda ix, v=v: ix.astype(v)) if v else
                            (lambda ix, t=t: ix.astype("int64" if t is int else "float64"))))
        return out
    for u in ("s", "ms", "us", "ns"):
        out.append(View(dom, f"pandas[{u}]", lambda x, u=u: x.as_unit(u), lambda ix, u=u: ix.as_unit(u)))
    py = (lambda x: x.to_pydatetime()) if dom.kind != "timedelta" else (lambda x: x.to_pytimedelta())
    out.append(View(dom, "python", py, None))
    if getattr(dom, "tz", None) is None:
        for u in ("s", "us", "ns"):
            conv = (lambda x, u=u: x.to_datetime64().astype(f"M8[{u}]")) if dom.kind == "naive" else \
                (lambda x, u=u: x.to_timedelta64().astype(f"m8[{u}]"))
            out.append(View(dom, f"numpy[{u}]", conv, lambda ix, u=u: ix.as_unit(u)))
    return out


SECONDS = [lambda: NumDomain("float", 0, 1, 1), lambda: NumDomain("float", -3, 1, 1),
           lambda: domains.StampDomain("2020-01-01", "1h"), lambda: domains.StampDomain("2020-02-27 06:30", "1D"),
           lambda: domains.StampDomain("2021-03-13 22:00", "1h", "US/Eastern"),
           lambda: domains.StampDomain("2021-11-06 23:00", "1h", "US/Eastern"),
           lambda: domains.StampDomain("2022-10-29 21:00", "1h", "Europe/London"),
           lambda: domains.DeltaDomain("0s", "1h"), lambda: domains.DeltaDomain("-3h", "1min")]


def mixed(ctx, i):
    """operands, points and widths whose labels are spelt in different flavours"""
    rng = ctx.rng
    dom = SECONDS[i % len(SECONDS)]()
    vs = flavours(dom)
    closed = rng.choice(["left", "right"])
    base = Builder(ctx, vs[1] if not dom.is_time else vs[3])
    leaves = [draw_leaf(rng, closed) for _ in range(2)]
    bs = [base] + [Builder(ctx, v) for v in rng.sample(vs, 3)]
    sides = []
    for b in bs:
        outs = [outcome(lambda: make_leaf(b, leaf)) for leaf, _ in leaves]
        sides.append(outs)
    names = [repr(b.dom) for b in bs]
    for j, (leaf, f) in enumerate(leaves):
        if not compare(ctx, f"leaf {leaf}", f, [s[j] if s[j][0] == "error" else ("value", s[j][1]) for s in sides], bs):
            return
    for o in rng.sample(ops.ALL, 4):
        n = o.arity if o.arity != "n" else 2
        fs = [f for _, f in leaves][:n] if n <= 2 else None
        p = o.draw(rng, REF, fs)
        m = o.model(fs, p)
        if not tame(m):
            continue
        what = f"{o}{p} of {fs}"
        ctx.log(what, str(names))
        outs = []
        for t, b in enumerate(bs):
            # the second operand may come from another flavour than the first
            other = rng.choice(sides) if t else sides[0]
            xs = [sides[t][0][1], other[1][1]][:n]
            outs.append(outcome(lambda: o.run(b, xs, p)))
        if not compare(ctx, what, m, outs, bs):
            continue
        ctx.count("mixed_operations")
        ask(ctx, bs, [r[1] for r in outs], m.with_closed(outs[0][1].closed), 1)
    # the same function in different spellings is the same function
    f = leaves[0][1]
    for s, b in zip(sides[1:], bs[1:]):
        ctx.expect(ctx.call("identical", sides[0][0][1].identical, s[0][1]) is not False
                   and bool(sides[0][0][1].identical(s[0][1])) and bool(s[0][1].identical(sides[0][0][1])),
                   f"{f} built from {names[0]} and from {b.dom!r} labels is not identical")
    ctx.note("mixed", [f.key() for _, f in leaves], names)


def compare(ctx, what, f, outs, bs):
    doms = [b.dom for b in bs]
    if all(o[0] == "value" for o in outs):
        outs = [outcome(lambda: views(b, o[1])) for b, o in zip(bs, outs)]
    else:
        outs = [("value", ("str", "a result")) if o[0] == "value" else o for o in outs]
    return agree(ctx, what, f, outs, doms)


class Instants:
    """labels of any zone"""

    def __init__(self, dom):
        self._dom = dom

    def __getattr__(self, k):
        return getattr(self._dom, k)

    def dec(self, label):
        if self._dom.tz is not None and isinstance(label, pd.Timestamp) and label.tzinfo is not None:
            label = label.tz_convert(self._dom.tz)
        return self._dom.dec(label)


def strings(ctx, i):
    """ISO strings as bounds of clip / where / mask"""
    rng = ctx.rng
    dom = rng.choice([domains.naive_domain(rng), domains.StampDomain("2020-03-01", "1h", rng.choice(["UTC", "Asia/Tokyo"])),
                      domains.StampDomain("2021-03-13 22:00", "1h", "US/Eastern")])
    b = Builder(ctx, dom)
    f = gen.sf(rng, dom, closed=rng.choice(["left", "right"]), lo=1)
    x = b.operand(f)
    for _ in range(3):
        p = ops._window(rng, dom, [f])
        def spell(t):
            if t is None:
                return None
            l = dom.enc(t)
            return rng.choice([str(l), l.isoformat(), l if rng.random() < 0.3 else str(l)])
        lo, hi = spell(p[0]), spell(p[1])
        k = rng.choice(["clip", "where", "mask"])
        ctx.log(k, lo, hi)
        run = {"clip": lambda a, z: x.clip(a, z), "where": lambda a, z: x.where((a, z)), "mask": lambda a, z: x.mask((a, z))}[k]
        enc = lambda t: None if t is None else dom.enc(t)
        # a string carries an offset, not a zone: pandas' rules decide the zone of the union
        got = outcome(lambda: queries.cfn(b, ctx.call(k, run, lo, hi), Instants(dom)))
        want = outcome(lambda: queries.cfn(b, ctx.call(k, run, enc(p[0]), enc(p[1]))))
        agree(ctx, f"{k}({lo!r}, {hi!r}) of {f}", f, [want, got], [dom, dom])
        ctx.count("string_bounds")
    ctx.note("strings", f.key(), dom.name)


def overflow(ctx, i):
    """the mean (and whatever rests on it) where the integral does not fit a Timedelta"""
    rng = ctx.rng
    doms = [REF, domains.StampDomain("2000-01-01", "30D"), domains.DeltaDomain("0s", "1D"),
            domains.StampDomain("2000-01-01", "30D", "US/Eastern"), domains.StampDomain("2020-01-01", "1h"),
            NumDomain("int", 0, 30 * 86400, 1)]
    bs = [Builder(ctx, d) for d in doms]
    big = rng.choice([F(10)**5, F(10)**7, F(2)**40, F(10)**12])
    f = gen.sf_with_finite(rng, REF, pal=[v * big for v in gen.PALETTES["small"] if v], closed=rng.choice(["left", "right"]), hi=5)
    xs = [b.operand(f) for b in bs]
    stats = ["mean", "var", "std", "min", "max", "mean", "agg"] + (["median"] if queries.median_ok(f) else [])
    for n in rng.sample(stats, 3):
        outs = []
        for b, x in zip(bs, xs):
            def get(b=b, x=x):
                if n == "agg":
                    r = b.ctx.call("agg", x.agg, ["mean", "max"])
                    return ("list", [queries.cnum(r["mean"]), queries.cnum(r["max"])])
                if b.rng.random() < 0.3:
                    try:
                        x.integral()
                    except OverflowError:
                        ctx.count("integral_overflows")
                return queries.cnum(b.ctx.call(n, getattr(x, n)))
            outs.append(outcome(get))
        # relative tolerance only
        ref = outs[0]
        for d, o in zip(doms[1:], outs[1:]):
            ctx.count("answers_compared")
            if o[0] == "error" or ref[0] == "error":
                raise Mismatch(f"{n} of {f} over {d}: {o[1]} / {ref[1]}")
            top = max(abs(float(v)) for v in f.vals if v is not None)
            r = queries.same(ref[1], o[1], 1e-6, 0)
            if r and n != "agg" and abs((ref[1][1] or 0) - (o[1][1] or 0)) > 1e-7 * top ** (2 if n == "var" else 1):
                raise Mismatch(f"{n} of {f}: {doms[0]} versus {d}: {r}")
    # the integral: a Timedelta of the right length, or OverflowError, every time
    for b, x in zip(bs, xs):
        exact = sum(v * l for v, l in f.finite_defined()) if False else None
        res = []
        for _ in range(2):
            try:
                res.append(x.integral())
            except OverflowError:
                res.append("overflow")
            ctx.count("calls")
        ctx.expect((res[0] == "overflow") == (res[1] == "overflow") and res[1] is not None,
                   f"integral of {f} over {b.dom} is first {res[0]!r}, then {res[1]!r}")
    ctx.note("overflow", f.key())


KINDS = {"replay": replay, "asked": asked, "mixed": mixed, "strings": strings, "overflow": overflow}
REQUIRE = {"answers_compared": 12000, "mixed_operations": 500, "string_bounds": 250, "integral_overflows": 50}


def plan(tier):
    nq = len(queries.ALL)
    if tier == "quick":
        return [("replay", 700), ("asked", nq * 8), ("mixed", 60 * len(SECONDS) // 2), ("strings", 150), ("overflow", 80)]
    return [("replay", 25000), ("asked", nq * 250), ("mixed", 1500 * len(SECONDS)), ("strings", 5000), ("overflow", 2500)]
