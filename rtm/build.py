"""Realising a model function as a Stairs by many construction routes."""
from __future__ import annotations

import copy
from fractions import Fraction as F

import numpy as np
import pandas as pd

import staircase as sc
from . import domains, observe
from .ctx import Skip, Violation
from .model import SF, indicator
from . import model as M


# ------------------------------------------------------------------ scalars
def pynum(v):
    return int(v) if v.denominator == 1 else float(v)


def _f32(v):
    return abs(v) < 2**127 and F(float(np.float32(float(v)))) == v


def scalar_value(v, rng, plain=0.5, small=True):
    """the number v in some python / numpy spelling (None = NaN)"""
    if v is None:
        return rng.choice([float("nan"), np.nan, np.float64("nan")])
    if rng.random() < plain:
        return pynum(v)
    opts = [float(v), np.float64(float(v))]
    if _f32(v):
        opts.append(np.float32(float(v)))
    if v.denominator == 1:
        opts += [int(v), np.int64(int(v)) if abs(v) < 2**63 else int(v), np.int32(int(v)) if abs(v) < 2**31 else int(v)]
        if small and abs(v) <= 127:
            opts.append(np.int8(int(v)))
        if small and 0 <= v <= 255:
            opts.append(np.uint8(int(v)))
        if small and v in (0, 1):
            opts += [bool(v), np.bool_(bool(v))]
    return rng.choice(opts)


def value_vector(vals, rng):
    vals = list(vals)
    k = rng.choice(["list", "tuple", "ndarray", "series", "typed", "nullable"])
    nums = [pynum(v) for v in vals]
    if k == "nullable":
        whole = all(v.denominator == 1 and abs(v) < 2**53 for v in vals)
        dt = rng.choice(["Int64", "Float64"]) if whole else "Float64"
        s = pd.Series(nums, dtype=dt, index=domains.any_index(len(nums), rng) if len(nums) else None)
        return rng.choice([s, s.array])
    if k == "list":
        return nums
    if k == "tuple":
        return tuple(nums)
    if k == "typed":
        if all(v.denominator == 1 and abs(v) < 2**31 for v in vals):
            dts = ["int64", "float64", "int32"]
            if all(abs(v) <= 127 for v in vals):
                dts.append("int8")
            if all(0 <= v <= 255 for v in vals):
                dts += ["uint8", "uint64"]
            return np.array(nums, dtype=rng.choice(dts))
        if all(v.denominator == 1 and abs(v) < 2**63 for v in vals) and rng.random() < 0.5:
            return np.array(nums, dtype="int64")
        if all(_f32(v) for v in vals) and rng.random() < 0.5:
            return np.array(nums, dtype="float32")
    if k == "series":
        return pd.Series(nums, index=domains.any_index(len(nums), rng) if len(nums) and rng.random() < 0.8 else None)
    return np.array(nums)


# ------------------------------------------------------------------ triples
def decompose(f: SF, rng, c0=None):
    """(initial_value, triples) denoting the everywhere-defined f"""
    c0 = f.vals[0] if c0 is None else c0
    g = [v - c0 for v in f.vals]
    n = len(f.pts)
    how = rng.choice("ABC")
    out = []
    if how == "A":
        if g[0] != 0:
            out.append((None, None, g[0]))
        out += [(f.pts[i], None, g[i + 1] - g[i]) for i in range(n)]
    elif how == "B":
        b = [None, *f.pts, None]
        out = [(b[i], b[i + 1], v) for i, v in enumerate(g) if v != 0]
    else:
        if g[-1] != 0:
            out.append((None, None, g[-1]))
        out += [(None, f.pts[i], g[i] - g[i + 1]) for i in range(n)]
    return c0, out


def noise(triples, rng, pts):
    """extra layers that change nothing"""
    if not pts:
        return triples
    out = list(triples)
    for _ in range(rng.choice([0, 0, 1, 2])):
        a, b = rng.choice(pts), rng.choice(pts)
        w = F(rng.choice([1, 2, -1, 5]))
        k = rng.random()
        if k < 0.4:
            out += [(a, b, w), (a, b, -w)]
        elif k < 0.7:
            out += [(a, b, w), (b, a, w)]
        elif k < 0.85:
            out.append((a, a, w))
        else:
            out += [(None, a, w), (a, None, w), (None, None, -w)]
    return out


class Builder:
    def __init__(self, ctx, dom):
        self.ctx, self.dom, self.rng = ctx, dom, ctx.rng

    # -------------------------------------------------------------- layering
    def layer_scalar(self, st, t):
        s, e, v = t
        rng, dom = self.rng, self.dom
        kw = {}
        args = []
        sv = dom.scalar(s, rng) if s is not None else rng.choice([None, None, -sc.inf])
        ev = dom.scalar(e, rng) if e is not None else rng.choice([None, None, sc.inf])
        vv = None if (v == 1 and rng.random() < 0.4) else scalar_value(v, rng)
        k = rng.random()
        if k < 0.5:
            args = [sv, ev] if vv is None and rng.random() < 0.5 else [sv, ev, vv]
        else:
            if s is not None or rng.random() < 0.3:
                kw["start"] = sv
            if e is not None or rng.random() < 0.3:
                kw["end"] = ev
            if vv is not None:
                kw["value"] = vv
        self.ctx.log("layer", *args, **kw)
        r = self.ctx.call("layer", st.layer, *args, **kw)
        self.ctx.expect(r is st, "layer did not return its receiver")
        return st

    def vector_args(self, ts, kinds=None):
        rng, dom = self.rng, self.dom
        ss, es, vs = [t[0] for t in ts], [t[1] for t in ts], [t[2] for t in ts]
        # trailing missing entries may be left out of the shorter vector
        def trim(a, other_full):
            a = list(a)
            if other_full:
                while a and a[-1] is None and rng.random() < 0.7:
                    a.pop()
            return a
        which = rng.random()
        if which < 0.5:
            es2, ss2 = trim(es, True), ss
        else:
            ss2, es2 = trim(ss, True), es
        def enc(a):
            if not a:
                return rng.choice([None, []])
            if len(a) == 1 and a[0] is not None and rng.random() < 0.3 and len(ts) == 1:
                return dom.scalar(a[0], rng)
            return dom.vec(a, rng, kinds)[1]
        S, E = enc(ss2), enc(es2)
        if all(v == vs[0] for v in vs) and rng.random() < 0.5:
            V = None if (vs[0] == 1 and rng.random() < 0.5) else scalar_value(vs[0], rng)
        else:
            V = value_vector(vs, rng)
        return S, E, V

    def layer_vector(self, st, ts):
        S, E, V = self.vector_args(ts)
        self.ctx.log("layer", S, E, V)
        r = self.ctx.call("layer", st.layer, S, E, V)
        self.ctx.expect(r is st, "layer did not return its receiver")
        return st

    def frame_args(self, ts):
        rng, dom = self.rng, self.dom
        cols = {}
        def col(a):
            s = dom._series([dom.enc(x) if x is not None else None for x in a])
            return domains.narrow(s, rng) if rng.random() < 0.1 else s
        cols["S"] = col([t[0] for t in ts])
        cols["E"] = col([t[1] for t in ts])
        cols["V"] = pd.Series([pynum(t[2]) for t in ts])
        df = pd.DataFrame(cols)
        if rng.random() < 0.6:
            df.index = domains.any_index(len(df), rng)
        if rng.random() < 0.3:
            df.insert(0, "junk", "x")
        S = "S" if any(t[0] is not None for t in ts) or rng.random() < 0.5 else None
        E = "E" if any(t[1] is not None for t in ts) or S is None or rng.random() < 0.5 else None
        V = "V" if any(t[2] != 1 for t in ts) or rng.random() < 0.5 else None
        return df, S, E, V

    def layer_frame(self, st, ts):
        df, S, E, V = self.frame_args(ts)
        before = df.copy()
        self.ctx.log("layer(frame)", df, S, E, V)
        r = self.ctx.call("layer", st.layer, start=S, end=E, value=V, frame=df)
        self.ctx.expect(r is st, "layer did not return its receiver")
        self.ctx.expect(df.equals(before), "layer modified the caller's DataFrame")
        return st

    def layer_any(self, st, ts):
        """apply triples with a random mixture of call styles; returns list of chunks applied"""
        rng = self.rng
        i, chunks = 0, []
        while i < len(ts):
            k = rng.random()
            if k < 0.4:
                self.layer_scalar(st, ts[i]); n = 1
            else:
                n = rng.randint(1, len(ts) - i)
                (self.layer_vector if k < 0.85 else self.layer_frame)(st, ts[i:i + n])
            chunks.append(ts[i:i + n])
            i += n
        return chunks

    def new(self, initial, closed):
        rng = self.rng
        kw = {}
        if initial != 0 or rng.random() < 0.5:
            kw["initial_value"] = scalar_value(initial, rng, 0.8)
        if closed != "left" or rng.random() < 0.5:
            kw["closed"] = closed
        self.ctx.log("Stairs", **kw)
        return self.ctx.call("Stairs", sc.Stairs, **kw)

    # ----------------------------------------------------- defined functions
    def r_scalar(self, f):
        c0 = self._c0(f)
        c0, ts = decompose(f, self.rng, c0)
        ts = noise(ts, self.rng, list(f.pts))
        self.rng.shuffle(ts)
        st = self.new(c0, f.closed)
        for t in ts:
            self.layer_scalar(st, t)
        return st

    def r_vector(self, f):
        c0, ts = decompose(f, self.rng, self._c0(f))
        ts = noise(ts, self.rng, list(f.pts))
        self.rng.shuffle(ts)
        st = self.new(c0, f.closed)
        if ts:
            self.layer_vector(st, ts)
        return st

    def r_mixed(self, f):
        c0, ts = decompose(f, self.rng, self._c0(f))
        ts = noise(ts, self.rng, list(f.pts))
        self.rng.shuffle(ts)
        st = self.new(c0, f.closed)
        self.layer_any(st, ts)
        return st

    def r_ctor(self, f):
        c0, ts = decompose(f, self.rng, self._c0(f))
        self.rng.shuffle(ts)
        if not ts:
            return self.new(c0, f.closed)
        kw = {"initial_value": pynum(c0), "closed": f.closed}
        if self.rng.random() < 0.4:
            df, S, E, V = self.frame_args(ts)
            self.ctx.log("Stairs(frame)", df, S, E, V, **kw)
            return self.ctx.call("Stairs", sc.Stairs, df, S, E, V, **kw)
        S, E, V = self.vector_args(ts)
        if S is None and E is None and V is None:
            V = 1
        self.ctx.log("Stairs", S, E, V, **kw)
        return self.ctx.call("Stairs", sc.Stairs, start=S, end=E, value=V, **kw)

    def _c0(self, f):
        return self.rng.choice([f.vals[0], f.vals[0], F(0), F(2)])

    def r_from_values(self, f, redundant=True):
        """also for partly undefined functions; may carry redundant rows"""
        rng, dom = self.rng, self.dom
        pts, vals = list(f.pts), list(f.vals)
        if redundant and rng.random() < 0.3 or not pts:
            # a redundant point between / beyond the real ones
            extra = pts[-1] + 1 if pts else F(2)
            pts.append(extra); vals.append(vals[-1])
        data = [float("nan") if v is None else pynum(v) for v in vals[1:]]
        nan = any(v is None for v in vals[1:])
        dt = None
        if not nan and all(v.denominator == 1 for v in vals[1:]):
            dt = rng.choice(["int64", "float64", "int32" if all(abs(v) < 2**31 for v in vals[1:]) else "float64",
                             None if all(abs(v) < 2**63 for v in vals[1:]) else "float64"])
            if dt == "int64" and not all(abs(v) < 2**63 for v in vals[1:]):
                dt = "float64"
            if all(v in (0, 1) for v in vals[1:]) and rng.random() < 0.1:
                dt = "bool"
        elif nan or True:
            dt = "float64"
        ix = dom.array(pts)
        if rng.random() < 0.1:
            ix = domains.narrow(ix, rng)
        s = pd.Series(data, index=ix, dtype=dt)
        if rng.random() < 0.3:
            s.name = "whatever"
        init = scalar_value(vals[0], rng, 0.8, small=False)
        before = s.copy()
        self.ctx.log("from_values", init, s, closed=f.closed)
        st = self.ctx.call("from_values", sc.Stairs.from_values, init, s, closed=f.closed)
        self.ctx.expect(s.equals(before), "from_values modified the caller's Series")
        return st

    def r_sum_parts(self, f):
        rng = self.rng
        cut = [F(rng.choice([0, 0, 1, -1, 2])) for _ in f.vals]
        a = SF(f.pts, cut, f.closed)
        b = SF(f.pts, [v - c for v, c in zip(f.vals, cut)], f.closed)
        x, y = self.basic(a), self.basic(b)
        self.ctx.log("x+y")
        return self.ctx.call("add", lambda: x + y)

    def r_neg(self, f):
        x = self.build(M.negate(f), depth=1)
        self.ctx.log("-x")
        return self.ctx.call("negate", lambda: -x)

    def r_shift(self, f):
        d = F(self.rng.choice([-2, 1, 3]))
        x = self.build(f.shift(-d), depth=1)
        self.ctx.log("shift", d)
        if f.is_const:
            return x
        return self.ctx.call("shift", x.shift, self.dom.delta(d))

    def r_copy(self, f):
        x = self.build(f, depth=1)
        k = self.rng.choice(["copy", "copy", "deepcopy"])
        self.ctx.log(k)
        if k == "copy":
            return self.ctx.call("copy", x.copy)
        return self.ctx.call("deepcopy", copy.deepcopy, x)

    def r_mul(self, f):
        """(2 f) / 2"""
        x = self.build(f.map(lambda v: None if v is None else v * 2), depth=1)
        self.ctx.log("x/2")
        return self.ctx.call("divide", lambda: x / 2)

    def r_fill(self, f):
        """fill a masked version back"""
        rng = self.rng
        if not f.pts:
            return self.r_mixed(f)
        i = rng.randrange(len(f.vals))
        v = f.vals[i]
        holes = [None if w == v else w for w in f.vals]
        h = SF(f.pts, holes, f.closed)
        x = self.build(h, depth=1)
        self.ctx.log("fillna", v)
        return self.ctx.call("fillna", x.fillna, pynum(v))

    DEFINED = ["r_scalar", "r_vector", "r_mixed", "r_ctor", "r_from_values"]
    DERIVED = ["r_sum_parts", "r_neg", "r_shift", "r_copy", "r_mul", "r_fill"]
    UNDEF = ["u_from_values", "u_mask", "u_where", "u_tuples", "u_div", "u_addnan"]
    UNDEF_DERIVED = ["r_neg", "r_shift", "r_copy", "r_mul"]

    # ------------------------------------------------------ partly undefined
    def _filled(self, f):
        """a defined function agreeing with f where f is defined"""
        rng = self.rng
        return f.map(lambda v: F(rng.choice([0, 1, 3, -1])) if v is None else v)

    def u_from_values(self, f):
        return self.r_from_values(f)

    def u_mask(self, f):
        base = self.basic(self._filled(f))
        g = f.map(lambda v: F(0) if v is not None else F(self.rng.choice([1, 2, -1])))
        gs = self.basic(g)
        self.ctx.log("mask")
        return self.ctx.call("mask", base.mask, gs)

    def u_where(self, f):
        base = self.basic(self._filled(f))
        g = f.map(lambda v: F(0) if v is None else F(self.rng.choice([1, 2, -1])))
        gs = self.basic(g)
        self.ctx.log("where")
        return self.ctx.call("where", base.where, gs)

    def u_tuples(self, f):
        if not f.pts:
            st = self.new(None, f.closed)
            return st
        st = self.basic(self._filled(f))
        for lo, hi, v in f.pieces():
            if v is None:
                a = self.dom.enc(lo) if lo is not None else None
                b = self.dom.enc(hi) if hi is not None else None
                # prefer clip for the unbounded ones
                if lo is None and self.rng.random() < 0.5:
                    self.ctx.log("clip", b, None)
                    st = self.ctx.call("clip", st.clip, b, None)
                elif hi is None and self.rng.random() < 0.5:
                    self.ctx.log("clip", None, a)
                    st = self.ctx.call("clip", st.clip, None, a)
                else:
                    self.ctx.log("mask", (a, b))
                    st = self.ctx.call("mask", st.mask, (a, b))
        return st

    def u_div(self, f):
        base = self.basic(self._filled(f))
        g = self.basic(M.notna(f))
        self.ctx.log("x / indicator")
        return self.ctx.call("divide", lambda: base / g)

    def u_addnan(self, f):
        base = self.basic(self._filled(f))
        z = self.r_from_values(f.map(lambda v: None if v is None else F(0)))
        self.ctx.log("x + nan-function")
        return self.ctx.call("add", lambda: base + z)

    # ---------------------------------------------------------------- public
    def basic(self, f):
        r = self.rng.choice(self.DEFINED)
        st = getattr(self, r)(f)
        self.ctx.route(r)
        self.materialise(st)
        return st

    def build(self, f: SF, depth=2, route=None):
        rng = self.rng
        und = f.has_undefined()
        if route is None:
            if und:
                opts = list(self.UNDEF)
                if depth > 1 and rng.random() < 0.3:
                    opts = list(self.UNDEF_DERIVED)
            else:
                opts = list(self.DEFINED)
                if depth > 1 and rng.random() < 0.4:
                    opts = list(self.DERIVED)
                elif depth > 0 and rng.random() < 0.1:
                    opts = ["r_sum_parts"]
            route = rng.choice(opts)
        if und and not f.pts:
            # undefined everywhere
            k = rng.random()
            if k < 0.5:
                st = self.new(None, f.closed)
            elif k < 0.75:
                x = self.basic(SF([F(1)], [F(0), F(2)], f.closed))
                st = self.ctx.call("mask", lambda: x.mask(sc.Stairs(initial_value=1)))
                if st.closed != f.closed:
                    st = self.new(None, f.closed)
            else:
                x = self.basic(SF([F(1), F(3)], [F(0), F(2), F(1)], f.closed))
                st = self.ctx.call("add", lambda: x * float("nan"))
            self.ctx.route("undef_everywhere")
        else:
            st = getattr(self, route)(f)
            self.ctx.route(route)
        self.materialise(st)
        return st

    # -------------------------------------------------------------- operands
    def plain(self, f):
        """the plainest construction there is"""
        if not f.pts:
            return sc.Stairs(initial_value=float("nan") if f.vals[0] is None else pynum(f.vals[0]), closed=f.closed)
        if f.has_undefined() or self.rng.random() < 0.3:
            s = pd.Series([float("nan") if v is None else float(v) for v in f.vals[1:]],
                          index=self.dom.array(f.pts))
            return sc.Stairs.from_values(float("nan") if f.vals[0] is None else float(f.vals[0]), s, closed=f.closed)
        st = sc.Stairs(initial_value=pynum(f.vals[0]), closed=f.closed)
        for p, a, b in zip(f.pts, f.vals, f.vals[1:]):
            st.layer(self.dom.enc(p), None, float(b - a))
        return st

    def verified(self, st, f):
        """st denotes f, with f's closed side, without touching st's internal forms"""
        try:
            o = observe.frame(copy.deepcopy(st), self.dom, lambda n, fn, *a: fn(*a))
            observe.same_function(o, f)
        except (observe.Mismatch, Violation):
            return False
        return st.closed == f.closed

    def operand(self, f, depth=2, route=None):
        """A verified operand.  How operands come about is the business of C02 and
        C16; everywhere else a construction route that fails is replaced, so that a
        check blames the operation it is about."""
        try:
            st = self.build(f, depth, route)
            if self.verified(st, f):
                return st
        except (Violation, observe.Mismatch):
            pass
        self.ctx.count("operand_rebuilt")
        try:
            st = self.plain(f)
            if self.verified(st, f):
                self.ctx.log("(rebuilt plainly)", f)
                return st
        except Exception as e:
            raise Skip(f"operand {f}: {type(e).__name__} {e}")
        raise Skip(f"operand {f} could not be built")

    READS = ["step_values", "step_changes", "to_frame", "number_of_steps", "limit",
             "step_points", "sample", "bool", "identical", "stats"]

    def materialise(self, st, p=0.5):
        """reads that may or may not build the other internal form"""
        rng = self.rng
        if rng.random() > p:
            return
        for r in rng.sample(self.READS, rng.choice([1, 1, 2])):
            self.read(st, r)

    def read(self, st, r):
        c = self.ctx.call
        self.ctx.log("read", r)
        if r in ("step_values", "step_changes", "step_points", "number_of_steps"):
            c(r, getattr, st, r)
        elif r == "to_frame":
            c(r, st.to_frame)
        elif r == "limit":
            c(r, st.limit, self.dom.enc(F(1)), "left")
        elif r == "sample":
            c(r, st, self.dom.enc(F(1)))
        elif r == "bool":
            c(r, bool, st)
        elif r == "identical":
            c(r, st.identical, st)
        elif r == "stats":
            c(r, st.mean)
