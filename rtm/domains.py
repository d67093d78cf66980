"""Affine images of the abstract rational line: x -> origin + x * unit."""
from __future__ import annotations

import datetime as dt
import zoneinfo
from fractions import Fraction as F

import numpy as np
import pandas as pd


def any_index(n, rng):
    """an index a caller's Series or DataFrame may have: row labels mean nothing"""
    k = rng.choice(["shuffled", "shuffled", "strings", "constant", "tail", "reversed", "sorted", "step", "dates",
                    "floats", "multi", "descending"])
    if k == "strings":
        return rng.sample([f"r{i}" for i in range(n)], n)
    if k == "constant":
        return [7] * n
    if k == "tail":                # what a slice of a default-indexed Series has
        j = rng.choice([1, 2, n, 10])
        return pd.RangeIndex(j, j + n)
    if k == "reversed":            # ... and s[::-1]
        return pd.RangeIndex(n - 1, -1, -1)
    if k == "descending":
        return pd.RangeIndex(n, 0, -1)
    if k == "sorted":              # a few rows of something longer
        return sorted(rng.sample(range(3 * n), n))
    if k == "step":
        return pd.RangeIndex(0, 2 * n, 2)
    if k == "dates":
        return pd.date_range("2020-01-01", periods=n)
    if k == "floats":
        return [i / 2 for i in range(n)]
    if k == "multi":
        return pd.MultiIndex.from_arrays([[0] * n, range(n)])
    idx = list(range(n))
    rng.shuffle(idx)
    return idx


class Domain:
    longest = 4096          # longest piece worth drawing, in units

    kind = ""
    den = 1            # points are multiples of 1/den
    is_time = False    # labels are not numbers

    def enc(self, x): raise NotImplementedError
    def dec(self, label): raise NotImplementedError
    def scalar(self, x, rng): return self.enc(x)
    def delta(self, d, rng=None): raise NotImplementedError
    def dec_len(self, d): raise NotImplementedError
    def missing(self, rng): return None
    def strings(self, x): return None

    def array(self, xs):
        """canonical homogeneous pandas Index of the labels"""
        return pd.Index([self.enc(x) for x in xs])

    def vec(self, xs, rng, kinds=None):
        """xs may contain None (missing)."""
        kinds = kinds or ["list", "tuple", "ndarray", "series", "series_idx", "index"]
        k = rng.choice(kinds)
        labels = [self.scalar(x, rng) if x is not None else self.missing(rng) for x in xs]
        return k, self._wrap(labels, k, rng)

    def _wrap(self, labels, k, rng):
        if k == "list":
            return labels
        if k == "tuple":
            return tuple(labels)
        s = self._series(labels)
        if rng.random() < 0.15:
            s = narrow(s, rng)
        if k == "ndarray":
            return s.array if is_nullable(s) else s.to_numpy()
        if k == "index":
            return pd.Index(s)
        if k == "series_idx":
            s.index = any_index(len(s), rng)
        return s

    def _series(self, labels):
        return pd.Series(labels)

    def __repr__(self):
        return self.name


class NumDomain(Domain):
    def __init__(self, kind, origin, unit, den):
        self.kind, self.origin, self.unit, self.den = kind, F(origin), F(unit), den
        self.name = f"{kind}(o={origin},u={unit})"

    def enc(self, x):
        v = self.origin + x * self.unit
        if self.kind == "int":
            assert v.denominator == 1
            return int(v)
        return float(v)

    def dec(self, label):
        return (F(float(label)) if not isinstance(label, (int, np.integer)) else F(int(label)))\
            .__sub__(self.origin) / self.unit

    def scalar(self, x, rng):
        v = self.enc(x)
        r = rng.random()
        if self.kind == "int":
            if r < 0.6: return v
            if r < 0.75: return np.int64(v)
            if r < 0.85: return float(v)
            if r < 0.95: return np.float64(v)
            return np.int32(v) if abs(v) < 2**31 else np.int64(v)
        if r < 0.7: return v
        if r < 0.9: return np.float64(v)
        if v == int(v): return int(v)
        return v

    def query(self, x, rng):
        return self.scalar(x, rng)

    def missing(self, rng):
        return rng.choice([None, float("nan"), np.nan])

    def _series(self, labels):
        return pd.Series(labels, dtype="float64") if any(
            l is None or l != l for l in labels) or self.kind == "float" else pd.Series(labels)

    def delta(self, d, rng=None):
        v = d * self.unit
        if self.kind == "int" and v.denominator == 1:
            v = int(v)
            return v if rng is None or rng.random() < 0.7 else rng.choice([np.int64(v), float(v)])
        v = float(v)
        return v if rng is None or rng.random() < 0.8 else np.float64(v)

    def dec_len(self, d):
        return (F(int(d)) if isinstance(d, (int, np.integer)) else F(float(d))) / self.unit

    def enc_len(self, d):
        return float(d * self.unit)


def _unit_ns(unit):
    return int(pd.Timedelta(unit).value)


class StampDomain(Domain):
    is_time = True

    def __init__(self, origin, unit, tz=None, den=1, tzname=None):
        self.tz = tz
        self.unit_ns = _unit_ns(unit)
        o = pd.Timestamp(origin)
        if tz is not None:
            o = o.tz_localize(tz)
        self.origin_ns = int(o.as_unit("ns").value)
        self.den = den
        assert self.unit_ns % den == 0
        self.kind = "naive" if tz is None else "tz"
        self.name = f"{self.kind}({origin},{unit},{tzname or tz})"

    def _ns(self, x):
        v = x * self.unit_ns
        assert v.denominator == 1, x
        return self.origin_ns + int(v)

    def enc(self, x):
        t = pd.Timestamp(self._ns(x))
        if self.tz is not None:
            t = t.tz_localize("UTC").tz_convert(self.tz)
        return t

    def array(self, xs):
        ix = pd.DatetimeIndex(np.array([self._ns(x) for x in xs], dtype="int64").view("M8[ns]"))
        return ix if self.tz is None else ix.tz_localize("UTC").tz_convert(self.tz)

    def dec(self, label):
        if isinstance(label, np.datetime64):
            # numpy has no time zones: .step_points of an aware function is UTC
            label = pd.Timestamp(label)
        elif isinstance(label, (pd.Timestamp, dt.datetime)):
            label = pd.Timestamp(label)
            if (label.tzinfo is None) != (self.tz is None):
                raise LabelError(f"label {label!r} lost/gained its timezone (domain {self.name})")
            if self.tz is not None and not same_tz(label.tz, self.tz):
                raise LabelError(f"label {label!r} changed timezone (domain {self.name})")
        else:
            raise LabelError(f"label {label!r} is not datetime-like (domain {self.name})")
        return F(int(label.as_unit("ns").value) - self.origin_ns, self.unit_ns)

    def scalar(self, x, rng):
        t = self.enc(x)
        r = rng.random()
        if r < 0.2:
            return coarse(t, rng)
        if r < 0.6:
            return t
        ns = self._ns(x)
        if self.tz is None:
            if r < 0.8:
                return coarse64(np.datetime64(ns, "ns"), rng)
            if ns % 1000 == 0:
                return t.to_pydatetime()
            return t
        if ns % 1000 == 0 and r < 0.8:
            return t.to_pydatetime()
        return t

    def query(self, x, rng):
        """a flavour for evaluation only: the same instant, possibly in another zone"""
        if self.tz is not None and rng.random() < 0.25:
            return self.enc(x).tz_convert(rng.choice(["UTC", "Asia/Tokyo"]))
        return self.scalar(x, rng)

    def missing(self, rng):
        return rng.choice([None, pd.NaT])

    def _series(self, labels):
        labels = [pd.NaT if l is None or l is pd.NaT else pd.Timestamp(l) for l in labels]
        if self.tz is not None:
            labels = [l if l is pd.NaT else l.tz_convert(self.tz) for l in labels]
            return pd.Series(pd.DatetimeIndex(labels).tz_convert(self.tz)
                             if any(l is not pd.NaT for l in labels)
                             else pd.DatetimeIndex(labels).tz_localize(self.tz))
        return pd.Series(pd.DatetimeIndex(labels))

    def delta(self, d, rng=None):
        v = d * self.unit_ns
        assert v.denominator == 1
        td = pd.Timedelta(int(v), "ns")
        if rng is None:
            return td
        if rng.random() < 0.7:
            return coarse(td, rng)
        if int(v) % 1000 == 0 and rng.random() < 0.5:
            return td.to_pytimedelta()
        return coarse64(np.timedelta64(int(v), "ns"), rng)

    def dec_len(self, d):
        if not isinstance(d, (pd.Timedelta, np.timedelta64, dt.timedelta)):
            raise LabelError(f"length {d!r} is not a Timedelta (domain {self.name})")
        return F(int(pd.Timedelta(d).as_unit("ns").value), self.unit_ns)

    def enc_len(self, d):
        return pd.Timedelta(int(d * self.unit_ns), "ns")

    def strings(self, x):
        if self.tz is None:
            return str(self.enc(x))
        # the zone is not carried by the string form unless it is a fixed offset
        return None


class DeltaDomain(StampDomain):
    def __init__(self, origin, unit, den=1):
        self.unit_ns = _unit_ns(unit)
        self.origin_ns = int(pd.Timedelta(origin).value)
        self.den = den
        self.tz = None
        self.kind = "timedelta"
        self.name = f"timedelta({origin},{unit})"

    def enc(self, x):
        return pd.Timedelta(self._ns(x), "ns")

    def array(self, xs):
        return pd.TimedeltaIndex(np.array([self._ns(x) for x in xs], dtype="int64").view("m8[ns]"))

    def dec(self, label):
        if not isinstance(label, (pd.Timedelta, np.timedelta64, dt.timedelta)):
            raise LabelError(f"label {label!r} is not a Timedelta")
        return F(int(pd.Timedelta(label).as_unit("ns").value) - self.origin_ns, self.unit_ns)

    def scalar(self, x, rng):
        t = self.enc(x)
        ns = self._ns(x)
        r = rng.random()
        if r < 0.2:
            return coarse(t, rng)
        if r < 0.7:
            return t
        if r < 0.85:
            return coarse64(np.timedelta64(ns, "ns"), rng)
        return t.to_pytimedelta() if ns % 1000 == 0 else t

    def query(self, x, rng):
        return self.scalar(x, rng)

    def _series(self, labels):
        labels = [pd.NaT if l is None or l is pd.NaT else pd.Timedelta(l) for l in labels]
        return pd.Series(pd.TimedeltaIndex(labels))

    def strings(self, x):
        return None


class LabelError(Exception):
    pass


def same_tz(a, b):
    if a is None or b is None:
        return a is b
    def n(z):
        for attr in ("zone", "key"):
            v = getattr(z, attr, None)
            if v:
                return v
        return str(z)
    if n(a) == n(b):
        return True
    # fixed offsets may be spelt differently
    try:
        t = dt.datetime(2021, 1, 1), dt.datetime(2021, 7, 1)
        off = lambda z: [z.utcoffset(x) for x in t]
        return off(a) == off(b) and off(a)[0] == off(a)[1]
    except Exception:
        return False


def coarse(t, rng):
    """the same Timestamp / Timedelta, held at a coarser resolution (as pandas does for most spellings)"""
    u = rng.choice(["s", "ms", "us", "ns"])
    c = t.as_unit(u)
    return c if c == t and c.as_unit("ns").value == t.value else t


def coarse64(t, rng):
    u = rng.choice(["D", "h", "s", "ms", "us", "ns"])
    c = t.astype(t.dtype.kind + f"8[{u}]")
    return c if c == t else t


def is_nullable(s):
    return isinstance(s.dtype, pd.api.extensions.ExtensionDtype) and getattr(s.dtype, "numpy_dtype", np.dtype("O")).kind in "iuf"


def narrow(s, rng):
    """the same labels (a Series or Index without time zone surprises) in a narrower, or a nullable, type"""
    kind = s.dtype.kind if isinstance(s.dtype, np.dtype) else None
    if kind == "i":
        opts = ["int32", "int16", "int8", "uint8", "uint32", "float32", "Int64", "Int32", "UInt8", "Float64"]
    elif kind == "f":
        opts = ["float32", "Float64", "Float32", "Int64"]
    elif kind in ("M", "m") or isinstance(s.dtype, pd.DatetimeTZDtype):
        opts = ["s", "ms", "us"]
    else:
        return s
    rng.shuffle(opts)
    for o in opts:
        if kind in ("i", "f"):
            if "nt" in o and len(s):
                lo, hi = s.min(), s.max()
                if kind == "f" and not (s.isna() | ((s % 1 == 0) & (abs(s) < 2**62))).all():
                    continue
                if lo == lo and not (np.iinfo(o.lower()).min <= lo and hi <= np.iinfo(o.lower()).max):
                    continue
            t = s.astype(o)
        else:
            t = s.dt.as_unit(o) if isinstance(s, pd.Series) else s.as_unit(o)
        back = t.astype(s.dtype)
        if len(s) and ((back == s) | pd.isna(s)).all():
            return t
    return s


def int_domain(rng):
    return NumDomain("int", rng.choice([0, 0, -3, 1000]), 1, 1)


def float_domain(rng):
    o, u = rng.choice([(0, 1), (0, 1), (0, F(1, 2)), (-3, 1), (F(401, 4), F(1, 4)), (0, F(1, 1024)), (-7, 8)])
    return NumDomain("float", o, u, rng.choice([1, 1, 2, 4]))


def naive_domain(rng):
    o, u, den = rng.choice([
        ("2020-01-01", "1h", 4), ("2020-02-27 06:30", "1D", 2), ("2021-12-31 23:00", "15min", 1),
        ("1969-12-31 22:00", "1h", 2), ("2020-01-01 00:00:00.000000123", "2ns", 2),
        ("2019-05-05", "1s", 1), ("2000-01-01", "30D", 1),
    ])
    return StampDomain(o, u, None, den)


TZS = [
    ("UTC", "2020-01-01", "1h", 2),
    (dt.timezone(dt.timedelta(hours=5, minutes=30)), "2020-03-01", "1D", 2),
    (dt.timezone(dt.timedelta(hours=-8)), "2020-03-01", "15min", 1),
    ("US/Eastern", "2021-03-13 22:00", "1h", 2),           # spring forward
    ("US/Eastern", "2021-11-06 23:00", "30min", 1),        # fall back (ambiguous hour)
    ("Australia/Sydney", "2021-04-03 12:00", "1D", 2),     # fall back, day steps
    ("Australia/Sydney", "2021-10-02 20:00", "1h", 4),
    (zoneinfo.ZoneInfo("Europe/London"), "2022-03-26 20:00", "1h", 2),
    ("Europe/London", "2022-10-29 21:00", "1h", 2),
]


def tz_domain(rng, i=None):
    tz, o, u, den = TZS[i] if i is not None else rng.choice(TZS)
    return StampDomain(o, u, tz, den)


def delta_domain(rng):
    o, u, den = rng.choice([("0s", "1h", 2), ("3D", "1D", 4), ("-2h", "1min", 1), ("5ns", "2ns", 2), ("0s", "1s", 1),
                            ("0s", "7D", 1)])
    return DeltaDomain(o, u, den)


MAKERS = {"int": int_domain, "float": float_domain, "naive": naive_domain,
          "tz": tz_domain, "timedelta": delta_domain}


def pick(rng, weights=None):
    w = weights or {"int": 3, "float": 3, "naive": 2, "tz": 2, "timedelta": 2}
    k = rng.choices(list(w), list(w.values()))[0]
    return MAKERS[k](rng)
