"""C16 results depend only on the functions denoted, and compose without errors."""
from __future__ import annotations

import copy
from fractions import Fraction as F

import numpy as np
import pandas as pd

import staircase as sc
from .. import domains, gen, model as M, observe, ops, queries
from ..build import Builder, pynum
from ..ctx import Skip, Violation
from ..model import SF
from ..observe import Mismatch, check_same, frame, same_function
from ._stats import fits, stat_sf

RULE = ("random programs over every catalogued operation (operators with functions and scalars, unary operators, masking, "
        "filling, translation, collection aggregations, layering) on leaves of every construction route, with reads, "
        "statistics, copies interposed anywhere, every intermediate result compared with the pointwise model; the same program on "
        "differently built leaves; every query asked of differently built equal functions; every operation x internal form "
        "of each operand x shape enumerated; every scalar operation x python / numpy scalar type enumerated; chains of "
        "repeated operations")
BIG = F(2) ** 40


def tame(m):
    return m.exact and len(m.pts) <= 60 and all(v is None or (abs(v) < BIG and v.denominator <= 2**24) for v in m.vals)


def interpose(ctx, b, st, f):
    """something is asked of an operand before it is used"""
    rng = ctx.rng
    k = rng.random()
    if k < 0.5:
        return
    if k < 0.85:
        b.materialise(st, 1.0)
    elif f.finite_defined() and fits(f, b.dom):
        n = rng.choice(["mean", "integral", "var", "median", "mode", "ecdf", "percentile", "hist", "min", "max", "value_sums"])
        if n == "hist" and not small_range(f):
            n = "mode"
        ctx.log("ask", n)
        r = ctx.call(n, getattr, st, n)
        if callable(r) and not isinstance(r, sc.Stairs):
            ctx.call(n, r)
        if n in ("mean", "integral") and rng.random() < 0.5:
            pass
    ctx.count("interposed_reads")


def small_range(f):
    """the default bins of a histogram have width 1"""
    vs = [v for v in f.vals if v is not None]
    return max(vs) - min(vs) < 3000


def apply(ctx, b, o, args, step, closed):
    """-> (result, model) with the result compared"""
    fs = [f for _, f in args]
    p = o.draw(ctx.rng, b.dom, fs)
    m = o.model(fs, p)
    if any(v is not None and abs(v) > F(2)**45 for v in m.vals):
        raise Skip("too big")
    for x, f in args:
        interpose(ctx, b, x, f)
    r = o.run(b, [x for x, _ in args], p)
    return r, m, p


def describe(args):
    return [f for _, f in args]


def start(ctx, b, n, closed, pal=None):
    rng = ctx.rng
    out = []
    for _ in range(n):
        f = gen.sf(rng, b.dom, pal=pal or gen.palette(rng, ["small", "small", "small", "bool", "two", "frac", "pos"] + ([] if b.dom.is_time else ["specks"])), closed=closed, hi=5)
        ctx.log("leaf", f)
        out.append((b.build(f), f))
    return out


def consistent(args):
    """a step-free function of the other side may have been given steps"""
    return len({f.closed for _, f in args if f.pts}) < 2


def program(ctx, i):
    rng = ctx.rng
    b = Builder(ctx, domains.pick(rng))
    closed = rng.choice(["left", "right"])
    live = start(ctx, b, rng.randint(2, 4), closed)
    for x, f in live:
        check_same(x, f, b.dom, ctx, "leaf")
    last = None
    for step in range(rng.randint(2, 7)):
        k = rng.random()
        if k < 0.1:
            # layering a copy is an operation as well
            x, f = rng.choice(live)
            r = ctx.call("copy", x.copy)
            ts = [(rng.choice(list(f.pts) + [F(1), None]), rng.choice(list(f.pts) + [F(4), None]), F(rng.choice([1, -1, 2])))
                  for _ in range(rng.randint(1, 3))]
            b.layer_any(r, ts)
            m, what = f.layered(ts), f"step {step}: layering {ts} on {f}"
        else:
            o = rng.choice(ops.ALL) if rng.random() < 0.6 else rng.choice(ops.BIN + ops.UNARY)
            n = o.arity if o.arity != "n" else rng.randint(1, 4)
            args = [last if last and rng.random() < 0.4 else rng.choice(live) for _ in range(n)]
            if not consistent(args):
                continue
            fs = [f for _, f in args]
            r, m, p = apply(ctx, b, o, args, step, closed)
            what = f"step {step}: {o}{p} of {fs}"
            ctx.count("ops:" + o.group)
        check_same(r, m, b.dom, ctx, what)
        ctx.count("steps")
        if tame(m):
            last = (r, m.with_closed(r.closed))
            live.append(last)
        else:
            break
        if rng.random() < 0.15:
            audit(ctx, b, live)
    audit(ctx, b, live)
    final_query(ctx, b, live)
    ctx.count("programs")
    ctx.note("program", [f.key() for _, f in live], b.dom.kind)


def audit(ctx, b, live):
    for x, f in live:
        same_function(frame(copy.deepcopy(x), b.dom, ctx.call), f, "a live function")


def final_query(ctx, b, live):
    """a query of the last result equals the query of a plainly built equal function"""
    rng = ctx.rng
    for x, f in live[-2:]:
        if not tame(f) or not fits(f, b.dom):
            continue
        ask_both(ctx, b, [x], f, b.plain(f), n=2)


def ask_both(ctx, b, variants, f, plain, n=1, names=None):
    rng = ctx.rng
    for q in rng.sample(queries.ALL, n * 3) if names is None else [queries.QUERIES[k] for k in names]:
        if n <= 0:
            break
        if not q.need(f) or (not fits(f, b.dom) and q.name not in ("sample", "limit", "frame")):
            continue
        p = q.draw(rng, b.dom, f)
        if p is None:
            continue
        n -= 1
        if q.name == "moments":
            b.partner = b.plain(queries.PARTNERS[p[1]](f))
        want = outcome(ctx, lambda: q.run(b, plain, p))
        for j, x in enumerate(variants):
            if q.name == "moments" and rng.random() < 0.7:
                b.partner = b.operand(queries.PARTNERS[p[1]](f))
            interpose(ctx, b, x, f)
            ctx.log("query", q.name, str(p))
            got = outcome(ctx, lambda: q.run(b, x, p))
            compare(ctx, b, q, p, f, got, want, j)


def outcome(ctx, fn):
    try:
        return "value", fn()
    except (Violation, Mismatch) as e:
        return "error", e


def compare(ctx, b, q, p, f, got, want, j):
    ctx.count("answers_compared")
    ctx.count("query:" + q.name)
    if got[0] != want[0]:
        raise Mismatch(f"{q.name}{p} of {f}: {got[1]} by one construction (variant {j}), {want[1]} by the plain one")
    if got[0] == "error":
        ctx.count("both_failed")
        return
    tol, ltol = queries.tolerances(f, b.dom)
    d = queries.same(got[1], want[1], tol, ltol)
    if d:
        raise Mismatch(f"{q.name}{p} of {f} depends on how the function was built (variant {j}): {d}")


def variants(ctx, i):
    """every query, asked of one function built in several ways"""
    rng = ctx.rng
    b = Builder(ctx, domains.pick(rng))
    closed = rng.choice(["left", "right"])
    f = stat_sf(rng, b.dom, closed=closed) if rng.random() < 0.85 else gen.sf(rng, b.dom, closed=closed)
    xs = []
    for _ in range(3):
        xs.append(b.operand(f))
    ask_both(ctx, b, xs, f, b.plain(f), n=3)
    q = queries.ALL[i % len(queries.ALL)]
    ask_both(ctx, b, xs[:2], f, b.plain(f), n=1, names=[q.name])
    ctx.note("variants", f.key(), b.dom.kind, q.name)


def twins(ctx, i):
    """one program on differently built leaves: identical results"""
    rng = ctx.rng
    b = Builder(ctx, domains.pick(rng))
    closed = rng.choice(["left", "right"])
    fs = [gen.sf(rng, b.dom, closed=closed, hi=5) for _ in range(3)]
    sides = [[(b.operand(f), f) for f in fs] for _ in range(2)]
    for step in range(rng.randint(1, 4)):
        o = rng.choice(ops.ALL)
        n = o.arity if o.arity != "n" else rng.randint(1, 3)
        ix = [rng.randrange(len(fs)) for _ in range(n)]
        afs = [fs[j] for j in ix]
        if len({f.closed for f in afs if f.pts}) > 1:
            continue
        p = o.draw(rng, b.dom, afs)
        m = o.model(afs, p)
        if any(v is not None and abs(v) > F(2)**45 for v in m.vals):
            break
        rs = []
        for live in sides:
            args = [live[j] for j in ix]
            for x, f in args:
                interpose(ctx, b, x, f)
            rs.append(o.run(b, [x for x, _ in args], p))
        what = f"step {step}: {o}{p} of {afs}"
        o1, o2 = (frame(r, b.dom, ctx.call) for r in rs)
        # different spellings of a sum may round differently
        if m.exact and not (o1.pts == o2.pts and o1.vals == o2.vals):
            raise Mismatch(f"{what} gives {o1} and {o2} on differently built operands")
        check_same(rs[0], m, b.dom, ctx, what)
        check_same(rs[1], m, b.dom, ctx, what)
        if m.exact and rs[0].closed == rs[1].closed:
            ctx.expect(ctx.call("identical", rs[0].identical, rs[1]), f"{what}: results of differently built operands are not identical")
        ctx.count("twin_steps")
        if not tame(m) or rs[0].closed != rs[1].closed:
            break
        fs.append(m.with_closed(rs[0].closed))
        for live, r in zip(sides, rs):
            live.append((r, fs[-1]))
    ctx.note("twins", [f.key() for f in fs], b.dom.kind)


# ------------------------------------------------------------- internal forms
def form_layered(b, f):
    st = sc.Stairs(initial_value=pynum(f.vals[0]), closed=f.closed)
    for p, u, v in zip(f.pts, f.vals, f.vals[1:]):
        st.layer(b.dom.enc(p), None, pynum(v - u))
    return st


def form_values(b, f):
    if not f.pts:
        return sc.Stairs(initial_value=float("nan") if f.vals[0] is None else pynum(f.vals[0]), closed=f.closed)
    s = pd.Series([float("nan") if v is None else float(v) for v in f.vals[1:]], index=b.dom.array(f.pts))
    return sc.Stairs.from_values(float("nan") if f.vals[0] is None else pynum(f.vals[0]), s, closed=f.closed)


def form_vector(b, f):
    st = sc.Stairs(initial_value=pynum(f.vals[0]), closed=f.closed)
    if f.pts:
        st.layer(b.dom.array(f.pts), None, [pynum(v - u) for u, v in zip(f.vals, f.vals[1:])])
    return st


def both(fn):
    def make(b, f):
        st = fn(b, f)
        st.step_values if f.pts else None
        st.step_changes if f.pts else None
        return st
    return make


def form_sum(b, f):
    """changes only, by arithmetic"""
    return form_values_changes(b, f) + 0


def form_values_changes(b, f):
    return form_values(b, f) + form_values(b, SF.const(F(0), f.closed))


def form_compared(b, f):
    """values from a comparison (0/1 functions) or by masking nothing"""
    if all(v is None or v in (0, 1) for v in f.vals):
        return form_values(b, f) > 0
    return form_values(b, f).fillna(0) if not f.has_undefined() else form_values(b, f).mask(form_values(b, SF.const(F(0), f.closed)))


def form_negneg(b, f):
    return -(-form_values(b, f))


def form_masked(b, f):
    """a defined function made undefined where f is"""
    d = f.map(lambda v: F(1) if v is None else v)
    st = form_layered(b, d)
    return st.mask(form_values(b, M.isna(f))) if f.has_undefined() else st.mask(sc.Stairs())


def form_layeroff(b, f):
    st = form_layered(b, f)
    a = b.dom.enc(f.pts[0] if f.pts else F(1))
    return st.layer(a, None, 5).layer(a, None, -5)


def form_copy(b, f):
    return copy.deepcopy(form_values(b, f)).copy()


FORMS = {"layered": (form_layered, False), "layered+both": (both(form_layered), False), "vector": (form_vector, False),
         "values": (form_values, True), "values+both": (both(form_values), True), "sum": (form_sum, True),
         "compared": (form_compared, True), "negneg": (form_negneg, True), "masked": (form_masked, True),
         "masked+both": (both(form_masked), True), "layeroff": (form_layeroff, False), "copy": (form_copy, True)}

SHAPES = [SF([F(1), F(3)], [F(0), F(1), F(0)]), SF([F(1), F(3)], [F(2), F(0), F(1)]),
          SF([F(2), F(4)], [F(1), F(-2), F(1, 2)]), SF([F(1), F(2)], [None, F(1), F(0)]),
          SF([F(1), F(3)], [F(1), F(2), None]), SF([F(1), F(3)], [F(0), None, F(1)]), SF([F(2)], [None, F(1)]),
          SF.const(F(0)), SF.const(F(1)), SF.const(F(3)), SF.const(None)]


def forms_of(f):
    return [k for k, (_, nan) in FORMS.items() if nan or not f.has_undefined()]


def forms(ctx, i):
    """operation x operand forms, on enumerated shapes"""
    rng = ctx.rng
    dom = rng.choice([domains.NumDomain("int", 0, 1, 1), domains.NumDomain("float", 0, 1, 1),
                      domains.StampDomain("2020-01-01", "1D")])
    b = Builder(ctx, dom)
    o = ops.ALL[i % len(ops.ALL)]
    shapes = SHAPES if o.arity == 1 else rng.sample(SHAPES, 5)
    for f in shapes:
        closed = rng.choice(["left", "right"])
        f = f.with_closed(closed)
        if o.arity == 1:
            fss = [[f]]
        elif o.arity == 2:
            fss = [[f, rng.choice(SHAPES).with_closed(closed)] for _ in range(2)]
        else:
            fss = [[f] + [rng.choice(SHAPES).with_closed(closed) for _ in range(rng.randint(0, 2))]]
        for fs in fss:
            p = o.draw(rng, dom, fs)
            m = o.model(fs, p)
            combos = [[k] for k in forms_of(f)] if o.arity == 1 else \
                [[rng.choice(forms_of(g)) for g in fs] for _ in range(4)]
            for ks in combos:
                what = f"{o}{p} of {fs} in forms {ks}"
                ctx.log(what)
                xs = [FORMS[k][0](b, g) for k, g in zip(ks, fs)]
                r = o.run(b, xs, p)
                check_same(r, m, dom, ctx, what)
                ctx.count("form_combinations")
    ctx.note("forms", o.name, dom.kind)


# -------------------------------------------------------------- scalar types
def types_for(v):
    if v is None:
        return [float("nan"), np.nan, np.float64("nan"), np.float32("nan")]
    out = [t(float(v)) for t in (float, np.float64, np.float32, np.float16) if float(t(float(v))) == v]
    if v.denominator == 1:
        n = int(v)
        out += [n] + [t(n) for t in (np.int64, np.int32, np.int16, np.int8, np.uint8, np.uint16, np.uint32, np.uint64)
                      if np.iinfo(t).min <= n <= np.iinfo(t).max]
        if n in (0, 1):
            out += [bool(n), np.bool_(bool(n))]
    return out


SCALAR_OPS = sorted(M.BINARY) + ["fillna", "initial", "layer", "vlayer", "from_values", "sum", "identical"]


def scalars(ctx, i):
    rng = ctx.rng
    dom = rng.choice([domains.NumDomain("int", 0, 1, 1), domains.StampDomain("2020-01-01", "1h", "US/Eastern")])
    b = Builder(ctx, dom)
    name = SCALAR_OPS[i % len(SCALAR_OPS)]
    f = rng.choice(SHAPES).with_closed(rng.choice(["left", "right"]))
    if rng.random() < 0.5:
        f = gen.sf(rng, dom, closed=f.closed, pal=gen.palette(rng, ["small", "bool"]))
    given = f
    for v in (F(0), F(1), F(2), F(-1), F(1, 2), F(100), F(2)**62, -F(2)**63, F(2)**64, F(2)**70, None):
        if v is None and name in ("layer", "vlayer"):
            continue
        f = given
        if v is not None and abs(v) > 2**50:
            if name in ("initial", "from_values"):
                continue
            if name in ("add", "subtract", "layer", "vlayer", "sum"):
                f = SF.const(F(0), given.closed)        # a float could not hold the sums otherwise
        for s in types_for(v) if len(f.pts) < 8 else rng.sample(types_for(v), 3):
            for left in ((False, True) if name in M.BINARY else (False,)):
                ctx.count("scalar_types")
                what = f"{name} {'of' if left else 'with'} {s!r} ({type(s).__name__}) and {f}"
                ctx.log(what)
                c = SF.const(v, f.closed)
                if name in M.BINARY:
                    x = b.operand(f)
                    m = M.binary(name, c, f) if left else M.binary(name, f, c)
                    fn = ops.PYOPS[name]
                    r = ctx.call(name, fn, s, x) if left else ctx.call(name, fn, x, s)
                elif name == "fillna":
                    r, m = ctx.call(name, b.operand(f).fillna, s), M.fillna(f, v)
                elif name == "initial":
                    r = ctx.call(name, lambda: sc.Stairs(initial_value=s, closed=f.closed))
                    m = c
                    ts = [(F(1), F(2), F(300))]
                    check_same(r, m, dom, ctx, what)
                    b.layer_any(r, ts)
                    m = m.layered(ts)
                elif name in ("layer", "vlayer"):
                    a, z = F(1), F(5)
                    x = ctx.call("copy", b.operand(f).copy)
                    if name == "layer":
                        r = ctx.call("layer", x.layer, dom.enc(a), dom.enc(z), s)
                    else:
                        r = ctx.call("layer", x.layer, [dom.enc(a), dom.enc(z)], None, [s, s])
                    m = f.layered([(a, z, v)]) if name == "layer" else f.layered([(a, None, v), (z, None, v)])
                elif name == "from_values":
                    if v is None:
                        continue
                    r = ctx.call(name, sc.Stairs.from_values, s, pd.Series(np.array([s, s]), index=dom.array([F(1), F(2)])),
                                 closed=f.closed)
                    check_same(r, c, dom, ctx, what)
                    ts = [(F(1), F(2), F(300))]
                    b.layer_any(r, ts)
                    m = c.layered(ts)
                elif name == "identical":
                    x = b.operand(f)
                    got = ctx.call(name, x.identical, s)
                    ctx.expect(bool(got) == f.same(c), f"{what} is {got}")
                    continue
                else:
                    x = b.operand(f)
                    r = ctx.call(name, lambda: sc.sum([x, sc.Stairs(initial_value=s, closed=f.closed)]))
                    m = M.binary("add", f, c)
                check_same(r, m, dom, ctx, what)
                # its values are ordinary numbers
                if tame(m) and rng.random() < 0.25:
                    r2 = ctx.call("multiply", lambda: r * 200 - 300)
                    check_same(r2, m.map(lambda w: None if w is None else w * 200 - 300), dom, ctx, what + ", then * 200 - 300")
    ctx.note("scalars", name, f.key(), dom.kind)


def chains(ctx, i):
    """one operation repeated, or alternated with another, many times"""
    rng = ctx.rng
    b = Builder(ctx, domains.pick(rng))
    closed = rng.choice(["left", "right"])
    (x, f), (y, g) = start(ctx, b, 2, closed, gen.PALETTES[rng.choice(["small", "bool", "two"])])
    pool = rng.sample([o for o in ops.ALL if o.group in ("binary", "unary", "masking", "scalar")], 3)
    for step in range(rng.randint(6, 20)):
        o = rng.choice(pool)
        args = [(x, f), (y, g)] if o.arity == 2 else [(x, f)]
        if o.arity == 2 and rng.random() < 0.3:
            args.reverse()
        if not consistent(args):
            break
        p = o.draw(rng, b.dom, [h for _, h in args])
        m = o.model([h for _, h in args], p)
        if not tame(m):
            break
        r = o.run(b, [z for z, _ in args], p)
        if rng.random() < 0.35:
            check_same(r, m, b.dom, ctx, f"chain step {step}: {o}{p} of {describe(args)}")
        else:
            same_function(frame(copy.deepcopy(r), b.dom, ctx.call), m, f"chain step {step}: {o}{p} of {describe(args)}")
            ctx.count("functions_observed")
        x, f = r, m.with_closed(r.closed)
        ctx.count("chain_steps")
    check_same(x, f, b.dom, ctx, "the end of the chain")
    ctx.note("chain", [o.name for o in pool], f.key(), b.dom.kind)


KINDS = {"program": program, "variants": variants, "twins": twins, "forms": forms, "scalars": scalars, "chains": chains}
REQUIRE = {"steps": 2500, "answers_compared": 2500, "twin_steps": 800, "form_combinations": 4000, "scalar_types": 4000,
           "chain_steps": 1200, "interposed_reads": 2500, "functions_observed": 14000}


def plan(tier):
    if tier == "quick":
        return [("program", 900), ("variants", 420), ("twins", 500), ("forms", len(ops.ALL) * 3), ("scalars", len(SCALAR_OPS) * 6),
                ("chains", 250)]
    return [("program", 50000), ("variants", 15000), ("twins", 20000), ("forms", len(ops.ALL) * 80),
            ("scalars", len(SCALAR_OPS) * 100), ("chains", 10000)]
