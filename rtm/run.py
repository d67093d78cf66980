"""python -m rtm.run C01 [--tier quick|thorough] [--replay FILE] [--seed N]

Runs the monitored workload of one property against /repo's working tree and
reports what the monitors observed.  Exit 0: held on everything observed.
Exit 1: violation (with a VIOLATION line).  Exit 2: no verdict (the monitors
were not reached, or the harness itself failed).
"""
from __future__ import annotations

import argparse
import collections
import importlib
import json
import multiprocessing as mp
import os
import signal
import sys
import tempfile
import time
import traceback
import warnings

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = "/repo"
CASE_LIMIT = 120
WATCHDOG = {"quick": 780, "thorough": 3 * 3600}


def setup_target():
    import matplotlib.pyplot  # noqa
    import numpy as np
    import pandas  # noqa
    sys.dont_write_bytecode = True
    sys.pycache_prefix = tempfile.gettempdir() + f"/rtm-pyc-{os.getpid()}"  # never read stale caches
    sys.path.insert(0, REPO)
    warnings.simplefilter("ignore")
    import staircase
    path = os.path.realpath(staircase.__file__)
    if not path.startswith(REPO + "/"):
        raise SystemExit(f"wrong staircase imported: {path}")
    np.seterr(all="ignore")


# ------------------------------------------------------- reach of the workload
class Reach:
    """which lines of the library the workload executed (sys.monitoring)"""

    def __init__(self):
        self.hit = collections.defaultdict(set)
        self.on = False

    def start(self):
        mon = getattr(sys, "monitoring", None)
        if mon is None:
            return
        try:
            mon.use_tool_id(3, "rtm")
        except ValueError:
            return
        prefix = REPO + "/staircase/"

        def line(code, lineno):
            if code.co_filename.startswith(prefix):
                self.hit[code.co_filename[len(REPO) + 1:]].add(lineno)
            return mon.DISABLE
        mon.register_callback(3, mon.events.LINE, line)
        mon.set_events(3, mon.events.LINE)
        self.on = True

    def stop(self):
        if self.on:
            sys.monitoring.set_events(3, 0)
            sys.monitoring.free_tool_id(3)


def code_lines(path):
    """line numbers inside function bodies (those only execution reaches)"""
    with open(path) as f:
        src = f.read()
    out = set()
    def walk(code, inside):
        if inside:
            out.update(l for _, _, l in code.co_lines() if l and l != code.co_firstlineno)
        for c in code.co_consts:
            if hasattr(c, "co_code"):
                walk(c, inside or c.co_flags & 0x2)
    walk(compile(src, path, "exec"), False)
    return out


class CaseTimeout(Exception):
    pass


def run_case(mod, prop, seed, kind, i, tier):
    from .ctx import Ctx, Skip, Violation
    from .observe import Mismatch
    ctx = Ctx(prop, seed, f"{kind}:{i}", tier)
    res = {"kind": kind, "i": i, "status": "ok"}
    def on_alarm(*_):
        raise CaseTimeout()
    signal.signal(signal.SIGALRM, on_alarm)
    signal.alarm(CASE_LIMIT)
    try:
        mod.KINDS[kind](ctx, i)
    except Skip as e:
        res.update(status="skip", msg=str(e)[:300])
    except CaseTimeout:
        res.update(status="timeout", msg="case time limit")
    except (Violation, Mismatch) as e:
        res.update(status="violation", msg=str(e)[:4000], vkind=getattr(e, "kind", "mismatch"),
                   tags=sorted(ctx.tags), transcript=ctx.transcript())
    except Exception as e:  # the harness's own fault
        res.update(status="error", msg=f"{type(e).__name__}: {e}"[:500],
                   tb=traceback.format_exc()[-3000:])
    finally:
        signal.alarm(0)
    return res, ctx


def worker(mod, prop, seed, tier, cases, part, nparts, q, stop):
    reach = Reach()
    reach.start()
    counts = collections.Counter()
    sigs = set()
    status = collections.Counter()
    bad, samples, skips = [], [], []
    t0 = time.time()
    for n in range(part, len(cases), nparts):
        if stop.is_set():
            break
        kind, i = cases[n]
        res, ctx = run_case(mod, prop, seed, kind, i, tier)
        status[res["status"]] += 1
        counts.update(ctx.counts)
        counts["cases:" + kind] += 1
        if res["status"] == "ok":
            if ctx.sig:
                sigs.add(ctx.signature())
            if len(samples) < 2 and ctx.events:
                samples.append({"case": f"{kind}:{i}", "transcript": ctx.transcript()[:8]})
        elif res["status"] == "skip":
            if len(skips) < 3:
                skips.append(res)
        else:
            bad.append(res)
            if len(bad) >= 40:
                break
    reach.stop()
    q.put({"counts": dict(counts), "sigs": sigs, "status": dict(status), "bad": bad,
           "samples": samples, "skips": skips, "hit": {k: sorted(v) for k, v in reach.hit.items()},
           "wall": time.time() - t0})


def load_findings():
    p = os.path.join(VERIF, "known_findings.json")
    if not os.path.exists(p):
        return []
    with open(p) as f:
        return json.load(f).get("findings", [])


def match_finding(findings, prop, res):
    for f in findings:
        if f.get("property") != prop:
            continue
        m = f["match"]
        if "tag" in m and m["tag"] not in res.get("tags", []):
            continue
        if "kind" in m and m["kind"] != res.get("vkind"):
            continue
        if "text" in m and m["text"] not in res["msg"]:
            continue
        return f
    return None


def main(argv=None):
    ap = argparse.ArgumentParser()
    ap.add_argument("prop")
    ap.add_argument("--tier", default=os.environ.get("VERIF_TIER", "quick"), choices=["quick", "thorough"])
    ap.add_argument("--seed", type=int, default=int(os.environ.get("VERIF_SEED", "1") or 1))
    ap.add_argument("--replay")
    ap.add_argument("--scale", type=float, default=1.0)
    ap.add_argument("--kind")
    ap.add_argument("--jobs", type=int, default=8)
    ap.add_argument("--verbose", action="store_true")
    a = ap.parse_args(argv)
    t0 = time.time()
    for v in ("OMP_NUM_THREADS", "OPENBLAS_NUM_THREADS"):
        os.environ.setdefault(v, "1")
    try:
        setup_target()
        mod = importlib.import_module(f"rtm.checks.{a.prop.lower()}")
    except SystemExit:
        raise
    except Exception:
        traceback.print_exc()
        print(f"INCONCLUSIVE property={a.prop} the library could not be imported")
        return 2
    if a.replay:
        with open(a.replay) as f:
            r = json.load(f)
        res, ctx = run_case(mod, a.prop, r["seed"], r["kind"], r["i"], r.get("tier", "quick"))
        for l in ctx.transcript():
            print("   ", l)
        print(res["status"], res.get("msg", ""))
        if res.get("tb"):
            print(res["tb"])
        if res["status"] == "violation":
            print(f"VIOLATION property={a.prop} replay={a.replay}")
            return 1
        return 0 if res["status"] == "ok" else 2

    plan = mod.plan(a.tier)
    cases = []
    for kind, n in plan:
        if a.kind and kind != a.kind:
            continue
        cases += [(kind, i) for i in range(max(1, int(n * a.scale)))]
    # spread kinds evenly over workers
    import random
    random.Random(0).shuffle(cases)
    nparts = max(1, min(a.jobs, len(cases)))
    mpx = mp.get_context("fork")
    q, stop = mpx.Queue(), mpx.Event()
    procs = [mpx.Process(target=worker, args=(mod, a.prop, a.seed, a.tier, cases, p, nparts, q, stop), daemon=True)
             for p in range(nparts)]
    for p in procs:
        p.start()
    parts, deadline, timed_out = [], t0 + WATCHDOG[a.tier], False
    while len(parts) < nparts:
        try:
            parts.append(q.get(timeout=1))
        except Exception:
            if time.time() > deadline and not timed_out:
                timed_out = True
                stop.set()
                deadline = time.time() + 60
            elif time.time() > deadline:
                break
            if all(not p.is_alive() for p in procs) and q.empty():
                break
    for p in procs:
        if p.is_alive() and timed_out:
            p.terminate()
        p.join(timeout=10)

    counts, status = collections.Counter(), collections.Counter()
    sigs, bad, samples, skips = set(), [], [], []
    hit = collections.defaultdict(set)
    for r in parts:
        counts.update(r["counts"]); status.update(r["status"]); sigs |= r["sigs"]
        bad += r["bad"]; samples += r["samples"]; skips += r["skips"]
        for k, v in r["hit"].items():
            hit[k] |= set(v)
    findings = load_findings()
    violations = [b for b in bad if b["status"] == "violation"]
    errors = [b for b in bad if b["status"] in ("error", "timeout")]
    known, fresh = {}, []
    for v in violations:
        f = match_finding(findings, a.prop, v)
        if f:
            known.setdefault(f["id"], (f, v))
        else:
            fresh.append(v)

    # evidence ---------------------------------------------------------------
    anchors = []
    try:
        with open(os.path.join(VERIF, "properties.jsonl")) as fh:
            for l in fh:
                d = json.loads(l)
                if d["id"] == a.prop:
                    anchors = d["anchors"]["files"]
    except OSError:
        pass
    reach = {}
    for f in anchors:
        p = os.path.join(REPO, f)
        if os.path.exists(p):
            ls = code_lines(p)
            reach[f] = f"{len(ls & hit.get(f, set()))}/{len(ls)} body lines executed"
    ev = {
        "property": a.prop, "tier": a.tier, "seed": a.seed, "level": "exploration",
        "coverage": {
            "evaluations": int(sum(counts.get(k, 0) for k in ("functions_observed", "answers_observed", "assertions"))),
            "distinct_nontrivial": len(sigs),
            "rule": getattr(mod, "RULE", ""),
            "samples": samples[:6],
            "cases": int(sum(status.values())), "case_status": dict(status),
            "plan": [[k, n] for k, n in plan],
            "observed": {k: int(v) for k, v in sorted(counts.items())},
            "anchor_reach": reach,
        },
        "wall_s": round(time.time() - t0, 2),
        "assumptions": getattr(mod, "ASSUMPTIONS", []),
        "violations": len(fresh),
    }
    os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
    with open(os.path.join(VERIF, "evidence", f"{a.prop}.json"), "w") as fh:
        json.dump(ev, fh, indent=1, default=str)
        fh.write("\n")

    if a.verbose:
        print(json.dumps(ev["coverage"]["observed"], indent=0))
        print(json.dumps(reach, indent=1))
        for s in skips[:5]:
            print("skip", s)
    for fid, (f, v) in known.items():
        print(f"KNOWN-FINDING: property={a.prop} {f['what']}")
    print(f"{a.prop} {a.tier} seed={a.seed}: {sum(status.values())} cases {dict(status)}, "
          f"{ev['coverage']['evaluations']} observations, {len(sigs)} distinct, {ev['wall_s']}s")
    if fresh:
        out = os.path.join(VERIF, "replays", a.prop)
        os.makedirs(out, exist_ok=True)
        fresh.sort(key=lambda v: (v["kind"], v["i"]))
        by = collections.OrderedDict()
        for v in fresh:
            by.setdefault((v["vkind"], v["msg"][:60]), v)
        for v in list(by.values())[:8]:
            path = os.path.join(out, f"s{a.seed}-{v['kind']}-{v['i']}.json")
            with open(path, "w") as fh:
                json.dump({"property": a.prop, "seed": a.seed, "tier": a.tier, **v,
                           "how": f"cd /verif && ./check {a.prop} --replay {path}"}, fh, indent=1, default=str)
            print(f"  [{v['kind']}:{v['i']}] {v['vkind']} {v['msg'][:600]}")
            print(f"VIOLATION property={a.prop} replay={path}")
        return 1
    need = getattr(mod, "REQUIRE", {})
    problems = []
    if errors:
        problems.append(f"{len(errors)} harness errors, e.g. {errors[0]['kind']}:{errors[0]['i']} {errors[0]['msg']}\n{errors[0].get('tb','')}")
    if timed_out or len(parts) < nparts:
        problems.append("watchdog expired" if timed_out else "a worker died")
    n = max(1, sum(status.values()))
    if status["skip"] > 0.25 * n:
        problems.append(f"{status['skip']} of {n} cases could not be set up: {skips[:1]}")
    if a.scale >= 1 and not a.kind:
        for k, m in need.items():
            if counts.get(k, 0) < m:
                problems.append(f"monitor reached only {counts.get(k, 0)} x {k} (needs {m})")
    if problems:
        print(f"INCONCLUSIVE property={a.prop} " + "; ".join(problems))
        return 2
    print(f"HELD property={a.prop}")
    return 0


if __name__ == "__main__":
    sys.exit(main())
