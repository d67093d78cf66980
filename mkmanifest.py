#!/usr/bin/env python3
"""Regenerates MANIFEST.json (run by hand, from /verif)."""
import json, importlib, sys
T = {
"C01": "shadow-model monitor: every arithmetic result compared, piece by piece, with an exact pointwise oracle",
"C02": "shadow-model monitor: the function observed after every call of a layering history against the sum of intervals",
"C03": "cross-view monitor: limit/sample and the structural views against the exact function and each other",
"C04": "shadow-model monitor: pointwise relational oracle plus follow-up use of the result",
"C05": "shadow-model monitor: pointwise logical oracle",
"C06": "shadow-model monitor: exact domain-restriction oracle",
"C07": "shadow-model monitor: exact fill oracle",
"C08": "shadow-model monitor: exact length-weighted moment oracle",
"C09": "shadow-model monitor: exact value-distribution oracle",
"C10": "shadow-model monitor: exact set-of-values-on-interval oracle",
"C11": "shadow-model monitor: exact per-interval oracle",
"C12": "invariant monitor on every returned step function (minimality) plus identical/bool against exact equality",
"C13": "write-after-operation histories watched by a shadow for every live object",
"C14": "query/mutate interleavings compared online with the shadow and with a fresh equal function",
"C15": "closed-side monitor over every result and every mixed-side combination",
"C16": "random programs of operations, monitored step by step, with provenance and materialisation variants",
"C17": "differential monitor: one abstract program replayed in every domain, results mapped back and compared",
"C18": "shadow-model monitor: exact member-wise oracle for collections, array operators, tables and matrices",
"C19": "shadow-model monitor: exact common-window moment oracle",
"C20": "shadow-model monitor: exact translation and window-mean oracle",
}
NOTE = ("Runtime monitoring of the real code: holds on every execution the seeded workload produced (the evidence file counts "
        "the events, operations and distinct functions the monitor saw). Trusts the independently written exact model in rtm/model.py "
        "and pandas/numpy; says nothing about inputs the generators do not produce.")
import os
checks, na = [], []
for c in sorted(T):
    if os.path.exists(f"rtm/checks/{c.lower()}.py"):
        checks.append({"property": c, "quick_cmd": f"./check {c} --tier quick", "thorough_cmd": f"./check {c} --tier thorough",
                       "technique": "runtime monitoring: " + T[c], "level": "exploration", "level_note": NOTE})
    else:
        na.append({"property": c, "reason": "its monitor is not written yet"})
json.dump({"version": 1, "setup_cmd": "/opt/venv/bin/python -c \"import rtm.run\"", "checks": checks, "not_applicable": na,
           "notes": "No hooks are needed in /repo: every monitor observes the public API from outside."},
          open("MANIFEST.json", "w"), indent=1)
