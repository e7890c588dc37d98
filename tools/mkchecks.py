#!/usr/bin/env python3
"""Writes checks.json (what the engine runs) and MANIFEST.json from the table below."""
import json, os
D = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
P = {}

MARK = {"C01": "query", "C02": "history", "C03": "utility", "C04": "policy", "C05": "policy", "C06": "in force"}

def prop(pid, note, outside, *hs):
    for d in hs:
        if not d["reach"]:
            d["reach"] = [MARK.get(pid, "end")]
    P[pid] = dict(note=note, outside=outside, hs=hs)

def h(name, bounds, *reach, **kw):
    d = dict(name=name, bounds=bounds, reach=list(reach))
    d.update(kw)
    return d

exec(open(os.path.join(D, "tools", "checks_table.py")).read())

NA = [dict(property="C27", reason="Rounding: the encoding gives floating-point numbers exact real semantics, because the solvers at hand cannot decide bit-precise IEEE-754 sums and products over whole variable elimination; a bound on accumulated rounding error is outside this encoding.")]

TUI = {"C19", "C21", "C22", "C23", "C24", "C25", "C26"}
CMD = {"C19", "C21", "C22", "C23"}
checks, mani = [], []
for pid in sorted(P):
    p = P[pid]
    checks.append(dict(property=pid, harnesses=p["hs"], outside=p["outside"], tui=pid in TUI, cmd=pid in CMD))
    mani.append(dict(property=pid, quick_cmd="bash check.sh %s quick" % pid, thorough_cmd="bash check.sh %s thorough" % pid,
        technique="symbolic execution of the repository's Go SSA with Z3 deciding every assertion over all symbolic inputs within bounds; counterexamples replayed natively",
        level="model_checking",
        level_note=p["note"] + " Holds for all values of the symbolic inputs within the stated bounds, floating point taken as exact reals; trusted: the SSA interpreter and its models of standard-library functions (validated per run by running sampled paths natively), the SMT solver."))
ids = [json.loads(l)["id"] for l in open(os.path.join(D, "properties.jsonl"))]
na = NA + [dict(property=i, reason="no check built yet") for i in ids if i not in P and i not in [n["property"] for n in NA]]
json.dump(checks, open(os.path.join(D, "checks.json"), "w"), indent=1)
json.dump(dict(version=1, setup_cmd="bash setup.sh", checks=mani, not_applicable=na,
    notes="No hooks in /repo: the harnesses use exported functions only and are added by a build overlay."), open(os.path.join(D, "MANIFEST.json"), "w"), indent=1)
