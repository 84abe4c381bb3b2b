"""Command line: decide one property of the source tree in /repo."""
import argparse
import json
import os
import sys
import time
import traceback
import warnings

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
EVID = os.path.join(HERE, "evidence")

TRUSTED = ["nnjcheck's model of the torch operations and of the Python subset used by nnj (compared with torch during development, DESIGN.md)",
           "the specification side of each obligation (spec.py, nets.py, rules.py)"]
ASSUME = ["real arithmetic: rounding is not modelled (C15 models overflow of exp only)",
          "an equation between two extracted terms is decided by evaluating both terms at sample sizes and sample values; agreement at all of them is taken as equality",
          "constructor options and container structures are those listed in the scenario registry; sizes, values and weights are symbolic"]


def known(prop):
    """entries 'known: property=<id> rule=<rule> construct=<construct> :: <what>' of the committed file"""
    out = []
    p = os.path.join(HERE, "KNOWN_FINDINGS.txt")
    if os.path.exists(p):
        for l in open(p):
            if l.startswith(f"known: property={prop} "):
                key, _, what = l[len(f"known: property={prop} "):].partition(" :: ")
                out.append((key.strip(), what.strip()))
    return out


def floors():
    p = os.path.join(HERE, "nnjcheck", "floors.json")
    return json.load(open(p)) if os.path.exists(p) else {}


def main():
    warnings.simplefilter("ignore")
    ap = argparse.ArgumentParser()
    ap.add_argument("--property", required=True)
    ap.add_argument("--tier", default=os.environ.get("VERIF_TIER", "quick"))
    ap.add_argument("--only", help="only scenarios with this text (development; no evidence is written)")
    ap.add_argument("-j", type=int, default=int(os.environ.get("NNJCHECK_JOBS", "0")) or None)
    ap.add_argument("--budget", type=float, help="seconds")
    ap.add_argument("-v", action="store_true")
    a = ap.parse_args()
    sys.setrecursionlimit(20000)
    try:
        return decide(a)
    except Exception:
        traceback.print_exc()
        print(f"ERROR property={a.property}: the analysis itself failed")
        return 2


def decide(a):
    from .engine import Report, Missing, run_jobs, REPO
    from .rules import RULES
    pid = a.property
    seed = int(os.environ.get("VERIF_SEED", "1") or 1)
    tier = a.tier if a.tier in ("quick", "thorough") else "quick"
    rep = Report(pid, tier, seed)
    RULES[pid](rep)
    if a.only:
        rep.jobs = [j for j in rep.jobs if a.only in j[0]]
    budget = a.budget or (600 if tier == "quick" else 6000)
    run_jobs(rep, a.j, time.time() + budget)
    if rep.missing:
        print(f"ERROR property={pid}: {rep.missing}")
        return 2

    und = sum(len(r["undecided"]) for r in rep.rows)
    if a.v:
        for r in rep.rows:
            print(r)
    obligations = sum(r["obligations"] for r in rep.rows)
    agreed = sum(r["agreed"] for r in rep.rows)
    print(f"{pid} [{tier}]: {len(rep.rows)} scenarios, {len(rep.funcs)} functions of {REPO} analysed, {rep.paths} paths, "
          f"{obligations} obligations, {agreed} hold, {und} undecided, {rep.points} sample points, {time.time() - rep.t0:.1f} s")
    shown = {}
    for r in rep.rows:
        for u in r["undecided"]:
            k = u.split("] ")[-1][:160]
            shown.setdefault(k, []).append(r["scenario"])
    for k, v in list(shown.items())[:12]:
        print(f"  undecided ({len(v)}): {v[0]}: {k}")

    kn = known(pid)
    new, old = [], []
    for (r, c), ds in sorted(rep.viol.items()):
        key = f"rule={r} construct={c}"
        hit = [w for k, w in kn if k == key]
        (old if hit else new).append((r, c, ds, hit))
    for r, c, ds, hit in old:
        print(f"KNOWN-FINDING: property={pid} {hit[0]}")
    if not a.only:
        evidence(rep, new, und, obligations, agreed)
    floor = floors().get(pid, {}).get(tier, 1)
    if new:
        os.makedirs(EVID, exist_ok=True)
        path = os.path.join(EVID, f"{pid}.violation.json")
        with open(path, "w") as f:
            json.dump({"property": pid, "rerun": f"cd {HERE} && python3-vt check.py --property {pid} --tier {tier}",
                       "violations": [{"rule": r, "construct": c, "cases": ds[:20], "count": len(ds)} for r, c, ds, _ in new]}, f, indent=1)
        for r, c, ds, _ in new[:20]:
            print(f"  {c}: {r}: {ds[0]} ({len(ds)} cases)")
        print(f"VIOLATION property={pid} replay={path}")
        return 1
    if not a.only and rep.decided < floor:
        print(f"ERROR property={pid}: only {rep.decided} obligations could be decided, fewer than {floor}")
        return 2
    return 0


def evidence(rep, new, und, obligations, agreed):
    os.makedirs(EVID, exist_ok=True)
    rows = rep.rows
    step = max(1, len(rows) // 8)
    nontrivial = len({r["scenario"] for r in rows if r["agreed"] + r["violations"]})
    doc = {
        "property": rep.prop, "tier": rep.tier, "seed": rep.seed, "level": "other",
        "coverage": {
            "explanation": "Abstract interpretation of the source of /repo in a domain of symbolic tensors (shape polynomials and index terms); every path of every scenario "
                           "yields obligations, which are decided on the extracted terms. The program is not run.",
            "rule": "a scenario is one public call on one registered layer configuration, container or likelihood with symbolic sizes, values and weights; "
                    "it counts as decided when at least one of its obligations was decided on a reachable path",
            "scenarios": len(rows), "scenarios_decided": nontrivial, "paths": rep.paths, "obligations": obligations, "discharged": agreed,
            "undecided": und, "undecided_samples": [f"{r['scenario']}: {u}"[:300] for r in rows for u in r["undecided"]][:20],
            "sample_points": rep.points, "functions_analysed": sorted(rep.funcs), "function_count": len(rep.funcs),
            "trusted_base": TRUSTED,
            "samples": [{k: r[k] for k in ("scenario", "paths", "obligations", "agreed", "wall")} for r in rows[::step]][:10],
        },
        "assumptions": ASSUME,
        "wall_s": round(time.time() - rep.t0, 2),
        "violations": len(new),
    }
    with open(os.path.join(EVID, f"{rep.prop}.json"), "w") as f:
        json.dump(doc, f, indent=1)
