"""Entry point of every check: explore, write evidence, report."""

import argparse
import importlib
import json
import os
import sys
import time

from mc import target

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
OUT = os.environ.get("VERIF_OUT", ROOT)  # where evidence/ and replays/ go


def load_knowns(pid):
    with open(os.path.join(ROOT, "known_findings.json")) as f:
        doc = json.load(f)
    return {k["id"]: k for k in doc["findings"] if k["property"] == pid}


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument("property")
    ap.add_argument("--tier", default=os.environ.get("VERIF_TIER", "quick"))
    ap.add_argument("--replay")
    ap.add_argument("--scenario")
    ap.add_argument("--budget", type=float, default=None)
    a = ap.parse_args()
    tier = "thorough" if a.tier == "thorough" else "quick"
    seed = int(os.environ.get("VERIF_SEED", "1") or 1)
    pid = a.property

    t0 = time.time()
    target.load()
    from mc import core

    mod = importlib.import_module(f"mc.props.{pid.lower()}")
    knowns = load_knowns(pid)
    scenarios = mod.SCENARIOS
    if a.scenario:
        scenarios = [s for s in scenarios if s.name == a.scenario]

    if a.replay:
        return replay(core, scenarios, knowns, tier, a.replay)

    budget = a.budget or (getattr(mod, "QUICK_BUDGET", 420) if tier == "quick" else 6 * 3600)
    # the same default execution twice, in fresh processes: the harness must be deterministic
    for s in scenarios:
        if getattr(s, "custom", None):
            continue
        r1 = core.run_fresh(s, [], knowns, tier)
        r2 = core.run_fresh(s, [], knowns, tier)
        if r1[0] != "ok" or r2[0] != "ok":
            print(f"check error: {s.name}: {r1} {r2}")
            return 2
        if not r1[1]["violation"]:
            for f in ("points", "states", "outcomes", "calls"):
                if r1[1][f] != r2[1][f]:
                    print(f"check error: {s.name} is not deterministic ({f})")
                    return 2

    stats, violations = core.explore(
        [s for s in scenarios if not getattr(s, "custom", None)], tier, knowns, budget
    ) if any(not getattr(s, "custom", None) for s in scenarios) else (core.Stats(), [])
    extra = {}
    for s in scenarios:
        if getattr(s, "custom", None) and not violations:
            left = max(30.0, budget - (time.time() - t0))
            violations += s.custom(stats, extra, tier, knowns, left)

    ev = {
        "property": pid,
        "tier": tier,
        "seed": seed,
        "level": "model_checking",
        "coverage": {
            "states": len(stats.states),
            "transitions": stats.calls,
            "traces_validated_against_impl": stats.executions - stats.pruned,
            "observations_compared_with_reference": stats.checks,
            "distinct_observed_outcomes": len(stats.outcomes),
            "choice_tree_nodes": stats.nodes,
            "executions_outside_domain": stats.pruned,
            "executions_per_deviation_bound": {
                s: {str(k): v for k, v in sorted(lv.items())}
                for s, lv in stats.levels.items()
            },
            "deviation_bound": {s.name: s.bound[tier] for s in scenarios},
            "exhaustive": bool(stats.complete and not violations),
            "samples": stats.samples,
            "meaning": (
                "states: distinct canonical input states driven into the real code; "
                "transitions: calls into the real code; traces_validated_against_impl: "
                "complete executions whose every observation was compared with the "
                "reference model"
            ),
            **extra,
        },
        "assumptions": getattr(mod, "ASSUMPTIONS", []),
        "wall_s": round(time.time() - t0, 2),
        "violations": len(violations),
    }
    if not a.scenario:
        core.dump_json(os.path.join(OUT, "evidence", f"{pid}.json"), ev)

    print(
        f"{pid} [{tier}] executions={stats.executions} states={len(stats.states)} "
        f"calls={stats.calls} observations={stats.checks} "
        f"outcomes={len(stats.outcomes)} complete={stats.complete} "
        f"wall={ev['wall_s']}s"
    )
    if violations:
        violations.sort(key=lambda v: (v[0], len(v[2]["prefix"]), v[2]["prefix"]))
        cost, scn, r = violations[0]
        path = os.path.join(OUT, "replays", f"{pid}.json")
        rec = {
            "property": pid,
            "scenario": scn.name,
            "tier": tier,
            "deviations": cost,
            "prefix": r["prefix"],
            "choices": [[p[0], p[2], p[4]] for p in r["points"]],
            "message": r["violation"],
            "replay_with": f"./check {pid} --replay {path}",
        }
        if not getattr(scn, "custom", None):
            again = [core.run_fresh(scn, r["prefix"], knowns, tier) for _ in range(2)]
            rec["reproduced_in_fresh_process"] = [
                x[0] == "ok" and bool(x[1]["violation"]) for x in again
            ]
            if not all(rec["reproduced_in_fresh_process"]):
                rec["history"] = r.get("log", [])  # depends on earlier calls
        core.dump_json(path, rec)
        print(f"  scenario {scn.name}, {cost} deviation(s)")
        for p in r["points"]:
            if p[2]:
                print(f"    {p[0]} = {p[4]}")
        print("  " + str(r["violation"]).replace("\n", "\n  "))
        print(f"VIOLATION property={pid} replay={path}")
        return 1
    for kid in sorted(stats.known):
        print(f"KNOWN-FINDING: property={pid} {kid}: {knowns[kid]['what']}")
    return 0


def replay(core, scenarios, knowns, tier, path):
    with open(path) as f:
        rec = json.load(f)
    by = {s.name: s for s in scenarios}
    scn = by[rec["scenario"]]
    if hasattr(scn, "replay"):
        return scn.replay(rec, knowns)
    for name, prefix in rec.get("history", [])[:-1]:
        core.execute(by[name], prefix, knowns, tier)
    r = core.execute(
        scn, rec["prefix"], knowns, rec.get("tier", tier), [c[0] for c in rec["choices"]]
    )
    for p in r["points"]:
        print(f"  {p[0]} = {p[4]}")
    print(r["violation"] or "no violation")
    return 1 if r["violation"] else 0


if __name__ == "__main__":
    sys.exit(main())
