"""python -m vmc.run <property> [--tier quick|thorough] [--jobs N]"""
import argparse
import importlib
import json
import os
import sys
import time

from . import env


def load_known(pid):
    path = os.path.join(env.VERIF, "known_findings.json")
    with open(path) as f:
        d = json.load(f)
    return [k for k in d["findings"] if k["property"] == pid]


def matches(finding, v):
    return (
        finding["space"] == v["space"]
        and v["case"] in finding["cases"]
        and finding["message_contains"] in v["message"]
    )


def main(argv=None):
    ap = argparse.ArgumentParser()
    ap.add_argument("property")
    ap.add_argument("--tier", default=os.environ.get("VERIF_TIER", "quick"), choices=["quick", "thorough"])
    ap.add_argument("--jobs", type=int, default=None)
    ap.add_argument("--space", default=None, help="only this space (development)")
    ap.add_argument("--show", type=int, default=5)
    a = ap.parse_args(argv)
    os.environ["VMC_TIER"] = a.tier
    t0 = time.time()
    pid = a.property
    seed = int(os.environ.get("VERIF_SEED", "1") or 1)
    try:
        env.setup()
        from . import core

        mod = importlib.import_module("vmc.checks." + pid.lower())
        spaces = [s for s in mod.SPACES if a.space in (None, s.name)]
        known = load_known(pid)
    except Exception as e:  # noqa: BLE001
        import traceback

        traceback.print_exc()
        print("ERROR property=%s cannot start: %r" % (pid, e))
        return 2

    def is_known(v):
        for k in known:
            if matches(k, v):
                return k
        return None

    try:
        rep = core.explore(spaces, a.tier, jobs=a.jobs, known=is_known)
    except core.EnvTrouble as e:
        print("ERROR property=%s environment: %s" % (pid, e))
        return 2
    wall = time.time() - t0
    fresh, seen_known = [], {}
    for v in rep.violations:
        k = is_known(v)
        if k:
            seen_known[k["what"]] = seen_known.get(k["what"], 0) + 1
        else:
            fresh.append(v)
    n_fresh = len(fresh)
    ev = {
        "property": pid,
        "tier": a.tier,
        "seed": seed,
        "level": "model_checking",
        "coverage": {
            "states": len(rep.states),
            "transitions": rep.transitions,
            "traces_validated_against_impl": rep.traces,
            "samples": rep.samples[:24],
            "distinct_outcomes": len(rep.outcomes),
            "units": rep.units,
            "per_space": rep.per_space,
            "bounds": {s.name: s.bounds for s in spaces},
            "exhaustive": bool(rep.complete and not fresh),
        },
        "assumptions": list(getattr(mod, "ASSUMPTIONS", [])),
        "wall_s": round(wall, 2),
        "violations": rep.nviol - sum(seen_known.values()),
    }
    os.makedirs(os.path.join(env.VERIF, "evidence"), exist_ok=True)
    if a.space is None:
        with open(os.path.join(env.VERIF, "evidence", pid + ".json"), "w") as f:
            json.dump(ev, f, indent=1)
    for what in seen_known:
        print("KNOWN-FINDING: property=%s %s" % (pid, what))
    print(
        "%s %s: %d units, %d executions, %d steps, %d states, %d distinct outcomes, %.1f s"
        % (pid, a.tier, rep.units, rep.traces, rep.transitions, len(rep.states), len(rep.outcomes), wall)
    )
    if not fresh:
        if rep.traces == 0 or (a.space is None and len(rep.per_space) != len(spaces)):
            print("ERROR property=%s explored nothing in some space" % pid)
            return 2
        return 0
    out = os.path.join(env.VERIF, "out")
    os.makedirs(out, exist_ok=True)
    for i, v in enumerate(fresh[: a.show]):
        path = os.path.join(out, "%s-%s-%d.json" % (pid, a.tier, i))
        with open(path, "w") as f:
            json.dump({"property": pid, "tier": a.tier, **v}, f, indent=1)
        print("VIOLATION property=%s replay=%s" % (pid, path))
        print("  space=%s case=%s" % (v["space"], v["case"]))
        print("  " + v["message"][:1200])
    print("%d violating executions in all (%d recorded)" % (rep.nviol, n_fresh))
    return 1


if __name__ == "__main__":
    sys.exit(main())
