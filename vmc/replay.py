"""python -m vmc.replay FILE -- re-run the one execution a violation names,
twice, without the explorer, and require the same observation both times."""
import importlib
import json
import os
import sys

from . import env


def main():
    with open(sys.argv[1]) as f:
        v = json.load(f)
    os.environ["VMC_TIER"] = v.get("tier", "quick")
    env.setup()
    from . import core

    mod = importlib.import_module("vmc.checks." + v["property"].lower())
    for s in mod.SPACES:
        core._SPACES[s.name] = s
    obs = []
    for _ in range(2):
        r = core._run_unit(v["space"], v["unit"], only=v["case"])
        obs.append([x["message"] for x in r["violations"]])
    if obs[0] != obs[1]:
        print("DIVERGED: the replay is not deterministic\n%s\n%s" % (obs[0], obs[1]))
        return 2
    for m in obs[0]:
        print("REPRODUCED %s: %s" % (v["case"], m))
    if not obs[0]:
        print("not reproduced: the execution satisfies the property on this tree")
    return 1 if obs[0] else 0


if __name__ == "__main__":
    sys.exit(main())
