"""Source of properties.jsonl and MANIFEST.json (python3 tools/props.py)."""
import json
import os

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
P = []


def prop(id, title, statement, over, text, why, files, mech, state=(), observe=(), technique="", note=""):
    assert len(title) <= 80, title
    P.append(dict(
        id=id, title=title, statement=statement, quantifier={"over": list(over), "text": text}, why_tests_cant=why,
        anchors={
            "files": list(files),
            "mechanism": [{"name": n, "where": w} for n, w in mech],
            "state": [{"name": n, "meaning": m, "where": w} for n, m, w in state],
            "observe_at": list(observe),
            "hook_needed": None,
        },
        _technique=technique, _note=note))


exec(open(os.path.join(HERE, "tools", "props_data.py")).read())


def main():
    P.sort(key=lambda p: p["id"])
    with open(os.path.join(HERE, "properties.jsonl"), "w") as f:
        for p in P:
            f.write(json.dumps({k: v for k, v in p.items() if not k.startswith("_")}) + "\n")
    checks = []
    for p in P:
        i = p["id"]
        checks.append({
            "property": i,
            "quick_cmd": "/opt/venv/bin/python -m vmc.run %s --tier quick" % i,
            "thorough_cmd": "/opt/venv/bin/python -m vmc.run %s --tier thorough" % i,
            "evidence_file": "evidence/%s.json" % i,
            "technique": p["_technique"],
            "level": "model_checking",
            "level_note": p["_note"],
        })
    m = {
        "version": 1,
        "setup_cmd": "/opt/venv/bin/python -c \"from vmc import env; env.setup()\"",
        "checks": checks,
        "not_applicable": NOT_APPLICABLE,
        "notes": "Pure Python; nothing to build. Every check imports gridded from /repo's working tree, enumerates its bounded space "
                 "completely (no sampling, no caps) and compares every step with a reference model written in vmc/. No hooks in /repo.",
    }
    with open(os.path.join(HERE, "MANIFEST.json"), "w") as f:
        json.dump(m, f, indent=1)
        f.write("\n")


main()
