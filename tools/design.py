"""python3 tools/design.py: writes DESIGN.md (run with /opt/venv/bin/python)."""
import ast, importlib, json, os, sys
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, HERE)
from tools import design_notes as N
from vmc import env
env.setup()


def space_lines(pid):
    m = importlib.import_module("vmc.checks.%s" % pid.lower())
    return m


out = [open(os.path.join(HERE, "tools", "design_head.md")).read()]
props = [json.loads(l) for l in open(os.path.join(HERE, "properties.jsonl"))]
man = json.load(open(os.path.join(HERE, "MANIFEST.json")))
counts = json.load(open(os.path.join(HERE, "tools", "counts.json")))
for p in props:
    i = p["id"]
    m = space_lines(i)
    out.append("### %s — %s\n" % (i, p["title"]))
    out.append(p["statement"] + "\n")
    doc = ast.get_docstring(ast.parse(open(m.__file__).read())).split("\n", 1)
    if len(doc) > 1:
        out.append("*How.* " + " ".join(doc[1].split()) + "\n")
    out.append("*Oracle:* " + N.ORACLE[i] + "\n")
    out.append("*Enumerated:*\n")
    for s in m.SPACES:
        out.append("- `%s`: %s" % (s.name, s.bounds))
    c = counts.get(i)
    if c:
        out.append("\n*Cost (quick):* %s states, %s transitions, %s executions compared, about %d s on 8 cores." % tuple(c))
    out.append("\n*Why tests cannot:* " + p["why_tests_cant"] + "\n")
    a = list(getattr(m, "ASSUMPTIONS", [])) + N.NOTES.get(i, [])
    if a:
        out.append("*Assumed or not asserted:* " + "; ".join(a) + ".\n")
    out.append("*Code:* " + "; ".join("%s (%s)" % (x["name"], x["where"]) for x in p["anchors"]["mechanism"]) + "\n")
out.append(open(os.path.join(HERE, "tools", "design_tail.md")).read())
seeds = []
sd = os.path.join(HERE, "seeded")
out.append("## Planted bugs\n\nEach lies in seeded/<id>/ with a demonstration; written from a property's text and the code. The last column names the checks known to "
           "report it (the property's own check first).\n\n| id | property | what it breaks | needs | caught by |\n|---|---|---|---|---|")
caught = json.load(open(os.path.join(HERE, "tools", "caught.json")))
for s in sorted(os.listdir(sd)):
    j = json.load(open(os.path.join(sd, s, "meta.json")))
    out.append("| %s | %s | %s | %s | %s |" % (s, j["property"], j["what_it_breaks"], j["needs"], caught.get(s, j["property"])))
out.append("\n## Defects found and repaired\n\nEach is one commit in /repo; the existing tests pass with it. They suppress nothing: the checks report them again if they return.\n")
for l in json.load(open(os.path.join(HERE, "known_findings.json")))["fixed"]:
    out.append("- " + l[len("fixed: property="):])
out.append("")
open(os.path.join(HERE, "DESIGN.md"), "w").write("\n".join(out))
