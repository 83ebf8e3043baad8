"""Development helper: make and verify planted bugs (never used by a check).

    from seedtool import seed
    seed("s01", "C04", [("gridded/time.py", old, new)], demo_python, needs, breaks)

It makes a scratch copy of /repo, applies the edits, runs the repository's
tests there, runs the demonstration on the clean tree and on the changed one,
and finally the property's quick check against the changed copy."""
import json
import os
import shutil
import subprocess
import sys
import xml.etree.ElementTree as ET

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
PY = "/opt/venv/bin/python"
BASE = "4a0315d"


def sh(cmd, cwd, **env):
    e = dict(os.environ, **env)
    return subprocess.run(cmd, cwd=cwd, env=e, capture_output=True, text=True)


def tests(copy):
    x = copy + ".xml"
    for d in ("gridded/tests/output", "gridded/tests/test_io/output", "gridded/tests/test_ugrid/temp_files", "gridded/tests/test_plotting/plotting_output"):
        shutil.rmtree(os.path.join(copy, d), ignore_errors=True)
    sh([PY, "-m", "pytest", "-q", "-p", "no:cacheprovider", "--continue-on-collection-errors", "--basetemp", copy + ".tmp", "-o", "junit_family=xunit2", "--junitxml", x,
        "--ignore=gridded/tests/test_projected_ugrid.py", "gridded"], copy, PYTHONPATH=copy, PYTHONDONTWRITEBYTECODE="1", MPLBACKEND="Agg")
    passed = set()
    for tc in ET.parse(x).iter("testcase"):
        if not [c for c in tc if c.tag in ("failure", "error", "skipped")]:
            passed.add(tc.get("classname") + "::" + tc.get("name"))
    os.remove(x)
    shutil.rmtree(copy + ".tmp", ignore_errors=True)
    return passed


_base = None


def baseline():
    global _base
    if _base is None:
        f = "/tmp/seed-baseline-%s.json" % sh(["git", "rev-parse", "--short", "HEAD"], "/repo").stdout.strip()
        if os.path.exists(f):
            _base = set(json.load(open(f)))
        else:
            c = "/tmp/seedbase-%d" % os.getpid()
            shutil.copytree("/repo", c, symlinks=True)
            _base = tests(c)
            shutil.rmtree(c)
            json.dump(sorted(_base), open(f, "w"))
    return _base


DEMO_SH = '#!/bin/bash\nexec /opt/venv/bin/python "$(dirname "$0")/demo.py"\n'
DEMO_HEAD = "import os, sys\nsys.path.insert(0, os.getcwd())\nsys.dont_write_bytecode = True\n"


def original_lines(copy):
    """Every removed line must come from the original repository."""
    d = sh(["git", "diff", "-U0"], copy).stdout
    f = None
    bad = []
    for ln in d.splitlines():
        if ln.startswith("--- a/"):
            f = ln[6:]
        elif ln.startswith("@@"):
            old = ln.split()[1][1:]
            a, _, n = old.partition(",")
            n = int(n) if n else 1
            if n:
                b = sh(["git", "blame", "-s", "-L%s,+%d" % (a, n), "HEAD", "--", f], copy).stdout
                bad += [x for x in b.splitlines() if BASE not in x.split()[0]]
    return bad


def seed(id, prop, edits, demo, needs, breaks, check=True, tier="quick", force=False):
    dest = os.path.join(VERIF, "seeded", id)
    copy = "/tmp/seedwork-%s-%d" % (id, os.getpid())
    shutil.copytree("/repo", copy, symlinks=True)
    try:
        for path, old, new in edits:
            p = os.path.join(copy, path)
            s = open(p).read()
            if s.count(old) != 1:
                print(id, "REJECT: old text occurs %d times: %r" % (s.count(old), old[:80]))
                return False
            open(p, "w").write(s.replace(old, new))
        bad = original_lines(copy)
        if bad:
            print(id, "REJECT: touches lines that are not original:", bad[:3])
            return False
        miss = baseline() - tests(copy)
        if miss:
            print(id, "REJECT: breaks tests", sorted(miss)[:3])
            return False
        sh(["git", "checkout", "-q", "--", "gridded/tests"], copy)
        os.makedirs(dest, exist_ok=True)
        open(dest + "/demo.py", "w").write(DEMO_HEAD + demo.strip("\n") + "\n")
        open(dest + "/demo.sh", "w").write(DEMO_SH)
        os.chmod(dest + "/demo.sh", 0o755)
        open(dest + "/patch.diff", "w").write(sh(["git", "diff"], copy).stdout)
        json.dump({"property": prop, "needs": needs, "what_it_breaks": breaks}, open(dest + "/meta.json", "w"), indent=1)
        r0 = sh(["bash", dest + "/demo.sh"], "/repo")
        r1 = sh(["bash", dest + "/demo.sh"], copy)
        if r0.returncode != 0 or r1.returncode == 0:
            print(id, "REJECT: demo clean=%d changed=%d\n%s\n%s" % (r0.returncode, r1.returncode, r0.stderr[-800:], r1.stderr[-300:]))
            shutil.rmtree(dest)
            return False
        if check:
            r = sh([PY, "-m", "vmc.run", prop, "--tier", tier], VERIF, VMC_REPO=copy)
            caught = r.returncode == 1 and "VIOLATION property=%s" % prop in r.stdout
            print(id, prop, "caught" if caught else "MISSED rc=%d" % r.returncode, "|", (r.stdout.strip().splitlines() or ["?"])[0 if not caught else 3][:160])
        else:
            print(id, prop, "ok")
        return True
    finally:
        shutil.rmtree(copy, ignore_errors=True)


def recheck(ids=None):
    """Run each planted bug's check (quick) against a scratch copy."""
    root = os.path.join(VERIF, "seeded")
    for id in sorted(ids or os.listdir(root)):
        meta = json.load(open(os.path.join(root, id, "meta.json")))
        copy = "/tmp/seedwork-%s-%d" % (id, os.getpid())
        shutil.copytree("/repo", copy, symlinks=True)
        try:
            a = sh(["git", "apply", os.path.join(root, id, "patch.diff")], copy)
            if a.returncode:
                print(id, "does not apply:", a.stderr[:200])
                continue
            bad = original_lines(copy)
            miss = baseline() - tests(copy)
            r0 = sh(["bash", os.path.join(root, id, "demo.sh")], "/repo").returncode
            r1 = sh(["bash", os.path.join(root, id, "demo.sh")], copy).returncode
            r = sh([PY, "-m", "vmc.run", meta["property"]], VERIF, VMC_REPO=copy)
            caught = r.returncode == 1 and "VIOLATION property=%s" % meta["property"] in r.stdout
            ok = not bad and not miss and r0 == 0 and r1 != 0
            print(id, meta["property"], "valid" if ok else "INVALID orig=%s miss=%s demo=%d/%d" % (bad[:1], sorted(miss)[:1], r0, r1), "caught" if caught else "MISSED rc=%d" % r.returncode, flush=True)
        finally:
            shutil.rmtree(copy, ignore_errors=True)


if __name__ == "__main__":
    recheck(sys.argv[1:] or None)
