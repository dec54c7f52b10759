#!/usr/bin/env python3
"""Creates or verifies planted bugs.

plant.py new BUGFILE.py...   each file defines ID, PROPERTY, EDITS [(file, old, new)],
                             NEEDS, BREAKS, DEMO (python text); writes seeded/<ID>/
plant.py check ID...         runs the check of the property against the patched tree
"""
import json, os, shutil, subprocess, sys, tempfile

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
SEED = os.path.join(HERE, "seeded")
PY = "/opt/venv/bin/python"
SH = """#!/bin/bash
# exit 0 when the property holds on the tree in the current directory
export PYTHONDONTWRITEBYTECODE=1 PYTHONPATH="$PWD"
exec /opt/venv/bin/python "$(dirname "$(realpath "$0")")/demo.py"
"""


def tree():
    d = tempfile.mkdtemp(prefix="plant_")
    subprocess.run("git -C /repo archive HEAD | tar x -C %s/ && cp /repo/pyclibrary/version.py %s/pyclibrary/ 2>/dev/null; true" % (d, d), shell=True)
    return d


def demo(bug, d):
    r = subprocess.run(["bash", os.path.join(SEED, bug, "demo.sh")], cwd=d, capture_output=True, text=True, timeout=300)
    return r.returncode, (r.stdout + r.stderr)[-600:]


def tests(d):
    base = json.load(open("/opt/vp/BASELINE.json"))
    r = subprocess.run([PY, "-m", "pytest", "tests", "-q", "-p", "no:cacheprovider", "-x"], cwd=d, capture_output=True, text=True,
                       env=dict(os.environ, PYTHONPATH=d, PYTHONDONTWRITEBYTECODE="1"))
    return r.returncode == 0, r.stdout[-400:]


def verify(bug):
    d = tree()
    try:
        a = demo(bug, d)
        if a[0] != 0:
            return "demo fails on the unchanged tree: %s" % (a,)
        r = subprocess.run(["git", "apply", "--directory=" + "", os.path.join(SEED, bug, "patch.diff")], cwd=d, capture_output=True, text=True)
        if r.returncode:
            return "patch: " + r.stderr
        ok, out = tests(d)
        if not ok:
            return "tests fail: " + out
        b = demo(bug, d)
        if b[0] == 0:
            return "demo passes with the patch"
        return "ok  (demo: %s)" % b[1].strip().splitlines()[-1:]
    finally:
        shutil.rmtree(d, ignore_errors=True)


def new(f):
    ns = {}
    exec(open(f).read(), ns)
    bug = ns["ID"]
    out = os.path.join(SEED, bug)
    os.makedirs(out, exist_ok=True)
    d = tree()
    try:
        subprocess.run("git init -q . && git add -A && git -c user.name=a -c user.email=a commit -qm a", shell=True, cwd=d)
        for p, old, nw in ns["EDITS"]:
            p = os.path.join(d, p)
            s = open(p).read()
            assert s.count(old) == 1, (bug, s.count(old), old)
            open(p, "w").write(s.replace(old, nw))
        diff = subprocess.run(["git", "diff", "--no-color"], cwd=d, capture_output=True, text=True).stdout
        open(os.path.join(out, "patch.diff"), "w").write(diff)
        open(os.path.join(out, "demo.sh"), "w").write(SH)
        open(os.path.join(out, "demo.py"), "w").write(ns["DEMO"])
        json.dump(dict(property=ns["PROPERTY"], needs=ns["NEEDS"], what_it_breaks=ns["BREAKS"]), open(os.path.join(out, "meta.json"), "w"), indent=1)
    finally:
        shutil.rmtree(d, ignore_errors=True)
    print(bug, verify(bug))


def check(bug):
    d = tree()
    try:
        subprocess.run(["git", "apply", os.path.join(SEED, bug, "patch.diff")], cwd=d, check=True)
        pid = json.load(open(os.path.join(SEED, bug, "meta.json")))["property"]
        r = subprocess.run(["python3-vt", os.path.join(HERE, "check.py"), pid, "quick"], cwd=HERE, capture_output=True, text=True, env=dict(os.environ, VERIF_REPO=d, VERIF_SEED="1"))
        print(bug, "exit", r.returncode, r.stdout.strip()[-900:])
    finally:
        shutil.rmtree(d, ignore_errors=True)


if __name__ == "__main__":
    for x in sys.argv[2:]:
        {"new": new, "check": check, "verify": lambda b: print(b, verify(b))}[sys.argv[1]](x)
