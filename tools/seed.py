#!/usr/bin/env python3
"""Makes and checks planted bugs.

seed.py make SPEC.py     SPEC defines BUGS: a list of dicts id, property, edits [(file, old, new)], demo, needs, breaks
seed.py verify ID...     applies each to a copy of /repo: builds, stable tests, demo on both trees
Never used by a check.
"""
import json
import os
import shutil
import subprocess
import sys
import tempfile

HERE = os.path.dirname(os.path.abspath(__file__))
VERIF = os.path.dirname(HERE)
SEEDED = os.path.join(VERIF, "seeded")
SH = """#!/bin/bash
# Run in the repository; exit 0 when the property holds.
D="$(dirname "$(realpath "$0")")"
export PYTHONPATH="$PWD/python:$D" PYTHONDONTWRITEBYTECODE=1 PYTHONHASHSEED=0
exec /opt/venv/bin/python -W ignore "$D/demo.py"
"""
HEAD = '''"""%s"""
import standins
standins.install()
'''


def sh(*a, **kw):
    return subprocess.run(a, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, **kw)


def make(spec):
    ns = {}
    exec(compile(open(spec).read(), spec, "exec"), ns)
    for b in ns["BUGS"]:
        d = os.path.join(SEEDED, b["id"])
        w = tempfile.mkdtemp(prefix="seed_")
        try:
            sh("git", "-C", "/repo", "worktree", "prune")
            sh("bash", "-c", "git -C /repo archive HEAD | tar x -C " + w)
            sh("git", "init", "-q", cwd=w)
            sh("git", "add", "-A", cwd=w)
            sh("git", "-c", "user.name=x", "-c", "user.email=x", "commit", "-qm", "x", cwd=w)
            for f, old, new in b["edits"]:
                p = os.path.join(w, "python/lsst/skymap", f)
                s = open(p).read()
                assert s.count(old) == 1, (b["id"], f, s.count(old), old)
                open(p, "w").write(s.replace(old, new))
            diff = subprocess.run(["git", "diff"], cwd=w, stdout=subprocess.PIPE, text=True).stdout
            assert diff
        finally:
            shutil.rmtree(w)
        shutil.rmtree(d, ignore_errors=True)
        os.makedirs(d)
        open(os.path.join(d, "patch.diff"), "w").write(diff)
        open(os.path.join(d, "demo.sh"), "w").write(SH)
        open(os.path.join(d, "demo.py"), "w").write(HEAD % b["needs"].replace('"', "'") + b["demo"].lstrip("\n"))
        shutil.copytree(os.path.join(VERIF, "harness", "substrate"), os.path.join(d, "standins"),
                        ignore=shutil.ignore_patterns("__pycache__"))
        json.dump(dict(property=b["property"], needs=b["needs"], what_it_breaks=b["breaks"]),
                  open(os.path.join(d, "meta.json"), "w"), indent=1)
        print("made", b["id"])


def verify(ids):
    """In /repo itself (which the test script names), undone straight afterwards."""
    assert not sh("git", "-C", "/repo", "status", "--porcelain").stdout.strip()
    bad = []
    for i in ids:
        d = os.path.join(SEEDED, i)
        t = tempfile.mkdtemp(prefix="demo_")
        try:
            shutil.copytree(d, t, dirs_exist_ok=True)
            for f in ("patch.diff", "meta.json"):
                os.unlink(os.path.join(t, f))
            a = sh("bash", os.path.join(t, "demo.sh"), cwd="/repo", timeout=300)
            r = sh("git", "-C", "/repo", "apply", os.path.join(d, "patch.diff"))
            assert r.returncode == 0, r.stdout
            try:
                b = sh("bash", os.path.join(t, "demo.sh"), cwd="/repo", timeout=300)
                out = os.path.join(t, "o.json")
                sh("bash", "/opt/vp/test.sh", out)
                js = json.load(open(out))
            finally:
                sh("git", "-C", "/repo", "checkout", "--", ".")
            base = json.load(open("/opt/vp/BASELINE.json"))["stable"]
            passed = js.get("passed", js)
            miss = [x for x in base if x not in passed]
            ok = a.returncode == 0 and b.returncode != 0 and not miss
            print(i, "ok" if ok else "BAD", a.returncode, b.returncode, miss, b.stdout.strip().splitlines()[-1:] if ok else a.stdout[-800:] + b.stdout[-800:])
            if not ok:
                bad.append(i)
        finally:
            shutil.rmtree(t)
    print("bad:", bad)


if sys.argv[1] == "make":
    make(sys.argv[2])
else:
    verify(sys.argv[2:] or sorted(os.listdir(SEEDED)))
