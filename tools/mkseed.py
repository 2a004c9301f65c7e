#!/usr/bin/env python3
"""Builds planted bugs under /verif/seeded from a spec file and measures them: tools/mkseed.py SPEC.py [ID...] [--check-only] [--no-check].

SPEC.py defines SEEDS: dicts with id, property, edits [(file, old, new)], needs, breaks, demo (python source, run with cwd at the repository).
For each: scratch copy of /repo, demo passes, edits apply, modules compile, stable tests pass, demo fails, then the property's check.
"""
import json
import os
import runpy
import shutil
import subprocess
import sys

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
PY = "/opt/venv/bin/python"
ENV = dict(os.environ, PYTHONDONTWRITEBYTECODE="1", MPLBACKEND="Agg", PYTHONHASHSEED="0")
DEMO = """#!/bin/bash
# Run with cwd at the repository: exit 0 if the property holds here.
D=$(cd "$(dirname "$0")" && pwd)
export PYTHONPATH="$PWD" PYTHONDONTWRITEBYTECODE=1 MPLBACKEND=Agg PYTHONHASHSEED=0 PYTHONWARNINGS=ignore
exec timeout 250 /opt/venv/bin/python "$D/demo.py"
"""


def sh(cmd, cwd, **env):
    return subprocess.run(cmd, cwd=cwd, env=dict(ENV, **env), stdout=subprocess.PIPE, stderr=subprocess.STDOUT, universal_newlines=True)


def tests(copy):
    names = json.load(open("/opt/vp/BASELINE.json"))["stable"]
    ids = []
    for n in names:
        mod, t = n.rsplit("::", 1)
        path, cls = mod.rsplit(".", 1)
        ids.append("%s.py::%s::%s" % (path.replace(".", "/"), cls, t))
    return sh([PY, "-m", "pytest", "-q", "-p", "no:cacheprovider"] + ids, copy)


def main():
    args = [a for a in sys.argv[1:] if not a.startswith("--")]
    flags = [a for a in sys.argv[1:] if a.startswith("--")]
    seeds = runpy.run_path(args[0])["SEEDS"]
    for s in seeds:
        if args[1:] and s["id"] not in args[1:]:
            continue
        out = os.path.join(ROOT, "seeded", s["id"])
        copy = "/tmp/seedwork-%s" % s["id"]
        shutil.rmtree(copy, ignore_errors=True)
        subprocess.check_call(["cp", "-a", "/repo", copy])
        try:
            problems = []
            for f, old, new in s["edits"]:
                p = os.path.join(copy, f)
                src = open(p, encoding="utf-8").read()
                if src.count(old) != 1:
                    problems.append("%s: old text found %d times" % (f, src.count(old)))
                    continue
                open(p, "w", encoding="utf-8").write(src.replace(old, new))
            if problems:
                print(s["id"], "BAD EDIT", problems)
                continue
            diff = sh(["git", "diff"], copy).stdout
            blame_own(s, copy)
            if "--check-only" not in flags:
                os.makedirs(out, exist_ok=True)
                open(os.path.join(out, "patch.diff"), "w", encoding="utf-8").write(diff)
                open(os.path.join(out, "demo.sh"), "w").write(DEMO)
                os.chmod(os.path.join(out, "demo.sh"), 0o755)
                open(os.path.join(out, "demo.py"), "w", encoding="utf-8").write(s["demo"])
                json.dump({"property": s["property"], "needs": s["needs"], "what_it_breaks": s["breaks"]}, open(os.path.join(out, "meta.json"), "w"), indent=1)
                clean = sh(["bash", out + "/demo.sh"], "/repo")
                bad = sh(["bash", out + "/demo.sh"], copy)
                comp = sh([PY, "-m", "py_compile"] + [f for f, _, _ in s["edits"]], copy)
                t = tests(copy)
                ok = clean.returncode == 0 and bad.returncode != 0 and t.returncode == 0 and comp.returncode == 0
                print(s["id"], "VALID" if ok else "INVALID clean=%d bad=%d tests=%d compile=%d" % (clean.returncode, bad.returncode, t.returncode, comp.returncode))
                if not ok:
                    print(clean.stdout[-600:], bad.stdout[-600:], t.stdout[-800:] if t.returncode else "")
            if "--no-check" not in flags:
                r = sh(["bash", "run.sh", s["property"], "--no-evidence"], ROOT, EVOGIL_REPO=copy)
                lines = [l for l in r.stdout.splitlines() if "VIOLATION" in l or "FAILED" in l]
                print(s["id"], s["property"], "CAUGHT" if r.returncode == 1 else "MISSED rc=%d" % r.returncode, (lines or r.stdout.splitlines()[-3:])[0][:150])
        finally:
            shutil.rmtree(copy, ignore_errors=True)
        sys.stdout.flush()


def blame_own(s, copy):
    """Warns when an edited line is not one of the original repository."""
    base = sh(["git", "rev-list", "--max-parents=0", "HEAD"], copy).stdout.split()[0]
    for f, old, new in s["edits"]:
        orig = sh(["git", "show", "%s:%s" % (base, f)], copy).stdout
        olds, news = old.splitlines(), new.splitlines()
        gone = [l for l in olds if l not in news]
        if gone and not any(l in orig.splitlines() for l in gone):
            print(s["id"], "WARNING: removed lines of", f, "are not original")


main()
