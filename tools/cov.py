#!/usr/bin/env python3
"""Which lines of /repo do the checks execute?  /opt/venv/bin/python tools/cov.py OUTDIR CASES C01 C02 ... ; then tools/cov.py OUTDIR report"""
import ast
import json
import os
import sys
import threading

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("EVOGIL_REPO", "/repo")


def one(out, cases, prop):
    sys.path.insert(0, ROOT)
    sys.argv = ["pbt.main", prop, "--cases", cases, "--workers", "4", "--no-evidence"]
    from pbt import engine, main
    seen = set()
    pre = REPO + "/"

    def local(frame, event, arg):
        if event == "line":
            seen.add((frame.f_code.co_filename, frame.f_lineno))
        return local

    def glob(frame, event, arg):
        f = frame.f_code.co_filename
        if f.startswith(pre):
            seen.add((f, frame.f_lineno))
            return local
        return None

    real = engine.run_worker

    def traced(suite, tests, counts, seed, w, *a):
        try:
            return real(suite, tests, counts, seed, w, *a)
        finally:
            sys.settrace(None)
            with open(os.path.join(out, "%s-%d.json" % (prop, w)), "w") as f:
                json.dump(sorted(seen), f)

    engine.run_worker = traced
    threading.settrace(glob)
    sys.settrace(glob)
    code = main.main()
    sys.stdout.flush()
    os._exit(code)


def lines_of(path):
    """First lines of executable statements inside functions."""
    res = {}
    tree = ast.parse(open(path, encoding="utf-8").read())
    for fn in ast.walk(tree):
        if isinstance(fn, (ast.FunctionDef, ast.Lambda)):
            body = fn.body if isinstance(fn.body, list) else []
            for st in body:
                for n in ast.walk(st):
                    if isinstance(n, ast.stmt) and not isinstance(n, (ast.FunctionDef, ast.ClassDef, ast.Global)):
                        if isinstance(n, ast.Expr) and isinstance(n.value, (ast.Str, ast.Constant)):
                            continue
                        res[n.lineno] = fn.name
    return res


def report(out):
    seen = {}
    for f in os.listdir(out):
        for p, l in json.load(open(os.path.join(out, f))):
            seen.setdefault(p, set()).add(l)
    for d, dirs, files in os.walk(REPO):
        dirs[:] = [x for x in dirs if not x.startswith(".") and x not in ("test", "__pycache__")]
        for f in sorted(files):
            if not f.endswith(".py"):
                continue
            p = os.path.join(d, f)
            want = lines_of(p)
            miss = [l for l in sorted(want) if l not in seen.get(p, ())]
            if want:
                print("%-45s %4d/%4d missing %s" % (p[len(REPO) + 1:], len(want) - len(miss), len(want), " ".join("%d(%s)" % (l, want[l]) for l in miss)[:1500]))


if __name__ == "__main__":
    out = sys.argv[1]
    os.makedirs(out, exist_ok=True)
    if sys.argv[2] == "report":
        report(out)
    else:
        for p in sys.argv[3:]:
            if os.fork() == 0:
                one(out, sys.argv[2], p)
            os.wait()
