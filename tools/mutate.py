#!/usr/bin/env python3
"""Generic mutants of /repo against the checks, to find what they miss: tools/mutate.py OUT.jsonl [--sample N] [--cases F] [--jobs J] [--seed S] FILE[:PROPS]...

Only lines executed by some check (tools/cov.py's /tmp/cov) are mutated. Each mutant lives in a scratch copy that is removed afterwards.
"""
import ast
import copy
import json
import os
import random
import shutil
import subprocess
import sys
from concurrent.futures import ThreadPoolExecutor

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
PY = "/opt/venv/bin/python"
CMP = {ast.Lt: [ast.LtE, ast.Gt], ast.LtE: [ast.Lt, ast.GtE], ast.Gt: [ast.GtE, ast.Lt], ast.GtE: [ast.Gt, ast.LtE], ast.Eq: [ast.NotEq], ast.NotEq: [ast.Eq],
       ast.In: [ast.NotIn], ast.NotIn: [ast.In], ast.Is: [ast.IsNot], ast.IsNot: [ast.Is]}
BIN = {ast.Add: [ast.Sub], ast.Sub: [ast.Add], ast.Mult: [ast.Div], ast.Div: [ast.Mult], ast.FloorDiv: [ast.Div], ast.Mod: [ast.Mult], ast.Pow: [ast.Mult]}
CALL = {"min": "max", "max": "min", "any": "all", "all": "any", "sorted": "list", "abs": "float", "sum": "max", "set": "list", "reversed": "list", "int": "float"}


def mutants(src):
    """[(start, end, replacement, description, line)] on byte offsets of the utf-8 text."""
    tree = ast.parse(src)
    starts = [0]
    raw = src.encode("utf-8")
    for l in raw.split(b"\n"):
        starts.append(starts[-1] + len(l) + 1)

    def span(n):
        return starts[n.lineno - 1] + n.col_offset, starts[n.end_lineno - 1] + n.end_col_offset

    out = []

    def put(n, new, what):
        a, b = span(n)
        text = new if isinstance(new, str) else ast.unparse(new)
        if isinstance(n, ast.expr) and not isinstance(n, (ast.Constant, ast.Name)):
            text = "(" + text + ")"
        out.append((a, b, text, what, n.lineno))

    skip = set()
    for n in ast.walk(tree):
        if isinstance(n, ast.If) and "__name__" in ast.unparse(n.test):
            skip.update(id(x) for x in ast.walk(n))
        if isinstance(n, ast.Call):
            f = ast.unparse(n.func)
            if f == "print" or f.startswith(("logger.", "logging.", "log_")):
                skip.update(id(x) for x in ast.walk(n))
        if isinstance(n, ast.Raise) or isinstance(n, ast.Assert):
            skip.update(id(x) for x in ast.walk(n))
        if isinstance(n, ast.JoinedStr):
            skip.update(id(x) for x in ast.walk(n))
    for n in ast.walk(tree):
        if id(n) in skip:
            continue
        if isinstance(n, ast.Compare) and len(n.ops) == 1:
            for op in CMP.get(type(n.ops[0]), []):
                m = copy.deepcopy(n)
                m.ops = [op()]
                put(n, m, "%s -> %s" % (ast.unparse(n), ast.unparse(m)))
        elif isinstance(n, ast.BinOp):
            if isinstance(n.left, ast.Constant) and isinstance(n.left.value, str):
                continue
            for op in BIN.get(type(n.op), []):
                m = copy.deepcopy(n)
                m.op = op()
                put(n, m, "%s -> %s" % (ast.unparse(n), ast.unparse(m)))
        elif isinstance(n, ast.BoolOp):
            m = copy.deepcopy(n)
            m.op = ast.Or() if isinstance(n.op, ast.And) else ast.And()
            put(n, m, "%s -> %s" % (ast.unparse(n), ast.unparse(m)))
            for i in range(len(n.values)):
                m = copy.deepcopy(n)
                del m.values[i]
                m = m.values[0] if len(m.values) == 1 else m
                put(n, m, "%s -> %s" % (ast.unparse(n), ast.unparse(m)))
        elif isinstance(n, ast.UnaryOp) and isinstance(n.op, (ast.Not, ast.USub)):
            put(n, n.operand, "%s -> %s" % (ast.unparse(n), ast.unparse(n.operand)))
        elif isinstance(n, ast.Constant) and type(n.value) in (int, float, bool):
            v = n.value
            for w in ([not v] if type(v) is bool else [v + 1, v - 1] if type(v) is int else [v * 1.25 + 0.01]):
                put(n, repr(w), "%r -> %r" % (v, w))
        elif isinstance(n, ast.Call) and isinstance(n.func, ast.Name) and n.func.id in CALL:
            m = copy.deepcopy(n)
            m.func.id = CALL[n.func.id]
            put(n, m, "%s -> %s" % (ast.unparse(n)[:80], m.func.id))
        elif isinstance(n, (ast.If, ast.While, ast.IfExp)):
            for w in ("True", "False"):
                if not (isinstance(n, ast.While) and w == "True"):
                    put(n.test, w, "if %s -> %s" % (ast.unparse(n.test)[:80], w))
        elif isinstance(n, (ast.Assign, ast.AugAssign, ast.Expr, ast.Continue, ast.Break)):
            if isinstance(n, ast.Expr) and isinstance(n.value, (ast.Constant, ast.Yield)):
                continue
            if isinstance(n, ast.Assign) and isinstance(n.targets[0], ast.Name):
                continue
            put(n, "pass", "deleted: %s" % ast.unparse(n)[:100])
        elif isinstance(n, ast.Subscript) and isinstance(n.slice, ast.Slice):
            m = copy.deepcopy(n)
            m.slice = ast.Slice()
            put(n, m, "%s -> whole" % ast.unparse(n)[:80])
        elif isinstance(n, ast.comprehension) and n.ifs:
            put(n.ifs[0], "True", "filter %s -> True" % ast.unparse(n.ifs[0])[:80])
        elif isinstance(n, ast.Call) and len(n.args) == 2 and not n.keywords:
            m = copy.deepcopy(n)
            m.args = m.args[::-1]
            put(n, m, "%s: arguments swapped" % ast.unparse(n)[:80])
    return out


RUN = r"""
import os, sys, time, json
sys.path.insert(0, %r)
props = sys.argv[1].split(",")
frac = float(sys.argv[2])
limit = float(sys.argv[3])
for prop in props:
    if os.fork() == 0:
        sys.argv = ["m", prop, "--workers", "1", "--no-evidence", "--cases", "7"]
        from pbt import engine, main
        real = engine.run_case
        def stop(test, choices, rng, known):
            out = real(test, choices, rng, known)
            if out.status not in ("ok", "reject"):
                os.write(99, json.dumps([prop, test.name, out.status, str(out.message)[:200]]).encode() + b"\n")
                raise SystemExit(17)
        def run(suite, args, tier, seed, known, scratch, begin):
            main.limit_memory()
            known = set(known)
            t0 = time.time()
            left = {t.name: max(4, int(t.quick * frac)) for t in suite.tests}
            pos = dict.fromkeys(left, 0)
            while any(left.values()) and time.time() - t0 < limit:
                for t in suite.tests:
                    k = max(1, int(t.quick * frac / 8))
                    for _ in range(min(k, left[t.name])):
                        left[t.name] -= 1
                        stop(t, None, engine.case_rng(seed, suite.prop, t.name, pos[t.name]), known)
                        pos[t.name] += 1
                        if time.time() - t0 > limit: break
            return 0
        main.run = run
        try:
            code = main.main()
        except SystemExit as e:
            code = 17
        except BaseException as e:
            os.write(99, json.dumps([prop, "?", "exception", repr(e)[:200]]).encode() + b"\n")
            code = 17
        os._exit(code)
    _, st = os.wait()
    if st not in (0, 17 << 8):
        os.write(99, json.dumps([prop, "?", "exit " + str(st), ""]).encode() + b"\n")
"""


def covered():
    seen = {}
    for f in os.listdir("/tmp/cov"):
        for p, l in json.load(open("/tmp/cov/" + f)):
            seen.setdefault(p, set()).add(l)
    return seen


def main():
    argv = sys.argv[1:]
    opt = {"--sample": 0, "--cases": 0.4, "--jobs": 8, "--seed": 1, "--limit": 120}
    files = []
    out = argv.pop(0)
    while argv:
        a = argv.pop(0)
        if a in opt:
            opt[a] = type(opt[a])(argv.pop(0))
        else:
            files.append(a)
    seen = covered()
    todo = []
    for spec in files:
        f, props = spec.split(":")
        src = open("/repo/" + f, encoding="utf-8").read()
        ms = [m for m in mutants(src) if m[4] in seen.get("/repo/" + f, ())]
        todo += [(f, props, m) for m in ms]
    if opt["--sample"] and len(todo) > opt["--sample"]:
        todo = random.Random(opt["--seed"]).sample(todo, opt["--sample"])
    print(len(todo), "mutants", flush=True)
    runner = "/tmp/mutrun.py"
    open(runner, "w").write(RUN.replace("%r", repr(ROOT)))
    env = dict(os.environ, PYTHONDONTWRITEBYTECODE="1", MPLBACKEND="Agg", PYTHONHASHSEED="0", PYTHONWARNINGS="ignore", OMP_NUM_THREADS="1", OPENBLAS_NUM_THREADS="1")
    log = open(out, "a")

    def go(i_job):
        i, (f, props, (a, b, text, what, line)) = i_job
        d = "/tmp/mut-%d-%d" % (os.getpid(), i)
        shutil.rmtree(d, ignore_errors=True)
        subprocess.check_call(["cp", "-a", "/repo", d])
        try:
            p = os.path.join(d, f)
            raw = open(p, "rb").read()
            new = raw[:a] + text.encode() + raw[b:]
            try:
                ast.parse(new.decode())
            except SyntaxError:
                return
            open(p, "wb").write(new)
            rep = d + ".rep"
            w = os.open(rep, os.O_CREAT | os.O_RDWR | os.O_TRUNC)
            try:
                pr = subprocess.Popen([PY, runner, props, str(opt["--cases"]), str(opt["--limit"])], cwd=ROOT, env=dict(env, EVOGIL_REPO=d), stdout=subprocess.DEVNULL,
                                      stderr=subprocess.DEVNULL, preexec_fn=lambda: (os.setsid(), os.dup2(w, 99)), close_fds=False)
                status = "run"
                try:
                    pr.wait(opt["--limit"] * 2 * len(props.split(",")) + 60)
                except subprocess.TimeoutExpired:
                    status = "timeout"
                    os.killpg(pr.pid, 9)
                    pr.wait()
            finally:
                os.close(w)
            lines = [json.loads(l) for l in open(rep) if l.strip()]
            os.remove(rep)
            rec = {"file": f, "line": line, "what": what, "killed": lines[0] if lines else (["?", "?", status, ""] if status == "timeout" else None)}
            log.write(json.dumps(rec) + "\n")
            log.flush()
        finally:
            shutil.rmtree(d, ignore_errors=True)

    with ThreadPoolExecutor(opt["--jobs"]) as ex:
        list(ex.map(go, enumerate(todo)))
    print("done")


if __name__ == "__main__":
    main()
