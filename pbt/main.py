"""Entry point: python -m pbt.main C01 [--tier quick|thorough] [--test name] [--replay file]"""
import argparse
import importlib
import json
import logging
import os
import resource
import shutil
import sys
import tempfile
import time
import traceback

from pbt import engine

MEMORY = 3 << 30
VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))


def load_known(prop):
    path = os.path.join(VERIF, "known_findings.json")
    if not os.path.exists(path):
        return {}
    with open(path) as f:
        data = json.load(f)
    return {e["signature"]: e for e in data["known"] if e["property"] == prop}


def scratch_setup():
    d = tempfile.mkdtemp(prefix="evogil-verif-")
    os.symlink(os.path.join(engine.REPO, "problems"), os.path.join(d, "problems"))
    return d


def enter_scratch(root, name):
    d = os.path.join(root, name)
    os.makedirs(d)
    os.symlink(os.path.join(engine.REPO, "problems"), os.path.join(d, "problems"))
    os.chdir(d)


def limit_memory():
    """Runaway allocation in the code under test ends its own process, not the sandbox's biggest one."""
    resource.setrlimit(resource.RLIMIT_AS, (MEMORY, MEMORY))


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument("prop")
    ap.add_argument("--tier", default=os.environ.get("VERIF_TIER", "quick"))
    ap.add_argument("--test")
    ap.add_argument("--replay")
    ap.add_argument("--cases", type=int)
    ap.add_argument("--workers", type=int, default=int(os.environ.get("VERIF_WORKERS", "8")))
    ap.add_argument("--no-evidence", action="store_true")
    args = ap.parse_args()
    tier = "thorough" if args.tier == "thorough" else "quick"
    seed = int(os.environ.get("VERIF_SEED", "1"))
    prop = args.prop
    t0 = time.time()

    sys.path.insert(0, engine.REPO)
    sys.setrecursionlimit(3000)
    scratch = tempfile.mkdtemp(prefix="evogil-verif-")
    try:
        enter_scratch(scratch, "main")
        logging.disable(logging.CRITICAL)
        import warnings
        warnings.simplefilter("ignore")
        mod = importlib.import_module("checks." + prop.lower())
        suite = mod.suite
        known = load_known(prop)
        if args.replay:
            return replay(suite, args, known)
        return run(suite, args, tier, seed, known, scratch, t0)
    finally:
        os.chdir("/")
        shutil.rmtree(scratch, ignore_errors=True)


def replay(suite, args, known):
    with open(args.replay) as f:
        rec = json.load(f)
    test = [t for t in suite.tests if t.name == rec["test"]][0]
    if rec["choices"] is None:
        # the case ended its process: only its seed and number are known; run it in a process of its own
        print("test=%s case=%d seed=%d, in a child process" % (test.name, rec["case"], rec["seed"]))
        sys.stdout.flush()
        pid = os.fork()
        if pid == 0:
            limit_memory()
            rng = engine.case_rng(rec["seed"], suite.prop, test.name, rec["case"])
            os._exit({"ok": 0, "reject": 0}.get(engine.run_case(test, None, rng, set(known)).status, 1))
        code = os.waitpid(pid, 0)[1]
        print("the child process ended with wait status %d" % code)
        if code:
            print("VIOLATION property=%s replay=%s" % (suite.prop, args.replay))
        return int(code != 0)
    out = engine.run_case(test, rec["choices"], None, set(known))
    print("test=%s status=%s" % (test.name, out.status))
    print(json.dumps(engine.jsonable(out.tc.notes), indent=1)[:6000])
    for sig, msg in out.tc.known:
        print("KNOWN-FINDING: property=%s %s: %s" % (suite.prop, sig, msg))
    if out.status in ("fail", "slow"):
        print(out.message)
        print(out.trace)
        print("VIOLATION property=%s replay=%s" % (suite.prop, args.replay))
        return 1
    if out.status == "error":
        print(out.trace)
        return 3
    return 0


def run(suite, args, tier, seed, known, scratch, t0):
    tests = [t for t in suite.tests if not args.test or t.name == args.test]
    counts = {t.name: args.cases or (t.quick if tier == "quick" else t.thorough) for t in tests}
    budget = 600 if tier == "quick" else 7200
    budget = float(os.environ.get("VERIF_BUDGET_S", budget))
    deadline = t0 + budget
    n = max(1, args.workers)

    def start(w, attempt):
        rd, wr = os.pipe()
        sys.stdout.flush()
        sys.stderr.flush()
        pid = os.fork()
        if pid == 0:
            code = 1
            try:
                os.close(rd)
                enter_scratch(scratch, "w%d-%d" % (w, attempt))
                limit_memory()
                log = os.open("worker.log", os.O_WRONLY | os.O_CREAT, 0o600)
                progress = os.open(os.path.join(scratch, "progress-%d" % w), os.O_RDWR | os.O_CREAT | os.O_TRUNC, 0o600)
                os.dup2(log, 1)
                os.dup2(log, 2)
                try:
                    rep = engine.run_worker(suite, tests, counts, seed, w, n, set(known), deadline, 40, progress)
                except BaseException:
                    rep = {"__crash__": traceback.format_exc()}
                with os.fdopen(wr, "w") as f:
                    json.dump(rep, f)
                code = 0
            finally:
                os._exit(code)
        os.close(wr)
        return pid, rd

    def collect(pid, rd):
        with os.fdopen(rd) as f:
            text = f.read()
        os.waitpid(pid, 0)
        return text

    def last_case(w):
        try:
            with open(os.path.join(scratch, "progress-%d" % w)) as f:
                name, case = f.read().split()
            return name, int(case)
        except (OSError, ValueError):
            return None

    procs = [start(w, 0) for w in range(n)]
    reports, errors, deaths = [], [], []
    lost = []
    for w, (pid, rd) in enumerate(procs):
        text = collect(pid, rd)
        if text:
            reports.append(json.loads(text))
        else:
            lost.append((w, last_case(w)))
    # A case that ends its process twice (memory exhausted, interpreter aborted, os._exit) is a failing case.
    for w, where in lost:
        text = collect(*start(w, 1))
        if text:
            reports.append(json.loads(text))
        elif where is not None and last_case(w) == where:
            deaths.append(where)
        else:
            errors.append("worker %d died without a report, at %s and then at %s" % (w, where, last_case(w)))
    for rep in [r for r in reports if "__crash__" in r]:
        errors.append(rep["__crash__"])
        reports.remove(rep)

    per_test, failures, samples, hashes = {}, [], [], set()
    known_hits = {}
    for t in tests:
        agg = {"evaluations": 0, "rejected": 0, "nontrivial": 0, "labels": {}, "skipped": 0, "cpu": 0.0}
        distinct = set()
        fails = []
        for rep in reports:
            r = rep[t.name]
            for k in ("evaluations", "rejected", "nontrivial", "skipped", "cpu"):
                agg[k] += r[k]
            for k, v in r["labels"].items():
                agg["labels"][k] = agg["labels"].get(k, 0) + v
            distinct.update(r["hashes"])
            if len(samples) < 40:
                samples.extend({"test": t.name, "case": s} for s in r["samples"][:1]
                               if sum(x["test"] == t.name for x in samples) < 2)
            if r["failure"]:
                fails.append(r["failure"])
            for s in r["slow"]:
                fails.append({"case": s["case"], "message": "the operation did not terminate: no result "
                              "after %d s of processor time, twice" % t.cpu, "sig": None, "trace": s["trace"],
                              "choices": s["choices"], "notes": s["notes"], "shrink_calls": 0,
                              "reproduced": True})
            for e in r["errors"]:
                errors.append("%s case %d: %s\nchoices=%s" % (t.name, e["case"], e["trace"], e["choices"][:200]))
            for sig, k in r["known"].items():
                h = known_hits.setdefault(sig, {"count": 0, "example": k["example"]})
                h["count"] += k["count"]
        for name, case in deaths:
            if name == t.name:
                agg["evaluations"] += 1
                fails.append({"case": case, "message": "the process running this case died, twice (out of %d MB of "
                              "memory, aborted or exited)" % (MEMORY >> 20), "sig": None, "trace": "", "choices": None,
                              "notes": {}, "shrink_calls": 0, "reproduced": True})
        agg["distinct_nontrivial"] = len(distinct)
        agg["rule"] = t.rule
        agg["cpu"] = round(agg["cpu"], 2)
        hashes.update(t.name + h for h in distinct)
        per_test[t.name] = agg
        if fails:
            # prefer a failure that reproduces from its saved choices; lowest case index among those
            fails.sort(key=lambda f: (not f.get("reproduced", True), f["case"]))
            failures.append((t, fails[0]))

    wall = time.time() - t0
    if not args.no_evidence and not args.test:
        ev = {
            "property": suite.prop, "tier": tier, "seed": seed, "level": "exploration",
            "coverage": {
                "evaluations": sum(a["evaluations"] for a in per_test.values()),
                "distinct_nontrivial": len(hashes),
                "rule": suite.rule,
                "samples": samples or [{"note": "no non-trivial case completed"}],
                "per_test": per_test,
                "known_finding_hits": known_hits,
            },
            "assumptions": suite.assumptions,
            "wall_s": round(wall, 2),
            "violations": len(failures),
        }
        os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
        tmp = os.path.join(VERIF, "evidence", ".%s.tmp" % suite.prop)
        with open(tmp, "w") as f:
            json.dump(ev, f, indent=1, sort_keys=True)
            f.write("\n")
        os.replace(tmp, os.path.join(VERIF, "evidence", suite.prop + ".json"))

    for t in tests:
        a = per_test[t.name]
        print("%-42s cases=%-6d nontrivial=%-6d rejected=%-5d skipped=%d cpu=%.1fs %s" % (
            t.name, a["evaluations"], a["distinct_nontrivial"], a["rejected"], a["skipped"], a["cpu"],
            " ".join("%s=%d" % kv for kv in sorted(a["labels"].items()))))
    # one line per listed finding, also when this run's cases happened not to reach it
    for sig, entry in sorted(known.items()):
        hit = known_hits.get(sig)
        print("KNOWN-FINDING: property=%s %s [%s]%s" % (
            suite.prop, entry["what"], sig,
            " seen in %d cases, e.g. %s" % (hit["count"], hit["example"][:200]) if hit else " (not reached by this run)"))
    for t, f in failures:
        rdir = os.path.join(VERIF, "replay", suite.prop)
        os.makedirs(rdir, exist_ok=True)
        path = os.path.join(rdir, "%s-%s.json" % (t.name, engine.digest(f["choices"] or f["case"]).hex()))
        with open(path, "w") as fh:
            json.dump(dict(f, property=suite.prop, test=t.name, seed=seed,
                           replay_cmd="bash run.sh %s --replay %s" % (suite.prop, path)), fh, indent=1)
        print("\nFAILED %s (case %d, shrunk in %d runs): %s" % (t.name, f["case"], f["shrink_calls"], f["message"]))
        print(json.dumps(f["notes"])[:2500])
        if f["trace"]:
            print(f["trace"][-1500:])
        print("VIOLATION property=%s replay=%s" % (suite.prop, path))
    print("%s %s seed=%d wall=%.1fs" % (suite.prop, tier, seed, wall))
    if failures:
        return 1
    if errors:
        for e in errors:
            sys.stderr.write("HARNESS ERROR: %s\n" % e)
        return 3
    return 0


if __name__ == "__main__":
    code = main()
    sys.stdout.flush()
    sys.stderr.flush()
    os._exit(code)
