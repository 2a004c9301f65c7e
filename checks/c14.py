import contextlib
import io
import json
import pickle

from pbt.engine import Suite
from checks.common import *
from checks import trees as T
from simulation import model, serialization
from simulation.model import SimulationCase
from simulation.serialization import BudgetResultsExtractor, TimeResultsExtractor, each_result
from simulation.serializer import Serializer, Result
import statistic.summary

suite = Suite(
    "C14",
    "result trees of 1-3 problems, 1-5 algorithms, 1-4 runs with dates out of order, 0-5 checkpoints each (re-stored "
    "marks included) and stray files and directories inside problem, algorithm and run directories; non-trivial = "
    "at least two runs of one algorithm share a mark and some run has two marks",
    ["the result root contains only directories named after problems", "run directories are created by one process at a time"],
)

PROBLEMS = ["ZDT1", "ZDT2", "UF1"]


def model_groups(runs):
    """{number: [(run_no, run dir, stored)]} by increasing run directory name."""
    groups = {}
    for no, rid in enumerate(sorted(runs)):
        for num, data in runs[rid].items():
            groups.setdefault(num, []).append((no, rid, data))
    return groups


@suite.test(quick=2500, thorough=40000, rule="every stored checkpoint is returned once, unchanged, in order")
def round_trip(tc):
    root = T.scratch(tc) / "results"
    root.mkdir()
    want = T.gen_tree(tc, root, PROBLEMS)
    timed = tc.bool()
    tc.note(tree={"%s/%s" % k: {r: sorted(s) for r, s in v.items()} for k, v in want.items()}, timed=timed)
    key = "time" if timed else "budget"
    extractor = TimeResultsExtractor() if timed else BudgetResultsExtractor()
    before = T.snapshot(root)
    given = root if tc.bool() else str(root)
    got, first_problems = {}, []
    listing = each_result(extractor, given)
    if tc.bool():
        listing = list(listing)
    for problem, mod, algos in listing:
        first_problems.append(problem)
        tc.check(mod.__name__ == "problems.%s.problem" % problem, lambda: "problem %s came with module %s" % (problem, mod.__name__))
        for algo, groups in (list(algos) if tc.bool() else algos):
            tc.check((problem, algo) not in got, lambda: "%s/%s listed twice" % (problem, algo))
            got[(problem, algo)] = list(groups)
    tc.check(T.snapshot(root) == before, "loading changed the stored files")
    tc.check(len(set(first_problems)) == len(first_problems), "a problem was listed twice")
    tc.check(set(got) == set(want), lambda: "listed %r, stored %r" % (sorted(got), sorted(want)))
    for (problem, algo), groups in got.items():
        runs = want[(problem, algo)]
        ref = model_groups(runs)
        tc.nontrivial(any(len(g) > 1 for g in ref.values()) and any(len(s) > 1 for s in runs.values()))
        nums = [g[key] for g in groups]
        tc.check(nums == sorted(ref), lambda: "%s/%s: marks %r, stored %r" % (problem, algo, nums, sorted(ref)))
        for g in groups:
            tc.check(g["problem"] == problem and g["algo"] == algo, lambda: "group labelled %s/%s inside %s/%s" % (g["problem"], g["algo"], problem, algo))
            rs = g["results"]
            tc.check([r.run_no for r in rs] == [no for no, _, _ in ref[g[key]]],
                     lambda: "%s/%s mark %d: run numbers %r, want %r" % (problem, algo, g[key], [r.run_no for r in rs], [x[0] for x in ref[g[key]]]))
            for r, (no, rid, (pop, fit, cost)) in zip(rs, ref[g[key]]):
                tc.check(r.population == pop and r.fitnesses == fit, lambda: "mark %d of run %s came back as %r / %r, stored %r / %r" % (g[key], rid, r.population, r.fitnesses, pop, fit))
                tc.check(r.additional_data == {"cost": cost}, lambda: "mark %d of run %s: additional data %r, stored cost %r" % (g[key], rid, r.additional_data, cost))
                tc.check(int(r.name) == g[key], lambda: "result of mark %d is named %r" % (g[key], r.name))
                c = r.simulation_case
                tc.check((c.problem_name, c.algorithm_name, c.id) == (problem, algo, rid), lambda: "run %s attributed to %r" % (rid, vars(c)))
                again = Serializer(c).load(r.name)
                tc.check(again.population == pop and again.fitnesses == fit and again.additional_data == {"cost": cost}, "reading the result again gave something else")
                tc.check(r.path.read_bytes() == before[str(r.path.relative_to(root))], "the result's path is not its file")


@suite.test(quick=2500, thorough=40000, rule="storing and loading single results; a mark stored again is replaced, nothing else changes")
def single(tc):
    root = T.scratch(tc)
    cases = [SimulationCase(tc.pick(PROBLEMS), tc.pick(T.ALGOS), r, None, str(root / tc.pick(["a", "b/c"])), model.get_simulation_id(r, T.gen_date(tc, r)))
             for r in range(tc.int(1, 3))]
    state = {}
    log = []
    for _ in range(tc.int(1, 8)):
        c = tc.pick(cases)
        num = str(tc.pick([1, 10, 100, 500]))
        pop, fit, cost = T.gen_result(tc)
        path = Serializer(c).store(Result(pop, fit, cost=cost, extra=len(log)), num)
        log.append((c.id, num))
        state[(id(c), num)] = (pop, fit, {"cost": cost, "extra": len(log) - 1})
        tc.check(path.exists() and str(path).startswith(c.results_dir + "/"), lambda: "stored at %s" % path)
        for d in cases:
            for n in ("1", "10", "100", "500"):
                if (id(d), n) in state:
                    r = Serializer(d).load(n)
                    tc.check((r.population, r.fitnesses, r.additional_data) == state[(id(d), n)], lambda: "checkpoint %s of %s changed after storing %s" % (n, d.id, log[-1]))
                else:
                    try:
                        Serializer(d).load(n)
                    except FileNotFoundError:
                        continue
                    tc.fail("checkpoint %s of %s exists although it was never stored" % (n, d.id))
    tc.note(stored=log)
    tc.nontrivial(len(set(log)) > 1)


@suite.test(quick=800, thorough=10000, rule="summary: the number of results of each problem, algorithm and budget")
def summary(tc):
    top, cwd = T.working_directory(tc)
    root = (cwd / serialization.RESULTS_DIR).resolve()
    want_rows = []
    if not tc.chance(0.1):
        root.mkdir(parents=True)
        want = T.gen_tree(tc, root, PROBLEMS)
        for (p, a), runs in want.items():
            for num, g in model_groups(runs).items():
                want_rows.append([p, a, str(num), str(len(g))])
    out = io.StringIO()
    with contextlib.redirect_stdout(out):
        statistic.summary.analyse_results({})
    rows = [line.split() for line in out.getvalue().splitlines()]
    tc.note(rows=rows)
    tc.nontrivial(len(want_rows) > 1)
    tc.check(sorted(rows) == sorted(want_rows), lambda: "summary %r, stored %r" % (sorted(rows), sorted(want_rows)))
    by = {}
    for p, a, num, n in rows:
        by.setdefault((p, a), []).append(int(num))
    tc.check(all(v == sorted(v) for v in by.values()), lambda: "budgets out of order: %r" % by)


def gen_json(tc, depth=2):
    k = tc.draw(5 if depth else 3)
    if k == 0:
        return tc.pick([None, True, False, "", "ZDT1", "zażółć", 0, -7, 10 ** 12])
    if k == 1:
        return tc.float(-50.0, 50.0)
    if k == 2:
        return tc.pick([1e-308, -0.0, 1.5e300, 0.1])
    if k == 3:
        return tc.draw(4500)
    if k == 4:
        return [gen_json(tc, depth - 1) for _ in range(tc.draw(3))]
    return {tc.pick(["cost", "population", "metrics", "a.json"]): gen_json(tc, depth - 1) for _ in range(tc.draw(3))}


@suite.test(quick=400, thorough=6000, rule="converting a directory from JSON to pickle keeps every value and touches nothing else")
def converted(tc):
    import dir_walker

    root = T.scratch(tc) / "results"
    want, others = {}, {}
    for _ in range(tc.int(0, 6)):
        d = root.joinpath(*[tc.pick(["ZDT1", "NSGAII", "x.json", "2020-01-01.000000.000000__0000001"]) for _ in range(tc.int(0, 3))])
        d.mkdir(parents=True, exist_ok=True)
        stem = tc.pick(["10", "400", "a.b", "json", "400.json", "f"])
        if (d / (stem + ".json")).exists() or (d / (stem + ".pickle")).exists():
            continue
        if tc.chance(0.7):
            value = gen_json(tc)
            (d / (stem + ".json")).write_text(json.dumps(value))
            want[str((d / (stem + ".pickle")).relative_to(root))] = value
        else:
            name = stem + tc.pick([".pickle", ".txt", ".jsonl", "-json", ".JSON"])
            (d / name).write_bytes(b"\x00 not json")
            others[str((d / name).relative_to(root))] = b"\x00 not json"
    root.mkdir(exist_ok=True)
    tc.note(converted=sorted(want), others=sorted(others))
    tc.nontrivial(len(want) > 1)
    with contextlib.redirect_stdout(io.StringIO()):
        dir_walker.walk(root if tc.bool() else str(root), dir_walker.json2pickle)
    got = {str(p.relative_to(root)): p.read_bytes() for p in root.rglob("*") if p.is_file()}
    tc.check(set(got) == set(want) | set(others), lambda: "files %r, expected %r" % (sorted(got), sorted(set(want) | set(others))))
    for name, value in want.items():
        back = pickle.loads(got[name])
        tc.check(repr(back) == repr(value), lambda: "%s holds %r, the JSON file held %r" % (name, back, value))
    for name, data in others.items():
        tc.check(got[name] == data, lambda: "%s was changed" % name)
