import contextlib
import io
import re
from pathlib import Path

from pbt.engine import Suite
from checks.common import *
from checks import trees as T
from checks.c17 import reference
from simulation import model, serialization
from simulation.model import SimulationCase
from simulation.serializer import Serializer, Result
from statistic import ranking
from statistic import stats_bootstrap
from statistic.stats_bootstrap import find_acceptable_result_for_budget

suite = Suite(
    "C19",
    "result sequences with generated budgets and costs, scorings with ties and near-ties, and result trees of 1-2 problems, "
    "2-4 algorithms, 1-3 runs and 1-3 budgets whose reports are parsed; non-trivial = the largest budget is not the "
    "acceptable one, or some win is shared",
    ["metric values within 1e-9 of a tolerance bound are not judged", "every ranked algorithm has at least one stored result"],
)

BEST = {"hypervolume": max, "pdi": max, "igd": min, "ahd": min, "spacing": min, "gd": min}
TOL = {"hypervolume": 0.005, "pdi": 0.005, "igd": 0.05, "ahd": 0.05, "spacing": 0.05, "gd": 0.05}


def fake_result(budget, costs, lazy):
    def analysis():
        yield "cost", "cost", [lambda c=c: float(c) for c in costs]
        yield "gd", "generational distance", [lambda: 1.0 for _ in costs]

    return {"budget": budget, "analysis": analysis() if lazy else list(analysis())}


@suite.test(quick=6000, thorough=100000, rule="the largest checkpoint whose mean cost fits the allowance of the largest one")
def acceptable(tc):
    budgets = sorted(set(tc.pick([500, 1500, 2500, 40, 9500, 100]) + tc.small(0, 30) for _ in range(tc.size(1, 6, 40))))
    costs = [[b + tc.pick([0, 10, 499, 500, 501, -200, 2000, 5000]) for _ in range(tc.size(1, 4, 40))] for b in budgets]
    if tc.chance(0.4):
        costs = [[c + 3000 for c in cs] for cs in costs]
    boot = tc.int(1, 5)
    tc.seed()
    tc.note(budgets=budgets, costs=costs)
    rs = [fake_result(b, c, tc.bool()) for b, c in zip(budgets, costs)]
    means = [sum(c) / len(c) for c in costs]
    if any(abs(m - budgets[-1] - 500) < 1e-6 and m != budgets[-1] + 500 for m in means):
        tc.reject()
    fit = [b for b, m in zip(budgets, means) if m <= budgets[-1] + 500]
    got = find_acceptable_result_for_budget(rs, boot)
    tc.nontrivial(not fit or fit[-1] != budgets[-1])
    tc.label("none" if not fit else "last" if fit[-1] == budgets[-1] else "earlier")
    tc.check((got["budget"] if got else None) == (fit[-1] if fit else None), lambda: "chose %r, want budget %r" % (got and got["budget"], fit[-1] if fit else None))
    if got is not None:
        rest = {n: [f() for f in fs] for n, _, fs in got["analysis"]}
        tc.check("gd" in rest, "the metrics of the chosen result are no longer available")
    i = tc.draw(len(budgets) - 1)
    delta = tc.pick([500, 0, 10, 2000])
    ok = tc.internal(stats_bootstrap, "validate_cost")(fake_result(budgets[i], costs[i], tc.bool()), boot, delta)
    if abs(means[i] - budgets[i] - delta) > 1e-6 or means[i] == budgets[i] + delta:
        tc.check(bool(ok) == (means[i] <= budgets[i] + delta), lambda: "mean cost %r against budget %d + %d judged %r" % (means[i], budgets[i], delta, ok))


def ratio(a, b):
    e = 2.220446049250313e-16
    return (min(a, b) + e) / (max(a, b) + e)


@suite.test(quick=6000, thorough=100000, rule="algorithms within the tolerance of the winner, and only those")
def weak_winners(tc):
    tol = tc.pick([0.05, 0.005, 0.2])
    best = tc.pick([0.0, 1.0, 0.25, 1e-6, 2400.0])
    algos = ["A%d" % i for i in range(tc.size(1, 5, 40))]
    scores = [(a, best * tc.pick([1.0, 1.01, 1.2, 0.99, 0.96, 0.9, 1.003, 0.997, 1.0 + tc.draw(100) / 500.0]) + (tc.pick([0.0, 0.0, 1e-3]) if best == 0.0 else 0.0)) for a in algos]
    chooser = tc.pick([max, min])
    win = chooser(scores, key=lambda x: x[1])
    tc.note(scores=scores, tolerance=tol, winner=win)
    if any(abs(ratio(s, win[1]) - (1 - tol)) < 1e-9 for _, s in scores):
        tc.reject()
    want = [(a, s) for a, s in scores if a != win[0] and ratio(s, win[1]) >= 1 - tol]
    keep = list(scores)
    got = ranking.get_weak_winners(scores, win, tol)
    tc.nontrivial(bool(want))
    tc.check(sorted(got) == sorted(want), lambda: "within the tolerance: %r, want %r" % (got, want))
    tc.check(scores == keep, "the scores were modified")


# -- whole reports -----------------------------------------------------------------------------------
ALGOS = ["NSGAII", "IBEA", "HGS+SPEA2", "IMGA+NSGAII"]


def thin(tc, names):
    import importlib
    mods = {}
    for n in names:
        m = importlib.import_module("problems.%s.problem" % n)
        full = m.pareto_front
        m.pareto_front = list(full)[::max(1, len(full) // 8)]
        tc.defer(lambda m=m, full=full: setattr(m, "pareto_front", full))
        mods[n] = m
    return mods


def gen_results(tc, root, budgets):
    """{(problem, algo): {budget: [(fit, cost)] by run number}}, every run stores every budget."""
    root.mkdir(parents=True)
    out = {}
    serial = 0
    pool = []
    for problem in (["ZDT1", "ZDT3"] if tc.chance(0.5) else ["ZDT1"]):
        for algo in tc.shuffled(ALGOS)[:tc.int(1, 4)]:
            runs = []
            for _ in range(tc.small(1, 3) if not tc.chance(0.02) else tc.int(9, 13)):
                serial += 1
                rid = model.get_simulation_id(serial, T.gen_date(tc, serial))
                runs.append(rid)
            data = {}
            for b in budgets:
                per = {}
                over = tc.pick([0, 0, 300, 600, 1500])
                for rid in runs:
                    if pool and tc.chance(0.35):
                        # the same or nearly the same solutions as another algorithm: ties and shared wins
                        base = tc.pick(pool)
                        s = tc.pick([1.0, 1.0, 1.001, 1.02, 1.3])
                        fit = [[v * s for v in x] for x in base]
                    else:
                        fit = [[1.0 + tc.draw(6) / 2.0, 1.0 + tc.draw(6) / 2.0] for _ in range(tc.small(1, 4))]
                    pool.append(fit)
                    cost = b + over
                    Serializer(SimulationCase(problem, algo, 1, None, str(root), rid)).store(Result([[0.0] for _ in fit], fit, cost=cost), str(b))
                    per[rid] = (fit, cost)
                data[b] = [per[r] for r in sorted(per)]
            out[(problem, algo)] = data
    return out


def acceptable_budget(data):
    """The largest checkpoint whose mean cost fits the allowance of the largest one."""
    fit = [b for b in data if sum(c for _, c in data[b]) / len(data[b]) <= max(data) + 500]
    return max(fit) if fit else None


def mean_metrics(results, mods, problem, algo, budget, only=None):
    rows = results[(problem, algo)][budget]
    acc = {}
    for no, (fit, cost) in enumerate(rows):
        if only is not None and no != only:
            continue
        pooled = [tuple(v) for (p, a), d in results.items() if p == problem and budget in d and no < len(d[budget]) for v in d[budget][no][0]]
        m = reference(fit, cost, mods[problem].pareto_front, set(nondominated(pooled)))
        for k, v in m.items():
            acc.setdefault(k, []).append(v)
    return {k: sum(v) / len(v) for k, v in acc.items()}


def winners(tc, scoring, metric):
    """(names that may be called winner, names sharing the win)."""
    best = BEST[metric](scoring.values())
    near = [a for a, v in scoring.items() if abs(v - best) <= 1e-12 * max(1.0, abs(best))]
    for v in scoring.values():
        if abs(ratio(v, best) - (1 - TOL[metric])) < 1e-7 or (v != best and abs(v - best) < 1e-9):
            tc.reject("too close to judge")
    share = [a for a, v in scoring.items() if a in near or ratio(v, best) >= 1 - TOL[metric]]
    return near, share


def parse_counts(text):
    return {m.group(1): int(m.group(2)) for m in re.finditer(r"([^\s,:]+) \((\d+)\)", text)}


def run_report(fn):
    out = io.StringIO()
    with contextlib.redirect_stdout(out):
        fn({"--bootstrap": "3"})
    return out.getvalue().splitlines()


@suite.test(quick=300, thorough=4000, cpu=200, rule="global ranking: winners per problem and metric, points")
def global_ranking(tc):
    top, cwd = T.working_directory(tc)
    budgets = sorted(tc.subset([500, 1500, 2500], 0.6)) or [500]
    mods = thin(tc, ["ZDT1", "ZDT3"])
    results = gen_results(tc, (cwd / serialization.RESULTS_DIR).resolve(), budgets)
    tc.note(results={"%s/%s" % k: v for k, v in results.items()})
    tc.seed()
    lines = run_report(ranking.rank)
    scoring = {}
    for (p, a), data in results.items():
        fit = [b for b in budgets if sum(c for _, c in data[b]) / len(data[b]) <= budgets[-1] + 500]
        if fit:
            tc.nontrivial(fit[-1] != budgets[-1])
            for k, v in mean_metrics(results, mods, p, a, fit[-1]).items():
                if k in BEST:
                    scoring.setdefault((p, k), {})[a] = v
    points = {}
    named = {}
    for line in lines:
        m = re.fullmatch(r"(ZDT\d), (\w+) : (\S+)", line.strip())
        if m:
            named[(m.group(1), m.group(2))] = m.group(3)
    tc.check(set(named) == set(scoring), lambda: "ranked %r, want %r" % (sorted(named), sorted(scoring)))
    for (p, k), sc in scoring.items():
        near, share = winners(tc, sc, k)
        tc.check(named[(p, k)] in near, lambda: "%s on %s: winner %s, means %r" % (k, p, named[(p, k)], sc))
        tc.nontrivial(len(share) > 1)
        tc.label("shared" if len(share) > 1 else "clear")
        for a in share:
            c = points.setdefault(k, {})
            c[a] = c.get(a, 0) + (1 if len(share) > 1 else 2)
    start = max([i for i, l in enumerate(lines) if l.startswith("Global")] or [len(lines)])
    got = {}
    for line in lines[start:]:
        m = re.match(r"(\w+) : (.*)", line)
        if m and m.group(1) in BEST:
            got[m.group(1)] = parse_counts(m.group(2))
            order = [int(x) for x in re.findall(r"\((\d+)\)", m.group(2))]
            tc.check(order == sorted(order, reverse=True), lambda: "points not in descending order: %s" % line)
    tc.check(got == points, lambda: "points %r, want %r" % (got, points))


@suite.test(quick=200, thorough=3000, cpu=200, rule="detailed ranking: number of problems won per budget and metric, overspent results excluded")
def detailed_ranking(tc):
    top, cwd = T.working_directory(tc)
    mods = thin(tc, ["ZDT1", "ZDT3"])
    sets = {}
    for d in ranking.result_dirs:
        if tc.chance(0.6):
            budgets = sorted(tc.subset([40, 500, 1500], 0.6)) or [40]
            sets[d] = gen_results(tc, Path(d).resolve(), budgets)
    tc.note(results={d: {"%s/%s" % k: v for k, v in r.items()} for d, r in sets.items()})
    tc.seed()
    lines = run_report(ranking.detailed_rank)
    current, got = None, {}
    for line in lines:
        m = re.fullmatch(r"\*\*\*(\S+?)\*\*\*", line.strip())
        if m:
            current = m.group(1)
        m = re.match(r"(\d+) (\w+) : (.*)", line)
        if m and m.group(2) in BEST:
            got[(current, int(m.group(1)), m.group(2))] = parse_counts(m.group(3))
    want = {}
    for d, results in sets.items():
        scoring = {}
        for (p, a), data in results.items():
            for b, rows in data.items():
                if sum(c for _, c in rows) / len(rows) <= b + 500:
                    for k, v in mean_metrics(results, mods, p, a, b).items():
                        if k in BEST:
                            scoring.setdefault((p, b, k), {})[a] = v
        for (p, b, k), sc in scoring.items():
            near, _ = winners(tc, sc, k)
            tc.nontrivial(len(sc) > 1)
            want.setdefault((d, b, k), []).append(near)
    tc.check(set(got) == set(want), lambda: "reported %r, want %r" % (sorted(got), sorted(want)))
    for key, nears in want.items():
        c = got[key]
        tc.check(sum(c.values()) == len(nears), lambda: "%r: %r for %d problems" % (key, c, len(nears)))
        for a in set(c) | set(x for n in nears for x in n):
            lo = sum(1 for n in nears if n == [a])
            hi = sum(1 for n in nears if a in n)
            tc.check(lo <= c.get(a, 0) <= hi, lambda: "%r: %s won %d problems, want %d..%d" % (key, a, c.get(a, 0), lo, hi))


@suite.test(quick=200, thorough=3000, cpu=200, rule="table: two best scorers per result set and metric, with points and tie marks")
def table(tc):
    top, cwd = T.working_directory(tc)
    mods = thin(tc, ["ZDT1", "ZDT3"])
    sets = {}
    for d in ranking.result_dirs:
        if tc.chance(0.6):
            budgets = [40] + ([500] if tc.chance(0.3) else [])
            sets[d] = gen_results(tc, Path(d).resolve(), budgets)
    tc.note(results={d: {"%s/%s" % k: v for k, v in r.items()} for d, r in sets.items()})
    tc.seed()
    lines = run_report(ranking.table_rank)
    points = {}
    for d, results in sets.items():
        for p in set(p for p, _ in results):
            scoring = {}
            for (q, a), data in results.items():
                if q == p:
                    for k, v in mean_metrics(results, mods, p, a, 40).items():
                        if k in BEST:
                            scoring.setdefault(k, {})[a] = v
            for k, sc in scoring.items():
                near, share = winners(tc, sc, k)
                tc.nontrivial(len(share) > 1)
                for a in share:
                    c = points.setdefault(k, {}).setdefault(d, {})
                    c[a] = c.get(a, 0) + (1 if len(share) > 1 else 2)
    rows = {}
    for line in lines:
        cells = line.split("&")
        if len(cells) == 2 + len(ranking.result_dirs) and line.endswith("\\\\"):
            rows[cells[1].strip()] = [c.replace("\\\\", "").strip() for c in cells[2:]]
    rows = {k: v for k, v in rows.items() if k in BEST}
    tc.check(set(rows) == set(points), lambda: "table rows %r, want %r" % (sorted(rows), sorted(points)))
    for k, cells in rows.items():
        for d, cell in zip(ranking.result_dirs, cells):
            want = points[k].get(d, {})
            shown = re.findall(r"([^\s,]+) \((\d+)\)(\$\^\*\$)?", cell)
            tc.check(len(shown) == min(2, len(want)), lambda: "%s, %s: %r, points %r" % (k, d, cell, want))
            best = sorted(want.values(), reverse=True)
            tc.check([int(n) for _, n, _ in shown] == best[:2] and all(want.get(a) == int(n) for a, n, _ in shown) and len(set(a for a, _, _ in shown)) == len(shown),
                     lambda: "%s, %s: %r, points %r" % (k, d, cell, want))
            for a, n, star in shown:
                ties = best.count(int(n))
                visible = sum(1 for _, m, _ in shown if m == n)
                # the mark says that others, not shown, have the same number of points
                if int(n) == best[0] and visible == 1:
                    continue
                tc.check(bool(star) == (ties > visible), lambda: "%s, %s: mark of %s in %r, points %r" % (k, d, a, cell, want))
