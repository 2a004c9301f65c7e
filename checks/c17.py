import math
import shutil

from pbt.engine import Suite
from checks.common import *
from checks import drivers as D
from checks import trees as T
from checks.c03 import rms_nearest, spacing_ref
from simulation import model
from simulation.model import SimulationCase
from simulation.serialization import BudgetResultsExtractor, TimeResultsExtractor, each_result
from simulation.serializer import Serializer, Result

suite = Suite(
    "C17",
    "histories of storing and removing results (runs, marks, algorithms; small grids of objective values with ties and duplicates) and "
    "analysing all or some metrics in a generated order; non-trivial = an analysis repeats after an earlier one, and "
    "some joint front mixes two algorithms",
    ["stored populations are not empty", "a stored checkpoint is not replaced after it was analysed", "run directories of one problem are not added while it is being analysed"],
)

MARKS = [500, 1500, 99]
NAMES = ["cost", "gd", "igd", "ahd", "epsilon", "extent", "spacing", "ndr", "hypervolume", "pdi"]


def gen_fitness(tc):
    mode = tc.draw(2)
    n = tc.small(1, 7) if not tc.chance(0.02) else tc.int(7, 64)
    if mode == 0:
        vs = [[float(tc.draw(3)), float(tc.draw(3))] for _ in range(n)]
    elif mode == 1:
        vs = [[float(k), 8.0 - k] for k in (tc.draw(8) for _ in range(n))]
    else:
        vs = [[tc.float(0.0, 9.0), tc.float(0.0, 9.0)] for _ in range(n)]
    if tc.chance(0.3):
        vs.append(list(tc.pick(vs)))
    return [tuple(v) for v in vs] if tc.chance(0.15) else vs


def reference(sol, cost, front, joint):
    nd = nondominated(sol)
    d = len(sol[0])
    gd, igd = rms_nearest(nd, front), rms_nearest(front, sol)
    mine = set(map(tuple, nd))
    return {
        "cost": cost, "gd": gd, "igd": igd, "ahd": max(gd, igd),
        "epsilon": max(min(max(p[k] - s[k] for k in range(d)) for p in front) for s in nd),
        "extent": math.sqrt(sum(max(s[k] for s in sol) - min(s[k] for s in sol) for k in range(d))),
        "spacing": spacing_ref(nd), "ndr": len(nd) / len(sol), "hypervolume": hv_reference(nd, [50.0] * d),
        "pdi": len(mine & joint) / len(joint),
    }


@suite.test(quick=900, thorough=12000, cpu=200, rule="every reported value equals the from-scratch value, in every history")
def history(tc):
    root = T.scratch(tc) / tc.pick(["results", "ZDT1_results", "k2_ZDT1_", "a b"])
    root.mkdir()
    import problems.ZDT1.problem as z1
    import problems.ZDT3.problem as z3
    fronts = {"ZDT1": z1, "ZDT3": z3}
    # a thinner reference front keeps the search fast; it is what the problem module offers during the case
    for m in (z1, z3):
        full = m.pareto_front
        thin = list(full)[::max(1, len(full) // 12)]
        m.pareto_front = thin
        tc.defer(lambda m=m, full=full: setattr(m, "pareto_front", full))
    state = {}  # (problem, algo, run dir, mark) -> (fit, cost)
    analysed_before, mixed = 0, False
    serial = [0]
    spare = []  # removed results, which may come back elsewhere
    log = []

    def store():
        problem = tc.pick(["ZDT1", "ZDT1", "ZDT3"])
        algo = tc.pick(["NSGAII", "IBEA", "HGS+SPEA2"])
        mine = sorted(set(r for p, a, r, _ in state if (p, a) == (problem, algo)))
        if mine and tc.chance(0.4):
            rid = tc.pick(mine)
        else:
            serial[0] += 1
            if tc.chance(0.1):
                (root / problem / algo / tc.pick(["2000-01-01", "backup"])).mkdir(parents=True, exist_ok=True)
            rid = model.get_simulation_id(serial[0], T.gen_date(tc, serial[0]))
        free = [m for m in MARKS if (problem, algo, rid, m) not in state]
        if not free:
            return
        mark = tc.pick(free)
        fit, cost = tc.pick(spare) if spare and tc.chance(0.5) else (gen_fitness(tc), tc.pick([64, 500.0, 1777]))
        c = SimulationCase(problem, algo, 1, None, str(root), rid)
        Serializer(c).store(Result([[0.0] for _ in fit], fit, cost=cost), str(mark))
        state[(problem, algo, rid, mark)] = (fit, cost)
        log.append("store %s/%s/%s/%d: %r" % (problem, algo, rid, mark, fit))

    def remove():
        """The user throws away a run, or one checkpoint together with what was cached for it."""
        if not state:
            return
        p, a, r, m = tc.pick(sorted(state))
        d = root / p / a / r
        if tc.bool():
            shutil.rmtree(str(d))
            gone = [k for k in state if k[:3] == (p, a, r)]
        else:
            for f in sorted(d.iterdir()):
                if f.name.startswith("%d." % m):
                    f.unlink()
            gone = [(p, a, r, m)]
        if tc.bool():
            spare.extend(state[k] for k in gone)
        for k in gone:
            del state[k]
            if not any(x[:3] == k[:3] for x in state) and d.exists():
                shutil.rmtree(str(d))  # a run without checkpoints is covered by C14
        log.append("remove %s" % gone)

    def replace():
        """A run is removed and the same job done again: as many solutions at the same marks, in a new directory."""
        if not state:
            return
        p, a, r, _ = tc.pick(sorted(state))
        old = {m: state.pop((p, a, r, m)) for m in MARKS if (p, a, r, m) in state}
        shutil.rmtree(str(root / p / a / r))
        serial[0] += 1
        rid = model.get_simulation_id(serial[0], T.gen_date(tc, serial[0]))
        for m, (fit, cost) in sorted(old.items()):
            new = [[tc.pick([0.0, 1.0, 2.0, 3.0]) for _ in v] for v in fit]
            Serializer(SimulationCase(p, a, 1, None, str(root), rid)).store(Result([[0.0] for _ in new], new, cost=cost), str(m))
            state[(p, a, rid, m)] = (new, cost)
        log.append("replace %s/%s/%s by %s: %r" % (p, a, r, rid, {m: state[(p, a, rid, m)][0] for m in old}))

    def results_on_disk():
        return {k: v for k, v in T.snapshot(root).items() if v is not None and k.split("/")[-1][:-7].isdigit() and k.endswith(".pickle")}

    def analyse():
        nonlocal mixed
        order = {}
        for p, a, r, _ in state:
            order.setdefault((p, a), set()).add(r)
        order = {k: sorted(v) for k, v in order.items()}
        joint = {}
        for (p, a, r, m), (fit, _) in state.items():
            joint.setdefault((p, m, order[(p, a)].index(r)), []).append((a, fit))
        nd = {k: set(nondominated([tuple(v) for _, f in g for v in f])) for k, g in joint.items()}
        before = results_on_disk()
        wanted = tc.subset(NAMES, 0.6) if tc.chance(0.6) else list(NAMES)
        log.append("analyse %s" % wanted)
        seen = set()
        for problem, mod, algos in each_result(BudgetResultsExtractor() if tc.bool() else TimeResultsExtractor(), root if tc.bool() else str(root)):
            for algo, groups in algos:
                for g in groups:
                    rs = g["results"]
                    calls = []
                    for name, _, fns in g["analysis"]:
                        tc.check(len(fns) == len(rs), lambda: "%d values of %s for %d results" % (len(fns), name, len(rs)))
                        calls += [(name, i, fn) for i, fn in enumerate(fns) if name in wanted]
                    if tc.bool():
                        calls = tc.shuffled(calls)
                    for name, i, fn in calls:
                        r = rs[i]
                        fit, cost = state[(problem, algo, r.simulation_case.id, int(r.name))]
                        key = (problem, int(r.name), order[(problem, algo)].index(r.simulation_case.id))
                        mixed = mixed or len(joint[key]) > 1
                        w = reference(fit, cost, mod.pareto_front, nd[key])[name]
                        v = fn()
                        tc.check(v is not None and close(v, w, 1e-7, 1e-7), lambda: "%s of %s/%s/%s/%s is %r, from scratch %r" % (name, problem, algo, r.simulation_case.id, r.name, v, w))
                        if tc.chance(0.2):
                            v2 = fn()
                            tc.check(v2 == v, lambda: "%s asked again: %r, then %r" % (name, v, v2))
                        seen.add((problem, algo, r.simulation_case.id, int(r.name)))
        tc.check(not wanted or seen == set(state), lambda: "analysed %d of %d stored results" % (len(seen), len(state)))
        tc.check(results_on_disk() == before, "analysing changed the stored results")
        if wanted and tc.chance(0.2):
            # the problem's reference front is revised: a value cached for the old one may be refused, but not reported
            tc.label("revised-front")
            old = {m: m.pareto_front for m in (z1, z3)}
            for m in old:
                m.pareto_front = [[a + 0.5, b + 0.25] for a, b in m.pareto_front[::2]]
            try:
                for problem, mod, algos in each_result(BudgetResultsExtractor(), root):
                    for algo, groups in algos:
                        for g in groups:
                            for name, _, fns in g["analysis"]:
                                for r, fn in zip(g["results"], fns) if name in wanted else ():
                                    try:
                                        v = fn()
                                    except Exception:
                                        continue
                                    fit, cost = state[(problem, algo, r.simulation_case.id, int(r.name))]
                                    key = (problem, int(r.name), order[(problem, algo)].index(r.simulation_case.id))
                                    w = reference(fit, cost, mod.pareto_front, nd[key])[name]
                                    tc.check(close(v, w, 1e-7, 1e-7), lambda: "%s of %s/%s/%s/%s is %r under the revised reference front, from scratch %r" % (
                                        name, problem, algo, r.simulation_case.id, r.name, v, w))
            finally:
                for m, front in old.items():
                    m.pareto_front = front

    tc.note(history=log, root=root.name)
    with D.quiet():
        for _ in range(tc.int(1, 4)):
            for _ in range(tc.int(1, 5) if not analysed_before else tc.small(1, 5)):
                what = tc.weighted([(6, store), (2, remove), (2, replace)]) if analysed_before else store
                what()
            for _ in range(tc.weighted([(4, 1), (2, 2), (1, 0)])):
                analyse()
                analysed_before += 1
        if tc.chance(0.3):
            # loading still works with all the cached values lying around
            n = sum(len(g["results"]) for _, _, al in each_result(BudgetResultsExtractor(), root) for _, gs in al for g in gs)
            tc.check(n == len(state), lambda: "%d results are loaded, %d were stored" % (n, len(state)))
    tc.nontrivial(analysed_before > 1 and mixed)
