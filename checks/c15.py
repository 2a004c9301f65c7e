import os
import random

from pbt.engine import Suite
from checks.common import *
from checks import fakes as F
from checks import trees as T
from checks.c08 import Clock
from simulation import model, worker
from simulation.model import SimulationCase
from simulation.serializer import Serializer

suite = Suite(
    "C15",
    "budget and time simulations of scripted optimizers (generated costs, durations and populations per generation, faults "
    "in construction, in a generation, in reading the population, in an objective) on a fake clock; non-trivial = at "
    "least two checkpoints at different generations",
    ["a generation takes positive time; in budget runs it costs at least 1"],
)


class Faulty(Exception):
    pass


def setup(tc, timed):
    clock = Clock(tc)
    costs = [tc.int(1, 40) for _ in range(tc.int(1, 6))]
    durs = [tc.pick([0.125, 0.25, 0.5, 1.0, 1.5, 2.5, 4.0, 7.25]) for _ in range(tc.int(1, 6))]
    width = tc.size(0, 3, 80)
    bad_at = None
    plan = {}
    fault = tc.weighted([(6, "none"), (1, "ctor"), (2, "step"), (1, "finalize"), (1, "objective")])
    if fault == "ctor":
        plan["ctor"] = True
    elif fault == "objective":
        bad_at = tc.int(0, 8)
    elif fault != "none":
        plan[fault] = tc.int(0, 8)

    def pops(g):
        return [[float(g), float(k)] for k in range(width + g % 2)]

    def f1(x):
        if bad_at is not None and x[0] >= bad_at:
            raise Faulty()
        return x[0] + x[1]

    fits = [f1, lambda x: x[0] * 2 - x[1]]
    F.install_problem(tc, "FKP", [(0.0, 100.0)] * 2, fits, [[0.0, 0.0]])
    made = []
    name = tc.pick(["FKA", "FKB"])

    class Scripted(F.FakeDriver):
        def __init__(self, **kw):
            self.budgets_seen = []
            super().__init__(costs=costs, durations=durs, clock=clock, pops=pops, plan=plan, sink=made, **kw)

        def step(self):
            self.budgets_seen.append(self.max_budget)
            super().step()

    F.install_algorithm(tc, name, Scripted)

    def capture(g):
        """What is stored when the population is read after g generations; None = reading fails."""
        if plan.get("finalize") is not None and g >= plan["finalize"]:
            return None
        p = pops(g)
        if bad_at is not None and any(x[0] >= bad_at for x in p):
            return None
        return p, [[x[0] + x[1], x[0] * 2 - x[1]] for x in p], sum(costs[i % len(costs)] for i in range(g))

    return clock, costs, durs, fault, plan, made, name, capture


def stored_files(root, case):
    path = Serializer(case).path
    return {f.name: Serializer(case).load(f.name[:-7]) for f in path.iterdir()} if path.exists() else {}


def compare(tc, want, got):
    tc.check(set(got) == set("%s.pickle" % k for k in want), lambda: "stored %r, want marks %r" % (sorted(got), sorted(want)))
    for k, (p, f, c) in want.items():
        r = got["%s.pickle" % k]
        tc.check(r.population == p, lambda: "checkpoint %s holds population %r, want %r" % (k, r.population, p))
        tc.check(r.fitnesses == f, lambda: "checkpoint %s holds objectives %r, want %r" % (k, r.fitnesses, f))
        tc.check(r.additional_data["cost"] == c, lambda: "checkpoint %s holds cost %r, want %r" % (k, r.additional_data, c))


def execute(tc, w, made, ctor_fails):
    state = random.getstate()
    out = w.run()
    random.setstate(state)
    tc.check(len(made) == 1, lambda: "%d optimizers were created for one simulation" % len(made))
    tc.check(made[0].closed == (0 if ctor_fails else 1), lambda: "the optimizer was shut down %d times" % made[0].closed)
    return out


@suite.test(quick=4000, thorough=60000, rule="budget simulations against the script")
def budget_checkpoints(tc):
    clock, costs, durs, fault, plan, made, name, capture = setup(tc, False)
    budgets = sorted(tc.list(lambda: tc.int(0, 3000), 8, 40) if tc.chance(0.02) else tc.list(lambda: tc.int(0, 300), 1, 6))
    number = tc.size(0, 20, 10 ** 6)
    tc.note(costs=costs, fault=fault, plan=plan, budgets=budgets)
    root = T.scratch(tc)
    case = SimulationCase("FKP", name, 1, None, str(root), model.get_simulation_id(1, T.gen_date(tc, 1)), budgets=budgets)
    want, results, g, cost, failed = {}, [], 0, 0, fault == "ctor"
    for b in budgets:
        while not failed and cost < b:
            if plan.get("step") == g:
                failed = True
                break
            cost += costs[g % len(costs)]
            g += 1
        if failed:
            break
        c = capture(g)
        if c is None:
            failed = True
            break
        want[b] = c
        results.append((c[2], c[0]))
    tc.label(fault if failed else "completes")
    tc.nontrivial(len(set(c[2] for c in want.values())) > 1)
    out = execute(tc, worker.BudgetWorker(case, number), made, fault == "ctor")
    compare(tc, want, stored_files(root, case))
    tc.check(made[0].g == g, lambda: "%d generations ran, want %d" % (made[0].g, g))
    if failed:
        tc.check(out is None, lambda: "a failing simulation returned %r" % (out,))
    else:
        tc.check(out is not None, "a simulation without fault returned no result")
        got, seconds, no = out
        tc.check([(c, p) for c, p in got] == results, lambda: "returned %r, want %r" % (got, results))
        tc.check(no == number, lambda: "simulation %d reported itself as %r" % (number, no))
        tc.check(close(seconds, sum(durs[i % len(durs)] for i in range(g))), lambda: "reported %r seconds" % seconds)
    tc.check(all(b == budgets[-1] for b in made[0].budgets_seen), lambda: "the optimizer was told %r as its largest budget %r" % (made[0].budgets_seen, budgets[-1]))


@suite.test(quick=4000, thorough=60000, rule="time simulations against the script")
def time_checkpoints(tc):
    clock, costs, durs, fault, plan, made, name, capture = setup(tc, True)
    interval, timeout = tc.int(1, 4), tc.size(1, 20, 150)
    tc.note(costs=costs, durations=durs, fault=fault, plan=plan, interval=interval, timeout=timeout)
    root = T.scratch(tc)
    case = SimulationCase("FKP", name, 1, None, str(root), model.get_simulation_id(1, T.gen_date(tc, 1)), timeout=timeout, sampling_interval=interval)
    want, later, results, t, g, nxt, failed = {}, {}, [], 0.0, 0, 1, fault == "ctor"
    while fault != "ctor" and t < timeout:
        if plan.get("step") == g:
            failed = True
            break
        t += durs[g % len(durs)]
        g += 1
        if g > 1:
            while nxt * interval <= t:
                if nxt * interval <= timeout:
                    c = capture(g)
                    if c is None:
                        failed = True
                    elif failed:
                        later[nxt * interval] = c
                    else:
                        want[nxt * interval] = c
                        results.append((c[2], c[0]))
                nxt += 1
    tc.label(fault if failed else "completes")
    tc.nontrivial(len(set(c[2] for c in want.values())) > 1)
    out = execute(tc, worker.TimeWorker(case, 3), made, fault == "ctor")
    got = stored_files(root, case)
    # marks after the one that could not be read may be stored or not, but never wrongly
    want.update({k: c for k, c in later.items() if "%d.pickle" % k in got})
    compare(tc, want, got)
    if failed:
        tc.check(out is None, lambda: "a failing simulation returned %r" % (out,))
        return
    tc.check(made[0].g == g, lambda: "%d generations ran, want %d" % (made[0].g, g))
    tc.label("stored" if want else "no-mark")
    tc.check(out is not None, "a simulation without fault returned no result")
    tc.check([(c, p) for c, p in out[0]] == results and out[2] == 3, lambda: "returned %r, want %r" % (out, results))


@suite.test(quick=300, thorough=3000, rule="workers are reniced by the requested increment only")
def priority(tc):
    clock, costs, durs, fault, plan, made, name, capture = setup(tc, False)
    inc = tc.pick([None, "0", "5", "19"])
    calls = []
    old = os.nice
    tc.defer(lambda: setattr(os, "nice", old))
    os.nice = lambda n: calls.append(n) or 0
    root = T.scratch(tc)
    case = SimulationCase("FKP", name, 1, inc, str(root), model.get_simulation_id(1), budgets=[30])
    tc.note(increment=inc)
    tc.nontrivial(inc is not None)
    execute(tc, worker.BudgetWorker(case, 0), made, fault == "ctor")
    tc.check(calls == ([int(inc)] if inc else []), lambda: "reniced by %r, asked for %r" % (calls, inc))


@suite.test(quick=40, thorough=500, rule="real optimizers and stacks: the stored file holds a population together with its own objective values", cpu=300)
def real_stacks(tc):
    from checks import drivers as D
    name = tc.pick([m + a for a in D.NAMES for m in ("", "IMGA+", "HGS+")])
    dims = D.nice_dims(tc, 2, 3)
    problem = D.gen_problem(tc, dims=dims, nonneg=True, obj=(2, 2))
    timed = tc.chance(0.35)
    fits = list(problem.fitnesses)
    if timed:
        clock = Clock(tc)

        def slow(x, f=fits[0]):
            clock.now += 0.02
            return f(x)

        fits[0] = slow
    F.install_problem(tc, "FKS", dims, fits, [[0.0] * len(problem.fns)])
    old = D.run_config.DEFAULT_POPULATION_SIZE
    tc.defer(lambda: setattr(D.run_config, "DEFAULT_POPULATION_SIZE", old))
    D.run_config.DEFAULT_POPULATION_SIZE = 36
    hgs = D.run_config.algo_base["HGS"]
    tc.defer(lambda: D.run_config.algo_base.__setitem__("HGS", hgs))
    D.run_config.algo_base["HGS"] = dict(hgs, population_sizes=(24, 8, 6), metaepoch_len=[2, 2, 2])
    urandom, number = os.urandom, tc.seed()
    tc.defer(lambda: setattr(os, "urandom", urandom))
    os.urandom = lambda n: bytes(random.Random(number).getrandbits(8) for _ in range(n))
    budgets = sorted(set(tc.pick([30, 50, 80, 120, 200]) for _ in range(tc.int(1, 3))))
    interval, timeout = tc.int(1, 2), tc.int(3, 8)
    tc.label(name, "timed" if timed else "budgets")
    tc.note(algorithm=name, budgets=budgets, problem=problem.desc, timed=timed, interval=interval, timeout=timeout)
    root = T.scratch(tc)
    params = dict(timeout=timeout, sampling_interval=interval) if timed else dict(budgets=budgets)
    case = SimulationCase("FKS", name, 1, None, str(root), model.get_simulation_id(1, T.gen_date(tc, 1)), **params)
    with D.quiet():
        out = (worker.TimeWorker if timed else worker.BudgetWorker)(case, 7).run()
    evaluated = problem.evaluated()
    got = stored_files(root, case)
    tc.check(out is not None and out[2] == 7, "%s failed" % name)
    if timed:
        budgets = list(range(interval, timeout + 1, interval))
        if not got:
            # the first generation outlasted the timeout
            tc.label("one-generation")
            tc.check(out[0] == [], lambda: "%s returned %r and stored nothing" % (name, out[0]))
            return
    tc.check(set(got) == set("%d.pickle" % b for b in budgets), lambda: "%s stored %r for budgets %r" % (name, sorted(got), budgets))
    last = 0
    for b, (cost, pop) in zip(budgets, out[0]):
        r = got["%d.pickle" % b]
        stored = [list(map(float, x)) for x in r.population]
        tc.check(len(stored) > 0, "%s: the checkpoint %d is empty" % (name, b))
        tc.check(all(tuple(x) in evaluated for x in stored), "%s: the checkpoint %d holds a solution that was never evaluated" % (name, b))
        want = [[f(x) for f in problem.fns] for x in stored]
        tc.check(len(want) == len(r.fitnesses) and all(len(a) == len(b) and all(close(u, v, 1e-12, 1e-12) for u, v in zip(a, b)) for a, b in zip(r.fitnesses, want)), lambda: "%s: the stored objectives of checkpoint %d differ from those of the population" % (name, b))
        tc.check(r.additional_data["cost"] == cost and (timed or cost >= b) and cost >= last, lambda: "%s: cost %r (returned %r) at checkpoint %d" % (name, r.additional_data, cost, b))
        tc.check(multiset(list(map(float, x)) for x in pop) == multiset(stored), "%s: returned and stored populations differ" % name)
        last = cost
    tc.nontrivial()
