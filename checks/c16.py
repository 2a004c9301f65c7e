import logging
import random
import re

from pbt.engine import Reject, Suite, Violation
from checks.common import *
from checks import drivers as D
from checks import fakes as F
from checks import hgs as H
from checks import trees as T
from checks.c08 import Clock
from checks.network import Network, Stuck
from algorithms.HGS.distributed.DistributedHGS import DistributedHGS
from simulation import factory, run_config, run_parallel
from simulation.serializer import load_file

suite = Suite(
    "C16",
    "batches of 1-3 problems x 1-4 scripted algorithms x 1-3 repetitions with faults in construction, in a generation, in "
    "reading the population, in an objective, in configuration, or a combination without adapter, run through the batch "
    "runner in a generated order; non-trivial = at least one simulation fails and at least one succeeds",
    ["the batch runner's actor system is a stand-in (scripted algorithms do not use it); the actor-based strategy runs on a simulated network", "simulations of a batch run one after another, as the runner does"],
)


class Actors:
    made = []

    def __init__(self, *a, **kw):
        self.closed = 0
        Actors.made.append(self)

    def shutdown(self):
        self.closed += 1


class Ticking(Clock):
    """Every reading takes a microsecond, so that no measured interval is empty."""

    def __init__(self, tc):
        super().__init__(tc)
        self._now = 1000.0

    @property
    def now(self):
        self._now = getattr(self, "_now", 1000.0) + 1e-6
        return self._now

    @now.setter
    def now(self, v):
        self._now = v


def gen_plan(tc):
    kind = tc.weighted([(5, "none"), (1, "ctor"), (2, "step"), (1, "finalize")])
    return {} if kind == "none" else {"ctor": True} if kind == "ctor" else {kind: tc.int(0, 5)}


@suite.test(quick=2500, thorough=40000, rule="the batch completes and leaves exactly the stand-alone results")
def batch(tc):
    clock = Ticking(tc)
    timed = tc.chance(0.25)
    problems = ["FKP%d" % i for i in range(tc.int(1, 3))]
    algos = ["FKA%d" % i for i in range(tc.int(1, 3))]
    n = tc.size(1, 3, 12)
    bad_problem = tc.pick(problems) if tc.chance(0.15) else None
    bad_config = tc.pick(algos) if tc.chance(0.12) else None
    costs = {a: [tc.int(1, 30) for _ in range(tc.int(1, 4))] for a in algos}
    for k, p in enumerate(problems):
        def f1(x, k=k, p=p):
            if p == bad_problem and x[0] >= 2:
                raise F.Boom("objective")
            return x[0] + k

        F.install_problem(tc, p, [(0.0, float(k + 1))], [f1, lambda x: -x[0]], [[0.0, 0.0]])
    plans = {}
    for a in algos:
        for p in problems:
            plans[(p, a)] = [gen_plan(tc) for _ in range(n)] if tc.chance(0.3) else [gen_plan(tc)] * n
    made = {}

    def pops(g):
        return [[float(g)], [float(g) + 0.5]]

    for a in algos:
        class Scripted(F.FakeDriver):
            def __init__(self, dims, a=a, **kw):
                pair = ("FKP%d" % (int(dims[0][1]) - 1), a)
                mine = made.setdefault(pair, [])
                plan = plans[pair][len(mine)] if len(mine) < n else {}
                super().__init__(costs=costs[a], durations=(0.75, 1.5), clock=clock, pops=pops, plan=plan, sink=mine, dims=dims, **kw)

        F.install_algorithm(tc, a, Scripted)
    listed = list(algos)
    odd = None
    if tc.chance(0.3):
        odd = "FKA0+FKA%d" % (len(algos) - 1)  # nothing adapts one scripted algorithm to another
        listed.insert(tc.draw(len(listed)), odd)
    saved = run_config.problems, run_config.algorithms, run_parallel.ActorSystem, logging.Logger.handle, logging.root.manager.disable
    tc.defer(lambda: (setattr(run_config, "problems", saved[0]), setattr(run_config, "algorithms", saved[1]),
                      setattr(run_parallel, "ActorSystem", saved[2]), setattr(logging.Logger, "handle", saved[3]), logging.disable(saved[4])))
    run_config.problems, run_config.algorithms = problems, listed
    if bad_config is not None:
        key = "init_alg___" + bad_config

        def broken(config, problem):
            raise F.Boom("configuration")

        setattr(run_config, key, broken)
        tc.defer(lambda: delattr(run_config, key))
    run_parallel.ActorSystem = Actors
    Actors.made = []
    records = []
    logging.disable(logging.NOTSET)
    level = run_parallel.logger.level
    tc.defer(lambda: run_parallel.logger.setLevel(level))
    run_parallel.logger.setLevel(logging.DEBUG)
    logging.Logger.handle = lambda self, record: records.append((record.levelno, record.getMessage()))
    root = T.scratch(tc) / "out"
    budgets = sorted(tc.list(lambda: tc.int(0, 100), 1, 3))
    interval, timeout = tc.pick([1, 2, 9]), tc.int(2, 6)
    args = {"budget": not timed, "time": timed, "<budget>": ",".join(map(str, tc.shuffled(budgets))), "<timeout>": str(timeout), "<step>": str(interval),
            "--algo": ",".join(listed), "--problem": ",".join(problems), "-N": str(n), "-j": str(tc.int(1, 4)), "--renice": None, "--dir": str(root)}
    tc.note(problems=problems, algorithms=listed, n=n, plans={"%s/%s" % k: v for k, v in plans.items()}, budgets=budgets, timed=timed, costs=costs,
            bad_problem=bad_problem, bad_config=bad_config)
    tc.seed()
    state = random.getstate()
    run_parallel.run_parallel(args)
    random.setstate(state)
    logging.disable(saved[4])
    logging.Logger.handle = saved[3]
    tc.check(len(Actors.made) == 1 and Actors.made[0].closed == 1, "the actor system was not started and stopped exactly once")

    # what each simulation would do alone
    def alone(p, a, plan):
        files, seconds, g, cost, t = {}, 0.0, 0, 0, 0.0
        if plan.get("ctor"):
            return files, True, 0.0

        def capture():
            if plan.get("finalize") is not None and g >= plan["finalize"]:
                return None
            pop = pops(g)
            if p == bad_problem and any(x[0] >= 2 for x in pop):
                return None
            return pop, [[x[0] + problems.index(p), -x[0]] for x in pop], cost

        if timed:
            nxt, failed = 1, False
            while t < timeout:
                if plan.get("step") == g:
                    return files, True, 0.0
                t += (0.75, 1.5)[g % 2]
                cost += costs[a][g % len(costs[a])]
                g += 1
                while g > 1 and nxt * interval <= t:
                    c = capture()
                    if nxt * interval <= timeout:
                        if c is None:
                            failed = True
                        elif not failed:
                            files[nxt * interval] = c
                    nxt += 1
            return files, failed, t
        for b in budgets:
            while cost < b:
                if plan.get("step") == g:
                    return files, True, 0.0
                t += (0.75, 1.5)[g % 2]
                cost += costs[a][g % len(costs[a])]
                g += 1
            c = capture()
            if c is None:
                return files, True, 0.0
            files[b] = c
        return files, False, t

    errors = {}
    for level, text in records:
        if level >= logging.ERROR:
            words = text.split()
            for p in problems:
                for a in listed:
                    m = re.search(r"runID=(\d+)", text)
                    if p in words and a in words and m:
                        errors.setdefault((p, a), []).append(int(m.group(1)))
    total, good, bad = 0.0, 0, 0
    seconds = {}
    for p in problems:
        for a in listed:
            pair = (p, a)
            dirs = sorted((root / p / a).iterdir()) if (root / p / a).exists() else []
            got = []
            for d in dirs:
                got.append((int(d.name.split("__")[1]), {int(f.stem): load_file(f) for f in d.iterdir()}))
            if a == odd or a == bad_config:
                want = [({}, True, 0.0)] * n
                tc.check(not made.get(pair) or a == odd, lambda: "%s was constructed although its configuration failed" % a)
            else:
                tc.check(len(made.get(pair, [])) == n, lambda: "%s/%s ran %d times, want %d" % (p, a, len(made.get(pair, [])), n))
                want = [alone(p, a, plan) for plan in plans[pair]]
            # repetitions are told apart by what they stored
            bad += sum(w[1] for w in want)
            good += sum(not w[1] for w in want)
            total += sum(w[2] for w in want if not w[1])
            seconds[pair] = sum(w[2] for w in want if not w[1]), any(not w[1] for w in want)
            shown = sorted(repr(sorted((k, r.population, r.fitnesses, r.additional_data["cost"]) for k, r in files.items())) for _, files in got)
            exp = sorted(repr(sorted((k,) + c for k, c in files.items())) for files, _, _ in want if files)
            if timed and any(w[1] for w in want):
                # marks after one that could not be read may be stored or not
                pass
            else:
                tc.check(shown == exp, lambda: "%s/%s stored %r, want %r" % (p, a, shown, exp))
            failing = sum(w[1] for w in want)
            named = errors.get(pair, [])
            tc.check(len(named) == failing and len(set(named)) == len(named) and all(0 <= r < n for r in named),
                     lambda: "%s/%s: %d simulations failed, the summary names runs %r" % (p, a, failing, named))
            full = [files for files, b, _ in want if not b]
            for rid, files in got:
                if rid < n and rid not in named and rid > 0 and full:
                    tc.check(any(sorted(files) == sorted(f) for f in full), lambda: "%s/%s run %d is not named as failing but stored only %r" % (p, a, rid, sorted(files)))
    tc.nontrivial(good > 0 and bad > 0)
    tc.label("failures" if bad else "clean")
    reported, listed_times = [], {}
    for level, text in records:
        m = re.search(r"CPU\+user time:\s*([0-9.]+)", text)
        if m:
            reported.append(m.group(1))
            tc.check(abs(float(m.group(1)) - total) < 0.01 + 1e-3 * (good + bad), lambda: "the summary reports %s s, the successful simulations took %r" % (m.group(1), total))
        m = re.search(r"prob:\s*'([^']*)'.*algo:\s*'([^']*)'.*time:\s*([0-9.]+)", text)
        if m and (m.group(1), m.group(2)) in seconds:
            tc.label("running-times")
            listed_times.setdefault(m.groups()[:2], []).append(m.group(3))
            t, any_good = seconds[(m.group(1), m.group(2))]
            tc.check(any_good, lambda: "the summary reports a running time for %s/%s, which never succeeded" % m.groups()[:2])
            tc.check(abs(float(m.group(3)) - t / n) < 0.01, lambda: "the summary reports %s s as the average of %d runs of %s/%s, whose successful runs took %r" % (m.group(3), n, m.group(1), m.group(2), t))
    tc.check(len(reported) == 1, lambda: "the summary states the total time %d times: %r" % (len(reported), reported))
    for pair, (t, any_good) in seconds.items():
        tc.check(len(listed_times.get(pair, [])) == int(any_good), lambda: "the summary lists the running time of %s/%s %d times, want %d" % (pair + (len(listed_times.get(pair, [])), int(any_good))))


@suite.test(quick=700, thorough=12000, cpu=300,
            rule="runs of the actor-based strategy one after another on one actor system: a failing deme fails its run, the others are as if alone")
def actor_hierarchies(tc):
    net = Network(tc)
    failures = healthy = 0
    tc.seed()
    for run in range(tc.int(2, 4)):
        s = H.Setting(tc)
        s.max_sprouts = 1000
        if tc.chance(0.6):
            s.fault = [tc.pick(["create", "step", "result", "nominate"]), tc.weighted([(3, tc.int(0, 6)), (1, tc.int(0, 60))])]
        tc.note(**{"run%d" % run: dict(s.describe(), fault=s.fault and list(s.fault))})
        algo = m = error = None
        cycles = tc.size(1, 5, 15)
        with D.quiet():
            try:
                algo = DistributedHGS(**s.kwargs())
                tc.check(len(s.demes) == 1, lambda: "run %d: %d demes at the start" % (run, len(s.demes)))
                m = H.LazyModel(s, s.demes[0])
                for _ in range(cycles):
                    known = len(s.demes)
                    message = algo.next_step()
                    if not s.fired:
                        net.settle()
                    if s.fired:
                        # a deme that is still being founded: its failure may come after the answer
                        tc.label("late")
                        algo.finalized_population()
                        break
                    m.cycle(s.demes[known:], "unordered", False, max)
                    tc.check(close(algo.cost, m.cost) and close(message.cost, m.cost),
                             lambda: "run %d: cost %r, the cycles' most expensive demes add up to %r" % (run, algo.cost, m.cost))
                    if tc.bool():
                        got = multiset(tuple(v) for v in algo.finalized_population())
                        tc.check(s.fired or got == m.result(), lambda: "run %d: the result is not the union of the demes' results" % run)
                    if len(s.demes) > 30:
                        break
            except (Reject, Stuck, Violation):
                raise
            except Exception as e:
                error = e
            if algo is not None:
                algo.shutdown()  # as the runner does
        tc.check(not net.stuck, lambda: "run %d waits for an answer that never comes" % run)
        if s.fired:
            failures += 1
            tc.check(error is not None, lambda: "run %d: a deme failed (%r) but the run did not" % (run, s.fault))
            tc.label("fails-in-" + s.fault[0], "constructor" if algo is None else "running")
        else:
            healthy += 1
            if error is not None:
                raise error
    tc.label(net.order, "mixed" if failures and healthy else "failures" if failures else "clean")
    tc.nontrivial(failures > 0 and healthy > 0)
