import time

from pbt.engine import Suite
from checks.common import *
from checks import drivers as D
from algorithms.base.driver import BudgetRun, StepsRun, TimeRun, Driver
from algorithms.base.model import ProgressMessageAdapter

suite = Suite(
    "C08",
    "budget, step and time bounded runs over scripted optimizers (generated cost increments, durations, failures) and "
    "over the real ones; time is a fake clock; non-trivial = at least two generations were needed and the bound "
    "falls strictly inside the run",
    ["generations take positive time on the (fake) clock", "every generation of a scripted optimizer costs at least 1 in budget runs"],
)


class Scripted(Driver):
    """A driver whose generations cost and last what the script says."""

    def __init__(self, costs, durations=(), clock=None, initial=0, fail_at=None, adapter=ProgressMessageAdapter):
        super().__init__(adapter)
        self.script, self.durations, self.clock = costs, durations, clock
        self.cost = initial
        self.done = 0
        self.fail_at = fail_at
        self.history = []

    def step(self):
        i = self.done
        if self.fail_at == i:
            raise RuntimeError("scripted failure")
        if self.clock is not None:
            self.clock.now += self.durations[i % len(self.durations)]
        self.cost += self.script[i % len(self.script)]
        self.done += 1
        self.history.append((self.cost, self.clock.now if self.clock else None))

    def finalized_population(self):
        return [[float(self.done)]]


class Clock:
    def __init__(self, tc, start=1000.0):
        self.now = start
        names = ["time", "perf_counter", "monotonic", "process_time"]
        old = {n: getattr(time, n) for n in names}
        for n in names:
            setattr(time, n, lambda: self.now)
        tc.defer(lambda: [setattr(time, n, f) for n, f in old.items()])


@suite.test(quick=6000, thorough=100000, rule="budget runs: stop at the first generation boundary at or past the budget")
def budget(tc):
    scale = 5000 if tc.chance(0.03) else 1
    costs = [tc.int(1, 40 * scale) for _ in range(tc.int(1, 8))]
    initial = tc.pick([0, 5, 64])
    budgets = [tc.int(0, 300 * scale) for _ in range(tc.size(1, 4, 40))]
    fail_at = tc.int(0, 10) if tc.chance(0.15) else None
    tc.note(costs=costs, initial=initial, budgets=budgets, fail_at=fail_at)
    d = Scripted(costs, initial=initial, fail_at=fail_at)
    model_cost, model_steps = initial, 0
    for b in budgets:
        msgs, ends, errs = [], [], []
        want = []
        fails = False
        while model_cost < b:
            if fail_at == model_steps:
                fails = True
                break
            model_cost += costs[model_steps % len(costs)]
            want.append((model_steps, model_cost))
            model_steps += 1
        job = BudgetRun(b).create_job(d)
        tc.check(d.done == model_steps - len(want), "creating the job already ran the optimizer")
        try:
            job.subscribe(lambda m: msgs.append((m.step_no, m.cost)), lambda e: errs.append(e), lambda: ends.append(1))
        except RuntimeError as e:
            errs.append(e)
        tc.check(msgs == want, lambda: "budget %d: progress %r, want %r" % (b, msgs, want))
        tc.check(bool(ends) != fails and len(ends) <= 1, lambda: "completed %d times, failure %r" % (len(ends), fails))
        tc.check(bool(errs) == fails, lambda: "a failing generation was reported as %r" % (errs,))
        tc.check(d.cost == model_cost, lambda: "cost %r after budget %d, want %r" % (d.cost, b, model_cost))
        tc.nontrivial(len(want) > 1)
        if fails:
            tc.label("failure")
            return
        if not want:
            tc.label("already-spent")


@suite.test(quick=3000, thorough=50000, rule="step runs: exactly the requested number of generations, numbered from 0, resumable")
def steps(tc):
    costs = [tc.int(0, 40) for _ in range(tc.int(1, 8))]
    parts = [tc.size(0, 12, 400) for _ in range(tc.int(1, 4))]
    take = [tc.chance(0.3) for _ in parts]
    tc.note(costs=costs, parts=parts)
    d = Scripted(costs)
    n = 0
    for k in parts:
        msgs, ends = [], []
        StepsRun(k).create_job(d).subscribe(lambda m: msgs.append((m.step_no, m.cost)), None, lambda: ends.append(1))
        want = [(n + i, sum(costs[j % len(costs)] for j in range(n + i + 1))) for i in range(k)]
        n += k
        tc.check(msgs == want, lambda: "%d steps: %r, want %r" % (k, msgs, want))
        tc.check(d.done == n and d.step_no == n, lambda: "%d generations ran (counter %d), want %d" % (d.done, d.step_no, n))
        tc.check(len(ends) == 1, "a step run did not complete exactly once")
        tc.nontrivial(k > 1)


@suite.test(quick=6000, thorough=100000, rule="time runs on a fake clock: one message per elapsed interval, in order, none past the timeout")
def timed(tc):
    clock = Clock(tc)
    durs = [tc.pick([0.125, 0.25, 0.5, 1.0, 1.5, 2.5, 4.0, 7.25, 0.0625]) for _ in range(tc.int(1, 6))]
    costs = [tc.int(1, 9) for _ in range(tc.int(1, 4))]
    interval = tc.size(1, 4, 60)
    timeout = tc.size(1, 20, 400)
    consumer = tc.pick([0.0, 0.5, 3.0])
    tc.note(durations=durs, costs=costs, interval=interval, timeout=timeout, consumer=consumer)
    d = Scripted(costs, durs, clock)
    msgs, ends = [], []
    at = []

    def on_next(m):
        msgs.append((m.elapsed_time, m.step_no, m.cost))
        at.append(d.done)
        clock.now += consumer

    TimeRun(interval, timeout).create_job(d).subscribe(on_next, None, lambda: ends.append(1))
    # model: the optimizer's own time only; a mark is reported once the generation crossing it ended
    t, n, nxt, want, want_at = 0.0, 0, 1, [], []
    prev = None
    cost = 0
    while t < timeout:
        t += durs[n % len(durs)]
        cost += costs[n % len(costs)]
        if prev is not None:
            while nxt * interval <= t:
                if nxt * interval <= timeout:
                    want.append((nxt * interval,) + prev)
                    want_at.append(n + 1)
                nxt += 1
        prev = (n, cost)
        n += 1
    tc.nontrivial(n > 1 and len(want) > 1)
    tc.label("single-generation" if n == 1 else "slow-first" if durs[0] > interval else "regular")
    tc.check(d.done == n, lambda: "%d generations in %r time units, want %d" % (d.done, timeout, n))
    tc.check(len(ends) == 1, "a time run did not complete exactly once")
    tc.check(msgs == want, lambda: "messages %r, want %r" % (msgs, want))
    tc.check(at == want_at, lambda: "messages were delivered after generations %r, want %r" % (at, want_at))
    stamps = [m[0] for m in msgs]
    tc.check(stamps == [interval * (i + 1) for i in range(len(stamps))], lambda: "time stamps %r leave gaps or repeat" % (stamps,))
    if n >= 2:
        tc.check(len(stamps) == timeout // interval, lambda: "%d of %d marks reported" % (len(stamps), timeout // interval))


@suite.test(quick=200, thorough=3000, cpu=60, rule="real optimizers: generation numbering and budget overshoot of at most one generation")
def real(tc):
    name = tc.pick(D.NAMES)
    p = D.gen_problem(tc, 1, 3)
    n = tc.int(2, 12)
    pop = D.gen_population(tc, p.dims, n, p.optima)
    params = D.gen_params(tc, name, p)
    b1 = tc.int(0, 120)
    b2 = b1 + tc.int(0, 80)
    k = tc.int(0, 3)
    tc.seed()
    tc.note(algorithm=name, problem=p.desc, population=pop, params=params, budgets=[b1, b2], steps=k)
    tc.label(name)
    with D.quiet():
        d = D.build(name, p, pop, params)
        # make sure a generation costs something before asking for a budget
        c0 = d.cost
        StepsRun(2).create_job(d).subscribe(lambda m: None)
        if d.cost == c0 or params.get("mutation_rate") == 0.0 or params.get("crossover_rate") == 0.0:
            tc.reject("free generations")
        tc.check(d.step_no == 2, lambda: "step counter %r after two generations" % d.step_no)
        for b in (b1, b2):
            seen = [(d.step_no - 1, d.cost)]
            guard = [0]

            def on_next(m):
                guard[0] += 1
                if guard[0] > 400:
                    raise RuntimeError("no progress towards the budget")
                seen.append((m.step_no, m.cost))

            try:
                BudgetRun(b).create_job(d).subscribe(on_next)
            except RuntimeError:
                tc.label("stalled")
                tc.reject("this setting converges to free generations")
            tc.check(d.cost >= b or False, lambda: "run ended at cost %r below its budget %d" % (d.cost, b))
            if len(seen) > 1:
                tc.nontrivial(True)
                tc.check(seen[-2][1] < b, lambda: "ran on after the budget %d was spent: %r" % (b, seen[-3:]))
            tc.check([s for s, _ in seen] == list(range(seen[0][0], seen[0][0] + len(seen))), lambda: "generation numbers %r" % (seen,))
            tc.check(all(x[1] <= y[1] for x, y in zip(seen, seen[1:])), lambda: "cost sequence %r" % (seen,))
