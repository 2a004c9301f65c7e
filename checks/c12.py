import copy
import sys

from pbt.engine import Suite
from checks.common import *
from checks import drivers as D
from checks import fakes as F
from simulation import factory, run_config

suite = Suite(
    "C12",
    "generated configuration layers (algorithm, algorithm+sub-algorithms, +problem, initialiser functions at every "
    "level) over scripted algorithms stacked 1-3 deep, plus real algorithm stacks run for a few generations; "
    "non-trivial = at least two layers define the same parameter",
    [],
)

KEYS = ["alpha", "beta", "gamma", "delta", "population_hint"]


class Recorder:
    def __init__(self, **kw):
        self.kw = kw


def layer(tc, tag):
    return {k: "%s/%s" % (tag, k) for k in KEYS if tc.chance(0.4)}


@suite.test(quick=4000, thorough=60000, rule="effective parameters of every level of a stack against a layered model")
def layering(tc):
    depth = tc.int(1, 3)
    stack = ["FKA", "FKB", "FKC"][:depth]
    if depth > 1 and tc.chance(0.2):
        stack[-1] = stack[0]
    dims = [(0.0, 1.0)] * tc.int(1, 3)
    fits = [lambda x: x[0]]
    F.install_problem(tc, "FKP", dims, fits, [[0.0]])
    F.install_problem(tc, "FKQ", [(5.0, 6.0)], fits, [[0.0]])
    for a in sorted(set(stack)):
        F.install_algorithm(tc, a, Recorder, {m: "adapter of %s for %s" % (a, m) for m in set(stack)})
    added_base, added_cust, added_fn = {}, {}, {}
    expect = []
    overlaps = 0
    own_population = []
    for pos, a in enumerate(stack):
        subs = tuple(stack[pos + 1:])
        lab = "+".join(stack[pos:])
        candidates = [("base", a, a), ("base", (a, subs), lab), ("cust", (a, "FKP"), lab), ("cust", (a,) + subs + ("FKP",), lab)]
        for kind, key, tag in candidates:
            store = added_base if kind == "base" else added_cust
            if key not in store and tc.chance(0.5):
                store[key] = layer(tc, "%s:%s" % (kind, key))
        names = ["init_alg___" + a, "init_alg___" + a + "__" + "_".join(subs), "init_alg___" + a + "____FKP",
                 "init_alg___" + a + "__" + "_".join(subs) + "____FKP"]
        for nm in names:
            if nm not in added_fn and tc.chance(0.3):
                added_fn[nm] = layer(tc, nm)
        # decoys of other problems and other stacks must never apply
        if tc.chance(0.3):
            added_cust[(a, "FKQ")] = {k: "decoy" for k in KEYS}
        if tc.chance(0.3):
            added_base[(a, ("FKZ",))] = {k: "decoy" for k in KEYS}
        if tc.chance(0.2):
            added_fn["init_alg___" + a + "____FKQ"] = {k: "decoy" for k in KEYS}
        own_population.append(tc.chance(0.2))
    for pos, a in enumerate(stack):
        if own_population[pos]:
            added_base.setdefault((a, tuple(stack[pos + 1:])), {})["population"] = [["given", pos]]
    for pos, a in enumerate(stack):
        subs = tuple(stack[pos + 1:])
        chain = [
            added_base.get(a), added_base.get((a, subs)),
            added_cust.get((a, "FKP")), added_cust.get((a,) + subs + ("FKP",)),
        ]
        fns = ["init_alg___" + a, "init_alg___" + a + "__" + "_".join(subs), "init_alg___" + a + "____FKP",
               "init_alg___" + a + "__" + "_".join(subs) + "____FKP"]
        chain += [added_fn.get(n) for n in fns]
        eff = {}
        for c in chain:
            if c:
                overlaps += len(set(c) & set(eff))
                eff.update(c)
        expect.append(eff)
    for store, added in ((run_config.algo_base, added_base), (run_config.cust_base, added_cust)):
        for k, v in added.items():
            store[k] = v
            tc.defer(lambda s=store, k=k: s.pop(k, None))
    for nm, upd in added_fn.items():
        def fn(config, problem_mod, upd=upd, nm=nm):
            assert problem_mod.dims == dims
            config.update(upd)
        setattr(run_config, nm, fn)
        tc.defer(lambda nm=nm: delattr(run_config, nm))
    kept = copy.deepcopy((added_base, added_cust))
    tc.note(stack=stack, algo_base={str(k): v for k, v in added_base.items()}, cust={str(k): v for k, v in added_cust.items()}, init=added_fn)
    tc.nontrivial(overlaps > 0)
    tc.seed()
    made, mod = factory.prepare("+".join(stack), "FKP")
    tc.check(mod.dims == dims, "prepared against another problem")
    level, pos = made(), 0
    while True:
        kw = dict(level.kw)
        got = {k: kw[k] for k in KEYS if k in kw}
        want = {k: v for k, v in expect[pos].items() if k in KEYS}
        tc.check(got == want, lambda: "level %d (%s) receives %r, the layers give %r" % (pos, stack[pos], got, want))
        tc.check(kw["dims"] == dims and kw["fitnesses"] == fits, "problem box or objectives are not passed on")
        pop = kw["population"]
        if "population" in expect[pos]:
            tc.check(pop == expect[pos]["population"], lambda: "configured initial population replaced by %r" % (pop,))
        else:
            tc.check(len(pop) == run_config.DEFAULT_POPULATION_SIZE and all(in_bounds(x, dims) for x in pop),
                     lambda: "default initial population of %d: %r" % (len(pop), pop[:3]))
        if pos + 1 == depth:
            tc.check("driver" not in kw and "driver_message_adapter_factory" not in kw, "the innermost algorithm is given a sub-driver")
            break
        tc.check(kw["driver_message_adapter_factory"] == "adapter of %s for %s" % (stack[pos + 1], stack[pos]),
                 lambda: "level %d is given %r" % (pos, kw["driver_message_adapter_factory"]))
        level, pos = kw["driver"](), pos + 1
    tc.check((added_base, added_cust) == kept, "preparing a simulation changed the configuration tables")


@suite.test(quick=300, thorough=3000, rule="combinations without an adapter are declined, unknown names fail")
def not_viable(tc):
    F.install_problem(tc, "FKP", [(0.0, 1.0)], [lambda x: x[0]], [[0.0]])
    F.install_algorithm(tc, "FKA", Recorder)
    F.install_algorithm(tc, "FKB", Recorder, {"FKX": 1})
    kind = tc.pick(["no-adapter", "unknown-inner", "unknown-problem", "unknown-algo"])
    tc.note(kind=kind)
    tc.nontrivial(True)
    algo, prob = {"no-adapter": ("FKA+FKB", "FKP"), "unknown-inner": ("FKA+FKNONE", "FKP"),
                  "unknown-problem": ("FKA", "FKNONE"), "unknown-algo": ("FKNONE", "FKP")}[kind]
    try:
        factory.prepare(algo, prob)
    except run_config.NotViableConfiguration:
        tc.check(kind in ("no-adapter",), lambda: "%s reported as a disabled combination" % kind)
    except (ImportError, AttributeError, KeyError):
        tc.check(kind != "no-adapter", "a missing adapter is not reported as a disabled combination")
    else:
        tc.fail("%s was prepared without complaint" % kind)


@suite.test(quick=300, thorough=3000, rule="an initialiser that fails is not passed over: the simulation is not prepared half-configured")
def failing_initialiser(tc):
    depth = tc.int(1, 2)
    stack = ["FKA", "FKB"][:depth]
    mod = F.install_problem(tc, "FKP", [(0.0, 1.0)], [lambda x: x[0]], [[0.0]])
    F.install_algorithm(tc, "FKA", Recorder, {m: "adapter" for m in stack})
    F.install_algorithm(tc, "FKB", Recorder, {m: "adapter" for m in stack})
    pos = tc.draw(depth - 1)
    subs = "_".join(stack[pos + 1:])
    name = "init_alg___" + stack[pos] + tc.pick(["", "__" + subs, "____FKP", "__" + subs + "____FKP"])
    kind = tc.pick(["attribute", "key", "value", "type"])
    late = tc.bool()
    tc.note(stack=stack, initialiser=name, fails_with=kind)
    tc.nontrivial(True)
    tc.seed()

    def fails(config, problem_mod):
        if late:
            config["alpha"] = 1
        if kind == "attribute":
            config["beta"] = len(problem_mod.no_such_part)
        if kind == "key":
            config["beta"] = config["no such parameter"]
        if kind == "value":
            config["beta"] = float("x")
        config["beta"] = len(None)

    setattr(run_config, name, fails)
    tc.defer(lambda: delattr(run_config, name))
    try:
        with D.quiet():
            factory.prepare("+".join(stack), "FKP")
    except run_config.NotViableConfiguration:
        tc.fail("a failing initialiser is reported as a combination the platform cannot stack")
    except Exception:
        return
    tc.fail("%s failed (%s), but %s was prepared all the same" % (name, kind, "+".join(stack)))


def snapshot():
    return copy.deepcopy((run_config.algo_base, run_config.cust_base, list(run_config.algorithms), list(run_config.problems),
                          run_config.DEFAULT_POPULATION_SIZE, list(run_config.sclng_coeffs), list(run_config.metaconfig_budgets)))


STACKS = [(3, "HGS+"), (2, "IMGA+"), (2, "")]


@suite.test(quick=72, thorough=1200, cpu=300, rule="running one simulation leaves the configuration of the next one unchanged")
def isolation(tc):
    meta = tc.weighted(STACKS)
    algo = meta + tc.pick(D.NAMES)
    prob = tc.pick(run_config.problems)
    second = (tc.weighted(STACKS) + tc.pick(D.NAMES)) if tc.chance(0.5) else algo
    steps = tc.int(1, 3)
    # a stagnation threshold that is always met drives the tree optimizer through its revival path
    stagnate = tc.chance(0.6)
    tc.seed()
    tc.note(first=algo, second=second, problem=prob, generations=steps, stagnate=stagnate)
    tc.label(meta or "plain")
    tc.nontrivial(True)
    small = dict(run_config.algo_base["HGS"])
    small.update(population_sizes=(8, 6, 4), metaepoch_len=[1, 1, 1])
    if stagnate:
        small["min_progress_ratio"] = [1e6, 1e6, 1e6]
        small["max_level"] = 0
        steps += 3 * algo.startswith("HGS")
    old = run_config.algo_base["HGS"], run_config.DEFAULT_POPULATION_SIZE

    def undo():
        run_config.algo_base["HGS"], run_config.DEFAULT_POPULATION_SIZE = old

    tc.defer(undo)
    run_config.algo_base["HGS"] = small
    run_config.DEFAULT_POPULATION_SIZE = 45 if "IMGA" in algo else 12

    def flat(p):
        out = []
        while p is not None:
            kw = dict(p.keywords)
            out.append((p.func, {k: copy.deepcopy(v) for k, v in kw.items()
                                 if k not in ("driver", "population", "fitnesses", "driver_message_adapter_factory")}))
            p = kw.get("driver")
        return out

    before = snapshot()
    with D.quiet():
        ref, mod = factory.prepare(second, prob)
        ref = flat(ref)
        mod_before = copy.deepcopy((mod.dims, [list(x) for x in mod.pareto_front[:50]])), list(mod.fitnesses)
        first, _ = factory.prepare(algo, prob)
        mine = flat(first)
        pops = copy.deepcopy(first.keywords["population"])
        d = first()
        for _ in range(steps):
            d.next_step()
        d.finalized_population()
        tc.check(first.keywords["population"] == pops, "running a simulation altered the configured initial population")
        again, _ = factory.prepare(second, prob)
    tc.check(snapshot() == before, lambda: "running %s changed the shared configuration: %r" % (algo, diff(before, snapshot())))
    tc.check(flat(again) == ref, lambda: "%s prepared after running %s differs: %r" % (second, algo, flat(again)))
    tc.check(flat(first) == mine, "running a simulation altered its own prepared configuration")
    mod_after = copy.deepcopy((mod.dims, [list(x) for x in mod.pareto_front[:50]])), list(mod.fitnesses)
    tc.check(mod_after == mod_before, "running a simulation altered the problem definition")


def diff(a, b):
    return [(x, y) for x, y in zip(a, b) if x != y]


@suite.test(quick=60, thorough=200, rule="what the platform lists can be prepared: every algorithm x problem")
def listed(tc):
    algo = tc.pick(run_config.algorithms)
    prob = tc.pick(run_config.problems)
    tc.note(algorithm=algo, problem=prob)
    tc.nontrivial(True)
    tc.seed()
    made, mod = factory.prepare(algo, prob)
    kw = made.keywords
    tc.check(kw["dims"] == mod.dims and kw["fitnesses"] == mod.fitnesses, "wrong problem data")
    tc.check(len(kw["population"]) == run_config.DEFAULT_POPULATION_SIZE and all(in_bounds(x, mod.dims) for x in kw["population"]), "initial population outside the box")
    inner = made
    names = algo.split("+")
    for i, nm in enumerate(names):
        cls = inner.func
        if nm in D.NAMES:
            tc.check(cls is D.algorithm_class(nm), lambda: "%s resolves to %r" % (nm, cls))
            n = len(mod.dims)
            for k, v in (("mutation_eta", 20.0), ("crossover_eta", 30.0), ("mutation_rate", 1.0 / n), ("crossover_rate", 0.9)):
                tc.check(close(inner.keywords[k], v), lambda: "%s: %s=%r" % (algo, k, inner.keywords[k]))
        if i + 1 < len(names):
            inner = inner.keywords["driver"]


@suite.test(quick=150, thorough=3000, rule="repetitions started from one random state draw different initial populations and random numbers")
def repetitions(tc):
    import random
    from checks import fakes as F, trees as T
    from simulation import worker
    from simulation.model import SimulationCase
    dims = [(0.0, 1.0)] * tc.int(1, 3)
    F.install_problem(tc, "FKP", dims, [lambda x: x[0], lambda x: -x[0]], [[0.0, 0.0]])
    made, drawn = [], []

    class Scripted(F.FakeDriver):
        def __init__(self, **kw):
            super().__init__(costs=[1], pops=lambda g: [[0.5] * len(dims)], sink=made, **kw)

        def step(self):
            super().step()
            drawn.append((len(made), random.random()))

    F.install_algorithm(tc, "FKA", Scripted)
    n = tc.int(2, 4)
    steps = tc.int(1, 4)
    same_no = tc.bool()
    tc.seed()
    state = random.getstate()
    tc.note(n=n, steps=steps)
    tc.nontrivial(True)
    root = T.scratch(tc)
    params = {factory.BUDGETS_PARAM: [steps]}
    with D.quiet():
        for r in range(n):
            random.setstate(state)
            case = SimulationCase("FKP", "FKA", r, None, str(root), None, **params)
            worker.BudgetWorker(case, 0 if same_no else r).run()
    random.setstate(state)
    tc.check(len(made) == n and len(drawn) == n * steps, lambda: "%d simulations made %d generations" % (len(made), len(drawn)))
    pops = [repr(d.kw["population"]) for d in made]
    tc.check(len(set(pops)) == n, "two repetitions got the same initial population")
    numbers = [tuple(x for i, x in drawn if i == k + 1) for k in range(n)]
    tc.check(len(set(numbers)) == n, lambda: "two repetitions drew the same random numbers: %r" % (numbers,))
