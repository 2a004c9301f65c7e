import copy
from pbt.engine import Suite
from checks.common import *
from checks import drivers as D

suite = Suite(
    "C05",
    "each of the eight optimizers on generated problems (1-5 coordinates, 2-3 objectives incl. plateaus, constants "
    "and negative values) and on the bundled problems; populations of 2-14 incl. identical, corner and duplicate "
    "points; 1-6 generations; non-trivial = at least two generations completed",
    ["population of at least two (parent sampling needs it)", "boxes contain zero, as all bundled problems do"],
)

KEEPS_SIZE = ("NSGAII", "SPEA2", "SMSEMOA", "IBEA", "NSGAIII", "JGBL", "NSLS")


def check_population(tc, what, pop, dims):
    tc.check(hasattr(pop, "__len__") and hasattr(pop, "__getitem__"), lambda: "%s is not a list but %r" % (what, type(pop)))
    for x in pop:
        tc.check(in_bounds(x, dims), lambda: "%s holds %r outside the box %r" % (what, x, dims))


def gen_budget(tc, n, gens):
    """The budget announced to the optimizer, if any: it may be reached exactly, or passed in the last generations."""
    if not tc.chance(0.6):
        return None
    budget = tc.weighted([(2, n * tc.int(1, gens + 2)), (1, tc.int(1, n * (gens + 2)))])
    tc.label("budget")
    return budget


def run_one(tc, name, p, pop, params, gens, extra=None, trim=None, budget=None):
    start = copy.deepcopy(pop)
    n = len(pop)
    with D.quiet():
        d = D.build(name, p, pop, params, **(extra or {}))
        d.max_budget = budget
        check_population(tc, "the population before the first generation", d.population, p.dims)
        for g in range(gens):
            d.next_step()
            check_population(tc, "the population after generation %d" % (g + 1), d.population, p.dims)
            before = sorted(map(tuple, d.population))
            if g % 2 == gens % 2:
                continue
            fin = d.finalized_population()
            check_population(tc, "the final population", fin, p.dims)
            tc.check(len(fin) > 0, "empty final population")
            seen = p.evaluated()
            for x in fin:
                tc.check(tuple(x) in seen, lambda: "the final population holds %r, which was never evaluated" % (x,))
            if name in KEEPS_SIZE:
                tc.check(len(fin) == n, lambda: "final population of %d from an initial population of %d" % (len(fin), n))
            again = d.finalized_population()
            tc.check(multiset(fin) == multiset(again), "asking for the final population twice gives two answers")
            for x in fin:
                if trim:
                    tc.check(list(x) == trim(x), lambda: "final point %r is not representable at this precision" % (x,))
    tc.check(pop == start, lambda: "the caller's initial population was modified: %r became %r" % (start, pop))
    tc.check(not p.bad, lambda: "objectives evaluated outside the box at %r" % (p.bad[:2],))
    tc.check(d.step_no == gens, lambda: "%d generations counted after %d" % (d.step_no, gens))
    return d


@suite.test(quick=900, thorough=12000, cpu=60, rule="synthetic problems")
def synthetic(tc):
    name = tc.pick(D.NAMES)
    p = D.gen_problem(tc, 1, 5)
    n, gens = D.extent(tc, name, tc.small(2, 14), tc.int(1, 6))
    pop = D.gen_population(tc, p.dims, n, p.optima)
    params = D.gen_params(tc, name, p)
    budget = gen_budget(tc, n, gens)
    tc.seed()
    tc.note(algorithm=name, problem=p.desc, population=pop, params=params, generations=gens, budget=budget)
    tc.label(name)
    tc.nontrivial(gens >= 2)
    run_one(tc, name, p, pop, params, gens, budget=budget)


@suite.test(quick=500, thorough=5000, cpu=60, rule="reduced precision: every evaluated and final point is representable")
def reduced_precision(tc):
    name = tc.pick(D.NAMES)
    p = D.gen_problem(tc, 1, 4)
    n, gens = D.extent(tc, name, tc.small(2, 12), tc.int(1, 4))
    bits = tc.pick([4, 1, 8, 16, 52, 64])
    trim = D.trim_bits(bits)
    pop = D.gen_population(tc, p.dims, n, p.optima)
    params = D.gen_params(tc, name, p)
    budget = gen_budget(tc, n, gens)
    tc.seed()
    tc.note(algorithm=name, problem=p.desc, population=pop, params=params, generations=gens, bits=bits, budget=budget)
    tc.label(name)
    tc.nontrivial(gens >= 2)
    run_one(tc, name, p, pop, params, gens, {"trim_function": trim}, trim, budget=budget)
    for v in p.log:
        tc.check(list(v) == trim(v), lambda: "evaluated %r, which is not representable with %d mantissa bits" % (v, bits))


@suite.test(quick=90, thorough=1500, rule="bundled problems through the platform's own configuration")
def bundled(tc):
    name = tc.pick(D.NAMES)
    prob = tc.pick(D.run_config.problems)
    n, gens = (24 if name == "SMSEMOA" else D.run_config.DEFAULT_POPULATION_SIZE, tc.int(1, 2)) if tc.chance(0.15) else (tc.int(4, 12), tc.int(1, 3))
    s = tc.seed()
    tc.note(algorithm=name, problem=prob, n=n, generations=gens, seed=s)
    tc.label(name)
    tc.nontrivial(gens >= 2)
    with D.quiet():
        fac, mod = D.factory.prepare(name, prob)
        rp = D.real_problem(prob)
        pop = D.gen_population(tc, rp.dims, n)
        start = copy.deepcopy(pop)
        d = fac(population=pop, fitnesses=rp.fitnesses)
        for _ in range(gens):
            d.next_step()
            check_population(tc, "the population", d.population, rp.dims)
        fin = d.finalized_population()
    check_population(tc, "the final population", fin, rp.dims)
    seen = rp.evaluated()
    tc.check(all(tuple(x) in seen for x in fin), "a final point was never evaluated")
    tc.check(not rp.bad, lambda: "objectives evaluated outside the box: %r" % (rp.bad[:1],))
    tc.check(pop == start, "the caller's initial population was modified")
    if name in KEEPS_SIZE:
        tc.check(len(fin) == n, lambda: "final population of %d from an initial population of %d" % (len(fin), n))


@suite.test(quick=160, thorough=3000, cpu=60, rule="populations that already sit on the common optima of all objectives: every generation still completes")
def converged(tc):
    name = tc.weighted([(1, n) for n in D.NAMES] + [(4, "NSLS")])
    dims = [tc.pick([(-5.0, 5.0), (-2.0, 2.0), (0.0, 1.0)]) for _ in range(tc.small(1, 3))]
    p = D.well_problem(dims, 2)
    n, gens = D.extent(tc, name, tc.small(2, 5), tc.int(1, 6))
    pop = [list(tc.pick(p.optima)) for _ in range(n)]
    params = D.gen_params(tc, name, p)
    tc.seed()
    tc.note(algorithm=name, problem=p.desc, population=pop, params=params, generations=gens)
    tc.label(name)
    tc.nontrivial(len(set(map(tuple, pop))) > 1)
    run_one(tc, name, p, pop, params, gens)


@suite.test(quick=350, thorough=6000, cpu=60, rule="boxes whose width is not representable (as those of UF11 and UF12), populations on the bounds")
def decimal_boxes(tc):
    name = tc.weighted([(1, n) for n in D.NAMES] + [(4, "JGBL")])
    dims = []
    for _ in range(tc.small(2, 5)):
        if tc.chance(0.3):
            dims.append(tc.pick([(-1.773, 1.403), (-0.885, 2.267), (-2.235, 0.842), (0.0, 0.7), (-0.3, 0.1)]))
        else:
            a = -tc.int(0, 3000) / 1000.0
            dims.append((a, tc.int(1, 3000) / 1000.0))
    p = D.gen_problem(tc, dims=dims)
    n, gens = D.extent(tc, name, tc.small(2, 14), tc.int(1, 5))
    pop = D.gen_population(tc, dims, n, p.optima)
    for x in pop:
        for i, (a, b) in enumerate(dims):
            if tc.chance(0.3):
                x[i] = tc.pick([b, a])
    params = D.gen_params(tc, name, p)
    tc.seed()
    tc.note(algorithm=name, problem=p.desc, population=pop, params=params, generations=gens)
    tc.label(name)
    tc.nontrivial(gens >= 2)
    run_one(tc, name, p, pop, params, gens)
