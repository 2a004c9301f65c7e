from pbt.engine import Suite
from checks.common import *
from checks import drivers as D
from algorithms.HGS.tools import ResultArchive
from algorithms.BOGO.BOGO import BOGO

suite = Suite(
    "C06",
    "each optimizer on generated problems with every objective call counted, with and without a shared archive of "
    "known results, 1-6 generations, population queries in between; meta-algorithms in C09-C11; non-trivial = at "
    "least one generation after the first evaluated something",
    ["IBEA re-evaluates its whole population for scaling; its cost counts each individual once"],
)


def offspring_per_generation(name, n, params):
    return int(params["mating_population_size"] * n)


@suite.test(quick=1000, thorough=15000, cpu=30, rule="reported cost equals the number of evaluated individuals")
def counts_evaluations(tc):
    name = tc.pick(D.NAMES)
    p = D.gen_problem(tc, 1, 4)
    n, gens = D.extent(tc, name, tc.small(2, 16), tc.int(1, 6))
    pop = D.gen_population(tc, p.dims, n, p.optima)
    params = D.gen_params(tc, name, p)
    query = [tc.chance(0.5) for _ in range(gens)]
    tc.seed()
    tc.note(algorithm=name, problem=p.desc, population=pop, params=params, generations=gens, queries=query)
    tc.label(name)
    with D.quiet():
        d = D.build(name, p, pop, params)
        last = d.cost
        for g in range(gens):
            msg = d.next_step()
            tc.check(msg.cost == d.cost, lambda: "progress message reports cost %r, the optimizer %r" % (msg.cost, d.cost))
            tc.check(msg.step_no == g, lambda: "progress message %d carries step number %r" % (g, msg.step_no))
            tc.check(d.cost >= last, lambda: "cost fell from %r to %r" % (last, d.cost))
            if g:
                tc.nontrivial(d.cost > last)
            last = d.cost
            if query[g]:
                d.finalized_population()
                d.population
                tc.check(d.cost == last, lambda: "asking for the population raised the cost from %r to %r" % (last, d.cost))
            if name == "IBEA":
                want = n + (g + 1) * offspring_per_generation(name, n, params)
                tc.check(d.cost == want, lambda: "cost %r after %d generations, %d individuals were created" % (d.cost, g + 1, want))
            else:
                tc.check(len(set(p.calls)) == 1, lambda: "objectives called %r times" % (p.calls,))
                tc.check(d.cost == p.calls[0], lambda: "cost %r after %d generations, %d individuals were evaluated" % (d.cost, g + 1, p.calls[0]))


@suite.test(quick=400, thorough=6000, cpu=30, rule="with a shared archive of known results only unknown individuals cost anything")
def archive_hits_are_free(tc):
    name = tc.pick([n for n in D.NAMES if n != "IBEA"])
    p = D.gen_problem(tc, 1, 3)
    n, gens = D.extent(tc, name, tc.small(2, 12), tc.int(1, 4))
    pop = D.gen_population(tc, p.dims, n, p.optima)
    params = D.gen_params(tc, name, p)
    known = tc.subset(range(n), 0.5)
    bits = tc.pick([2, 64])
    trim = D.trim_bits(bits)
    tc.seed()
    tc.note(algorithm=name, problem=p.desc, population=pop, params=params, generations=gens, known=known, bits=bits)
    tc.label(name)
    arch = ResultArchive()
    for i in known:
        arch[trim(pop[i])] = list(p.value(trim(pop[i])))
    tc.nontrivial(bool(known))
    with D.quiet():
        d = D.build(name, p, pop, params, fitness_archive=arch, trim_function=trim)
        for g in range(gens):
            d.next_step()
            tc.check(len(set(p.calls)) == 1, lambda: "objectives called %r times" % (p.calls,))
            tc.check(d.cost == p.calls[0], lambda: "cost %r, %d individuals were evaluated (%d known beforehand)" % (d.cost, p.calls[0], len(known)))
        fin = d.finalized_population()
    for i in known:
        tc.check(tuple(trim(pop[i])) not in p.evaluated(), "an individual whose result was already known was evaluated again")
    for k in arch:
        tc.check(tuple(arch[k]) == p.value(k), lambda: "the shared archive holds a wrong result for %r" % (k,))
    tc.check(len(fin) > 0, "empty final population")
    if name in ("NSGAII", "JGBL", "NSGAIII", "NSLS"):
        tc.check(len(p.log) == len(set(p.log)), "an archived individual was evaluated twice")


@suite.test(quick=200, thorough=3000, rule="the random-search baseline: one evaluation per step, archive = non-dominated part of everything seen")
def random_search(tc):
    p = D.gen_problem(tc, 1, 3)
    n = tc.size(1, 8, 60)
    pop = [gen_point(tc, p.dims) for _ in range(n)]
    steps = tc.size(0, 15, 80)
    tc.seed()
    tc.note(problem=p.desc, population=pop, steps=steps)
    tc.nontrivial(steps > 2)
    with D.quiet():
        d = BOGO(pop, p.dims, p.fitnesses, [0.1] * len(p.dims), [0.1] * len(p.dims))
        for _ in range(steps):
            d.next_step()
        fin = d.finalized_population()
    tc.check(d.cost == p.calls[0] == n + steps, lambda: "cost %r, evaluations %r" % (d.cost, p.calls))
    vals = {v: p.value(v) for v in p.log}
    want = multiset([v for v in p.log if not any(dom(vals[w], vals[v]) for w in p.log)])
    tc.check(multiset(fin) == want, lambda: "archive %r, non-dominated part of everything evaluated %r" % (fin, want))
    tc.check(all(in_bounds(v, p.dims) for v in p.log), "sampled outside the box")
