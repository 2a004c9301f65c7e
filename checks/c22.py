import math

from pbt.engine import Suite
from checks.common import *
from checks import drivers as D
from checks.fakes import install_problem
from algorithms.base.driver import StepsRun

suite = Suite(
    "C22",
    "each optimizer prepared as a deme of either hierarchical strategy on generated problems, run for some epochs; what it "
    "nominates is compared with the non-dominated part of what it holds, by definition; non-trivial = it holds a solution "
    "that must not be nominated",
    ["objective functions are pure", "near-ties within 1e-9 of penalised distances may be broken either way"],
)

HOSTS = ["HGS", "DHGS"]
BY_LAYER = ["NSGAII", "JGBL", "NSLS", "IBEA", "SMSEMOA"]


def prepared(tc, name, host, p, pop, params, **extra):
    """The optimizer as `host` would build it for a deme, with the adapter `host` would give it."""
    install_problem(tc, "FKD", p.dims, p.fitnesses, [[0.0] * len(p.fns)])
    made, _ = D.factory.prepare(host + "+" + name, "FKD")
    adapter = made.keywords["driver_message_adapter_factory"]
    kw = dict(params)
    kw.update(extra)
    return made.keywords["driver"](
        population=[list(x) for x in pop], dims=p.dims, fitnesses=p.fitnesses, message_adapter_factory=adapter, **kw)


def epoch(d, gens):
    got = []
    StepsRun(gens).create_job(d).subscribe(on_next=got.append)
    return got


@suite.test(quick=700, thorough=15000, cpu=60, rule="delegates are the non-dominated part of what the deme holds")
def nominates_the_best(tc):
    name = tc.pick(D.NAMES)
    host = tc.pick(HOSTS)
    p = D.gen_problem(tc, 1, 3, obj=(2, 3))
    n, _ = D.extent(tc, name, tc.int(4, 14), 1)
    pop = D.gen_population(tc, p.dims, n, p.optima)
    params = D.gen_params(tc, name, p)
    bits = tc.pick([64, 64, 4])
    trim = D.trim_bits(bits)
    archive = tc.chance(0.3)
    epochs = [tc.int(1, 3) for _ in range(tc.int(1, 3))]
    tc.seed()
    tc.note(algorithm=name, host=host, problem=p.desc, population=pop, params=params, epochs=epochs, bits=bits, archive=archive)
    tc.label(name)
    from algorithms.HGS.tools import ResultArchive

    extra = {"trim_function": trim}
    if archive:
        extra["fitness_archive"] = ResultArchive()
    with D.quiet():
        d = prepared(tc, name, host, p, pop, params, **extra)
        total = 0
        for gens in epochs:
            total += gens
            messages = epoch(d, gens)
            held = [tuple(x) for x in d.population]
            tc.check(messages and messages[-1].cost == d.cost, lambda: "%s: the epoch reported cost %r, the deme's cost is %r" % (name, messages and messages[-1].cost, d.cost))
            tc.check(multiset(map(tuple, messages[-1].population)) == multiset(held),
                     lambda: "%s reported the population %r, it holds %r" % (name, messages[-1].population, held))
            tc.check(messages[-1].step_no == total - 1, lambda: "%s: step number %r after %d generations" % (name, messages[-1].step_no, total))
            final = [tuple(x) for x in d.finalized_population()]
            before, cost = multiset(map(tuple, d.population)), d.cost
            chosen = [tuple(x) for x in d.message_adapter.nominate_delegates()]
            tc.check(d.cost == cost, lambda: "%s: nominating changed the cost from %r to %r" % (name, cost, d.cost))
            tc.check(multiset(map(tuple, d.population)) == before, lambda: "%s: nominating changed the deme's population" % name)
            tc.check(multiset(map(tuple, d.finalized_population())) == multiset(final), lambda: "%s: nominating changed the deme's result" % name)
            tc.check(chosen, lambda: "%s: a deme holding %d individuals nominates nobody" % (name, len(final)))
            known = p.evaluated()
            for x in chosen:
                tc.check(x in known or (archive and x in extra["fitness_archive"]), lambda: "%s: nominated %r, which was never evaluated" % (name, x))
                tc.check(in_bounds(x, p.dims), lambda: "%s: nominated %r outside the box" % (name, x))
            val = {x: p.value(x) for x in final + chosen + held}
            if name in BY_LAYER:
                everybody = set(final) | set(chosen)
                for x in chosen:
                    worse = next((y for y in everybody if dom(val[y], val[x])), None)
                    tc.check(worse is None, lambda: "%s: nominated %r although %r dominates it" % (name, x, worse))
                best = [x for x in final if not any(dom(val[y], val[x]) for y in everybody)]
                left = [x for x in best if x not in chosen]
                tc.check(not left, lambda: "%s: %r is among the best of the deme and was not nominated" % (name, left[0]))
                tc.nontrivial(len(set(best)) < len(set(final)))
            elif name == "SPEA2":
                tc.check(set(chosen) == set(final), lambda: "%s: nominated %r, its archive is %r" % (name, chosen, final))
                tc.nontrivial(set(held) != set(final))
            elif name == "OMOPSO":
                tc.check(multiset(chosen) == multiset(held), lambda: "%s: nominated %r, its swarm is %r" % (name, chosen, held))
                tc.nontrivial(set(held) != set(final))
            else:
                tc.nontrivial(len(set(chosen)) < len(known))


def niches(vals, refs, ideal):
    """(niche, penalised distance) of every solution, None when a solution is as close to two reference directions."""
    nadir = [max(v[i] for v in vals.values()) for i in range(len(ideal))]
    out = {}
    for x, v in vals.items():
        z = [(a - lo) / (hi - lo + 2.220446049250313e-16) for a, lo, hi in zip(v, ideal, nadir)]
        per = []
        for i, r in enumerate(refs):
            ln = math.sqrt(sum(q * q for q in r))
            t = sum(a * q for a, q in zip(z, r)) / ln
            per.append((math.sqrt(sum((a - t / ln * q) ** 2 for a, q in zip(z, r))), i, t))
        per.sort()
        if len(per) > 1 and per[1][0] - per[0][0] < 1e-9:
            return None
        out[x] = (per[0][1], per[0][2] + 5 * per[0][0])
    return out


@suite.test(quick=400, thorough=6000, cpu=60, rule="a deme with reference points nominates the best of every niche")
def best_of_each_niche(tc):
    host = tc.pick(HOSTS)
    p = D.gen_problem(tc, 1, 3, obj=(2, 3))
    n, _ = D.extent(tc, "NSGAIII", tc.int(4, 12), 1)
    pop = D.gen_population(tc, p.dims, n, p.optima)
    params = D.gen_params(tc, "NSGAIII", p)
    params["crossover_rate"] = 1.0
    gens = tc.int(1, 4)
    tc.seed()
    tc.note(host=host, problem=p.desc, population=pop, params=params, generations=gens)
    with D.quiet():
        d = prepared(tc, "NSGAIII", host, p, pop, params)
        refs = getattr(d, "reference_points", None)
        for _ in range(gens):
            before = [tuple(x) for x in d.population]
            k = len(p.log)
            epoch(d, 1)
            d.finalized_population()
            chosen = [tuple(x) for x in d.message_adapter.nominate_delegates()]
            cand = set(before + p.log[k:])
            tc.check(set(chosen) <= cand, lambda: "nominated %r, not among parents and offspring" % (set(chosen) - cand,))
            tc.check(chosen, "nobody nominated")
            if refs is None:
                tc.label("gone: reference_points")
                continue
            vals = {x: p.value(x) for x in cand}
            ideal = [min(p.value(x)[i] for x in p.log) for i in range(len(p.fns))]
            score = niches(vals, refs, ideal)
            if score is None:
                tc.label("ambiguous")
                continue
            best = {}
            for niche, s in score.values():
                best[niche] = min(s, best.get(niche, s))
            for x in chosen:
                niche, s = score[x]
                tc.check(s <= best[niche] + 1e-9, lambda: "nominated %r, penalised distance %r; its niche has %r" % (x, s, best[niche]))
            for niche in best:
                tc.check(any(score[x][0] == niche for x in chosen), lambda: "no delegate of niche %d" % niche)
            tc.nontrivial(len(best) < len(cand))
