import math
import random

from pbt.engine import Suite
from checks.common import *
from checks import drivers as D
from checks import hgs as H
from checks.fakes import install_problem
from algorithms.HGS.HGS import HGS
from algorithms.HGS.classic.ClassicHGS import ClassicHGS

suite = Suite(
    "C10",
    "configurations of the sequential hierarchical strategy (levels 0-2, limits, thresholds, distances, lengths, factors) with scripted "
    "demes over 1-14 cycles, and real optimizers as demes; non-trivial = at least one deme was sprouted",
    ["relative gains and distances within 1e-9 of a threshold are not judged", "three levels, as the code supports"],
)


@suite.test(quick=3000, thorough=40000, rule="the tree evolves as the reference model says", cpu=200)
def tree_model(tc):
    s = H.Setting(tc)
    tc.note(**s.describe())
    tc.seed()
    with D.quiet():
        direct = tc.bool()
        algo = ClassicHGS(**s.kwargs()) if direct else HGS(hgs_type="classic", **s.kwargs())
        tc.check(len(s.demes) == 1, "%d demes at the start" % len(s.demes))
        m = H.Model(s, s.demes[0])
        m.check_args(m.root)
        root = multiset(tuple(v) for v in m.root.deme.initial)
        tc.check(all(root[v] <= multiset(tuple(p) for p in s.population).get(v, 0) for v in root), "the root deme is no sample of the initial population")
        for _ in range(tc.size(1, 14, 50)):
            known = len(s.demes)
            message = algo.next_step()
            m.cycle(s.demes[known:], False, True, sum)
            tc.check(close(algo.cost, m.cost) and close(message.cost, m.cost), lambda: "cost %r, the demes' weighted evaluations are %r" % (algo.cost, m.cost))
            got = multiset(tuple(v) for v in algo.finalized_population())
            tc.check(got == m.result(), "the result is not the union of the demes' results")
            tc.check(got == multiset(tuple(v) for v in algo.finalized_population()), "asking twice gives different results")
            if len(s.demes) > 60:
                break
    archives(tc, m)
    tc.label(*m.events)
    tc.nontrivial("sprouted" in m.events)


def archives(tc, m):
    """Known objective values are shared inside a level and never between levels; precision is the level's."""
    s = m.s
    seen = {}
    for n in m.nodes:
        a = n.deme.args.get("fitness_archive")
        if a is not None:
            for l, b in seen.items():
                tc.check((a is b) == (l == n.level), lambda: "demes of levels %d and %d %s known objective values" % (l, n.level, "share" if a is b else "do not share"))
            seen.setdefault(n.level, a)
        f = n.deme.args["trim_function"]
        x = [0.7431827364, 13.123456789, 0.1]
        want = reference_trim(x, s.bits[n.level])
        got = list(f(list(x)))
        tc.check(got == want, lambda: "level %d (%d bits) represents %r as %r, want %r" % (n.level, s.bits[n.level], x, got, want))


def reference_trim(x, bits):
    return D.trim_bits(bits)(x)


@suite.test(quick=150, thorough=2000, rule="objective values carry the configured relative error, whatever their sign", cpu=200)
def fitness_errors(tc):
    s = H.Setting(tc)
    err = [tc.pick([0.0, 0.1, 0.6, 0.3]) for _ in range(3)]
    kw = s.kwargs()
    kw["fitness_errors"] = tuple(err)
    value = tc.pick([4.0, -4.0, 0.5, -19.0, 0.0])
    kw["fitnesses"] = [lambda x: value, lambda x: 1.0]
    tc.seed()
    tc.note(errors=err, value=value)
    tc.nontrivial(value != 0.0 and err[0] > 0.0)
    ClassicHGS(**kw)
    f = s.demes[0].given_fitnesses[0]
    n = 400
    vs = [f([0.0, 0.0, 0.0]) for _ in range(n)]
    if err[0] == 0.0:
        tc.check(vs == [value] * n, lambda: "objective %r is seen as %r without any error configured" % (value, vs[0]))
        return
    sigma = err[0] * abs(value) / 3.0
    mean = sum(vs) / n
    tc.check(abs(mean - value) <= 6.5 * sigma / math.sqrt(n) + 1e-12, lambda: "objective %r is seen as %r on average, sigma %r" % (value, mean, sigma))
    if sigma:
        q = sum((v - value) ** 2 for v in vs) / sigma ** 2
        tc.check(abs(q - n) <= 6.5 * math.sqrt(2.0 * n) * 1.3, lambda: "the error's deviation is %r, configured %r" % (math.sqrt(q / n) * sigma, sigma))


@suite.test(quick=60, thorough=800, rule="sprout populations are mutations of the delegate with the next level's settings", cpu=300)
def real_demes(tc):
    name = tc.pick(D.NAMES)
    dims = D.nice_dims(tc, 2, 3)
    problem = D.gen_problem(tc, dims=dims, obj=(2, 2), nonneg=name in ("SPEA2",))
    install_problem(tc, "FKH", dims, problem.fitnesses, [[0.0, 0.0]])
    tc.seed()
    with D.quiet():
        made, _ = D.factory.prepare("HGS+" + name, "FKH")
        sizes = (tc.pick([12, 16]), tc.pick([6, 8]), tc.pick([4, 6]))
        rates = tuple(tc.pick([0.05, 1.0]) for _ in range(3))
        modifiers = tuple(tc.pick([1.0, 0.5]) for _ in range(3))
        pop = [gen_point(tc, dims) for _ in range(sizes[0])]
        demes = []
        inner = made.keywords["driver"]
        etas = made.keywords["mutation_etas"]

        def create(**kw):
            d = inner(**kw)
            demes.append((list(etas).index(kw["mutation_eta"]), d, [list(v) for v in kw["population"]]))
            return d

        algo = made(population=[list(p) for p in pop], population_sizes=sizes, metaepoch_len=[tc.int(1, 2)] * 3,
                    min_progress_ratio=[tc.pick([5.0, 0.5])] * 3, cost_modifiers=modifiers, mutation_rates=rates,
                    reference_point=(300.0, 300.0), driver=create)
        tc.note(algorithm=name, sizes=sizes, rates=rates, modifiers=modifiers, problem=problem.desc)
        cost = 0
        for _ in range(tc.int(2, 6)):
            algo.step()
            tc.check(algo.cost >= cost, "the cost fell from %r to %r" % (cost, algo.cost))
            cost = algo.cost
            final = [tuple(map(float, v)) for v in algo.finalized_population()]
            seen = problem.evaluated()
            tc.check(final and all(v in seen for v in final), lambda: "%s: the result holds solutions that were never evaluated" % name)
            tc.check(all(in_bounds(v, dims) for v in final), lambda: "%s: a result outside the box" % name)
            want = sum(modifiers[l] * d.cost for l, d, _ in demes if d.step_no)
            tc.check(close(algo.cost, want), lambda: "%s: cost %r, weighted evaluations %r" % (name, algo.cost, want))
    tc.label(name)
    tc.check([l for l, _, _ in demes].count(0) == 1, "more than one root deme")
    for l, d, p in demes:
        tc.check(len(p) == sizes[l], lambda: "%s: a deme of level %d starts with %d individuals" % (name, l, len(p)))
        if rates[l] == 1.0 and l > 0 and len(p) > 2:
            tc.check(any(v != p[0] for v in p[1:]), "%s: a sprout consists of copies of its delegate although its mutation rate is 1" % name)
    tc.nontrivial(len(demes) > 1)
    tc.check(not problem.bad, lambda: "%s evaluated outside the box: %r" % (name, problem.bad[:1]))
