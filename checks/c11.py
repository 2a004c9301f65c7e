import math

from pbt.engine import Suite
from thespian.actors import ActorSystem
from checks.common import *
from checks import drivers as D
from checks import hgs as H
from checks.network import Network
from checks.fakes import install_problem
from algorithms.HGS.HGS import HGS
from algorithms.HGS.distributed.DistributedHGS import DistributedHGS

suite = Suite(
    "C11",
    "configurations of the actor-based hierarchical strategy (levels 0-2, limits, thresholds, distances, lengths, factors) with scripted "
    "demes over 1-12 cycles (rarely 30) on the in-process actor system and on one that delivers messages in generated orders, and real optimizers as demes; non-trivial = at least one deme was sprouted",
    ["relative gains and distances within 1e-9 of a threshold are not judged", "three levels, as the code supports",
     "message orders between processes are simulated in one process (copied messages, order kept between two actors only)", "the cost of a cycle is that of its most expensive deme, as demes run in parallel"],
)


def actors(tc):
    """One in-process actor system per case; its actors go away with it."""
    system = ActorSystem("simpleSystemBase")
    tc.defer(system.shutdown)


@suite.test(quick=4000, thorough=50000, rule="the tree evolves as the reference model says", cpu=300)
def tree_model(tc):
    s = H.Setting(tc)
    tc.note(**s.describe())
    tc.seed()
    actors(tc)
    with D.quiet():
        direct = tc.bool()
        algo = DistributedHGS(**s.kwargs()) if direct else HGS(hgs_type="distributed", **s.kwargs())
        tc.check(len(s.demes) == 1, "%d demes at the start" % len(s.demes))
        m = H.Model(s, s.demes[0])
        m.check_args(m.root)
        root = multiset(tuple(v) for v in m.root.deme.initial)
        given = multiset(tuple(p) for p in s.population)
        tc.check(all(root[v] <= given.get(v, 0) for v in root), "the root deme is no sample of the initial population")
        cycles = tc.size(1, 12, 40)
        for _ in range(cycles):
            known = len(s.demes)
            message = algo.next_step()
            m.cycle(s.demes[known:], True, False, max)
            tc.check(close(algo.cost, m.cost) and close(message.cost, m.cost),
                     lambda: "cost %r, the cycles' most expensive demes add up to %r" % (algo.cost, m.cost))
            if tc.bool():
                result(tc, algo, m)
            if len(s.demes) > 60 and not tc.chance(0.2):
                break
            if len(s.demes) > 120:
                break
        result(tc, algo, m)
        precision(tc, m)
        algo.shutdown()
    tc.label(*m.events)
    tc.nontrivial("sprouted" in m.events)


@suite.test(quick=1500, thorough=25000, rule="whatever the order in which messages of different actors arrive, the tree obeys the rules", cpu=300)
def any_message_order(tc):
    s = H.Setting(tc)
    eager = tc.bool()
    if eager:
        s.multipliers = [0.0, 0.0, 0.0]
    else:
        s.max_sprouts = 1000
    tc.note(**s.describe())
    tc.seed()
    net = Network(tc)
    tc.note(order=net.order)
    with D.quiet():
        algo = DistributedHGS(**s.kwargs())
        tc.check(len(s.demes) == 1, "%d demes at the start" % len(s.demes))
        m = (H.Model if eager else H.LazyModel)(s, s.demes[0])
        m.check_args(m.root)
        for _ in range(tc.size(1, 10, 30)):
            known = len(s.demes)
            message = algo.next_step()
            net.settle()
            m.cycle(s.demes[known:], "unordered", False, max)
            tc.check(close(algo.cost, m.cost) and close(message.cost, m.cost),
                     lambda: "cost %r, the cycles' most expensive demes add up to %r" % (algo.cost, m.cost))
            if tc.bool():
                result(tc, algo, m)
            if len(s.demes) > 40:
                break
        result(tc, algo, m)
        algo.shutdown()
    tc.check(not net.stuck, "an answer never came")
    tc.label(net.order, *m.events)
    if net.mail.overtaken:
        tc.label("overtaken")
    tc.nontrivial("sprouted" in m.events and net.mail.overtaken > 0)


def result(tc, algo, m):
    got = multiset(tuple(v) for v in algo.finalized_population())
    tc.check(got == m.result(), "the result is not the union of the demes' results")
    tc.check(got == multiset(tuple(v) for v in algo.finalized_population()), "asking twice gives different results")


def precision(tc, m):
    for n in m.nodes:
        x = [0.7431827364, 13.123456789, 0.1]
        want = D.trim_bits(m.s.bits[n.level])(x)
        got = list(n.deme.args["trim_function"](list(x)))
        tc.check(got == want, lambda: "level %d (%d bits) represents %r as %r, want %r" % (n.level, m.s.bits[n.level], x, got, want))


@suite.test(quick=60, thorough=800, rule="real optimizers as demes: results evaluated, inside the box, costs counted", cpu=300)
def real_demes(tc):
    name = tc.pick(D.NAMES)
    dims = D.nice_dims(tc, 2, 3)
    problem = D.gen_problem(tc, dims=dims, obj=(2, 2), nonneg=name in ("SPEA2",))
    install_problem(tc, "FKH", dims, problem.fitnesses, [[0.0, 0.0]])
    tc.seed()
    actors(tc)
    with D.quiet():
        made, _ = D.factory.prepare("DHGS+" + name, "FKH")
        sizes = (tc.pick([12, 16]), tc.pick([6, 8]), tc.pick([4, 6]))
        modifiers = tuple(tc.pick([1.0, 0.5, 2.0]) for _ in range(3))
        lens = [tc.int(1, 2) for _ in range(3)]
        pop = [gen_point(tc, dims) for _ in range(sizes[0])]
        demes = []
        inner = made.keywords["driver"]
        etas = list(made.keywords["mutation_etas"])

        def create(**kw):
            d = inner(**kw)
            demes.append((etas.index(kw["mutation_eta"]), d, [list(v) for v in kw["population"]]))
            return d

        algo = made(population=[list(p) for p in pop], population_sizes=sizes, metaepoch_len=lens,
                    min_progress_ratio=[tc.pick([5.0, 0.5])] * 3, cost_modifiers=modifiers,
                    reference_point=(300.0, 300.0), driver=create)
        tc.note(algorithm=name, sizes=sizes, modifiers=modifiers, problem=problem.desc)
        cost = 0.0
        for _ in range(tc.int(2, 6)):
            before = [(l, d, d.cost if d.step_no else 0, d.step_no) for l, d, _ in demes]
            algo.step()
            made_work = [modifiers[l] * (d.cost - c) for l, d, c, k in before if d.step_no > k]
            cost += max(made_work)
            tc.check(close(algo.cost, cost), lambda: "%s: cost %r, the most expensive demes add up to %r" % (name, algo.cost, cost))
            tc.check(all(d.step_no - k in (0, lens[l]) for l, d, _, k in before), "%s: a deme ran a wrong number of generations" % name)
            final = [tuple(map(float, v)) for v in algo.finalized_population()]
            seen = problem.evaluated()
            tc.check(final and all(v in seen for v in final), lambda: "%s: the result holds solutions that were never evaluated" % name)
            tc.check(all(in_bounds(v, dims) for v in final), lambda: "%s: a result outside the box" % name)
        algo.shutdown()
    tc.label(name)
    tc.check([l for l, _, _ in demes].count(0) == 1, "more than one root deme")
    for l, d, p in demes:
        tc.check(len(p) == sizes[l], lambda: "%s: a deme of level %d starts with %d individuals" % (name, l, len(p)))
    tc.nontrivial(len(demes) > 1)
    tc.check(not problem.bad, lambda: "%s evaluated outside the box: %r" % (name, problem.bad[:1]))
