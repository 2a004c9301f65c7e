import itertools
import math
import random

from pbt.engine import Suite
from checks.common import *
from checks import drivers as D
from checks import fakes
from algorithms.base.driver import Driver, StepsRun
from algorithms.base.model import PopulationMessageAdapter
from algorithms.IMGA.IMGA import IMGA
from algorithms.IMGA.topology import Topology, TorusTopology

suite = Suite(
    "C09",
    "island counts 1-9, migrants 0-3, epochs 1-3, torus and generated symmetric topologies, scripted islands with unique, repeated or "
    "tied individuals over 1-5 cycles, and the real optimizers as islands; non-trivial = at least one individual changed islands",
    ["an island holds at least as many individuals as it sends away in one migration",
     "topologies have as many incoming as outgoing edges at every island (others are refused by the code)"],
)


class Ind:
    """An individual; the identity survives moves between islands."""

    def __init__(self, v, home):
        self.v, self.home = v, home


class Island(Driver):
    def __init__(self, population, dims, fitnesses, message_adapter_factory, log, evolve, step_cost, **kw):
        super().__init__(message_adapter_factory=message_adapter_factory)
        self.no = len(log)
        log.append(self)
        self.args = dict(kw, dims=dims, fitnesses=fitnesses)
        self.initial = [tuple(x) for x in population]
        self.individuals = [Ind(list(x), self.no) for x in population]
        self.evolve, self.step_cost = evolve, step_cost
        self.cost = 1 + self.no
        self.steps_done = 0
        self.events = []
        self.budgets = []

    @property
    def population(self):
        return [x.v for x in self.individuals]

    def finalized_population(self):
        return [x.v for x in self.individuals]

    def step(self):
        self.events.append(("step", len(self.individuals)))
        self.budgets.append(self.max_budget)
        self.steps_done += 1
        self.cost += self.step_cost(self.no, self.steps_done)
        self.individuals = [Ind(list(v), self.no) for v in self.evolve(self.no, self.steps_done, [x.v for x in self.individuals])]


class Adapter(PopulationMessageAdapter):
    def get_population(self):
        return self.driver.population

    def emigrate(self, migrants):
        out = []
        for m in migrants:
            for x in self.driver.individuals:
                if x.v == m:
                    self.driver.individuals.remove(x)
                    out.append(x)
                    break
        self.driver.events.append(("out", [list(m) for m in migrants], out))
        return out

    def immigrate(self, migrants):
        migrants = list(migrants)
        self.driver.events.append(("in", migrants))
        self.driver.individuals.extend(migrants)


class Graph(Topology):
    def __init__(self, adjacency):
        self.adjacency = adjacency

    def create(self, size):
        return [set(a) for a in self.adjacency]


def gen_graph(tc, n):
    """Symmetric, or a union of directed cycles: as many incoming as outgoing edges everywhere."""
    adj = [set() for _ in range(n)]
    if tc.chance(0.7):
        for i in range(n):
            for j in range(i + 1, n):
                if tc.chance(0.4):
                    adj[i].add(j)
                    adj[j].add(i)
    elif n > 1:
        order = tc.shuffled(range(n))
        for a, b in zip(order, order[1:] + order[:1]):
            adj[a].add(b)
    return adj


def expected_torus(width, size):
    """Row rings and column rings of a grid whose last row may be shorter; no island is its own neighbour."""
    adj = [set() for _ in range(size)]
    rows = [list(range(s, min(size, s + width))) for s in range(0, size, width)]
    cols = [[i for i in range(size) if i % width == c] for c in range(min(width, size))]
    for ring in rows + cols:
        for a, b in zip(ring, ring[1:] + ring[:1]):
            adj[a].add(b)
            adj[b].add(a)
    return [a - {i} for i, a in enumerate(adj)]


@suite.test(quick=400, thorough=4000, rule="the torus joins the islands of each row and of each column in rings")
def torus(tc):
    width, size = tc.int(1, 7), tc.size(1, 40, 150)
    tc.note(width=width, size=size)
    tc.nontrivial(size > width and size % width != 0)
    t = TorusTopology(width).create(size)
    tc.check(len(t) == size and all(0 <= j < size for a in t for j in a), lambda: "invalid neighbours: %r" % t)
    for i in range(size):
        for j in t[i]:
            tc.check(i in t[j], lambda: "island %d sends to %d but not the reverse: %r" % (i, j, t))
    want = expected_torus(width, size)
    got = [set(a) - {i} for i, a in enumerate(t)]
    tc.check(got == want, lambda: "torus of width %d over %d islands is %r, expected %r" % (width, size, got, want))


def make(tc, n, per, adjacency, migrants, epoch, values="unique", **over):
    dims = [(0.0, 100.0), (0.0, 100.0)]
    fits = [lambda x: x[0], lambda x: x[1]]
    log = []
    counter = itertools.count(1)
    mode = values

    def fresh():
        if mode == "unique":
            return [float(next(counter)), tc.draw(9) * 1.0]
        return [float(tc.draw(2)), float(tc.draw(2))]

    extra = tc.draw(n - 1) if n > 1 else 0
    pop = [fresh() for _ in range(n * per + extra)]

    def evolve(no, k, vs):
        return [fresh() if tc.chance(0.6) else v for v in vs]

    kw = dict(mutation_eta=20.0, crossover_eta=30.0, mutation_rate=0.1, crossover_rate=0.9)
    algo = IMGA(population=pop, dims=dims, fitnesses=fits, islands_number=n, migrants_number=migrants, epoch_length=epoch,
                driver=lambda **k: Island(log=log, evolve=over.get("evolve", evolve), step_cost=lambda no, k: 3 + (no + k) % 4, **k),
                driver_message_adapter_factory=Adapter, topology=adjacency, **kw)
    return algo, log, pop, dims, fits, kw


@suite.test(quick=900, thorough=15000, rule="migration moves the configured migrants along the edges and conserves everything")
def migration_model(tc):
    n = tc.int(1, 9)
    torus_width = tc.int(1, 5) if tc.chance(0.4) else None
    topo = TorusTopology(torus_width) if torus_width else Graph(gen_graph(tc, n))
    adj = [set(a) for a in topo.create(n)]
    migrants = tc.pick([1, 2, 3, 0, 5, 12])
    per = max([1] + [migrants * len(a) for a in adj]) + tc.small(0, 3)
    epoch = tc.size(1, 3, 12)
    values = tc.weighted([(3, "unique"), (1, "tied")])
    tc.label(values)
    tc.seed()
    algo, islands, pop, dims, fits, kw = make(tc, n, per, topo, migrants, epoch, values)
    before = [list(p) for p in pop]
    tc.note(islands=n, migrants=migrants, topology=[sorted(a) for a in adj], population=len(pop), epoch=epoch)
    tc.check(len(islands) == n, "created %d islands instead of %d" % (len(islands), n))
    sizes = [len(i.individuals) for i in islands]
    tc.check(multiset(v for i in islands for v in i.initial) == multiset(tuple(p) for p in pop), "the islands do not partition the initial population")
    tc.check(max(sizes) - min(sizes) <= 1, lambda: "initial island sizes %r" % sizes)
    for i in islands:
        want = dict(kw, dims=dims, fitnesses=fits)
        tc.check({k: i.args.get(k) for k in want} == want, lambda: "an island got the parameters %r" % i.args)
    budget = tc.pick([None, 500])
    algo.max_budget = budget
    moved = False
    for cycle in range(tc.size(1, 5, 25)):
        for i in islands:
            i.events = []
            i.budgets = []
        costs = [i.cost for i in islands]
        message = algo.next_step()
        for i in islands:
            steps = [e for e in i.events if e[0] == "step"]
            tc.check(len(steps) == epoch, lambda: "island %d made %d steps in an epoch of %d" % (i.no, len(steps), epoch))
            tc.check(i.events[:len(steps)] == steps, "an island migrated before its epoch was over")
            if budget is not None:
                tc.check(all(b == budget for b in i.budgets), lambda: "island %d evolves without knowing the run's budget (%r)" % (i.no, i.budgets))
        tc.check(algo.cost == sum(i.cost for i in islands), lambda: "cost %r, the islands' costs add up to %r" % (algo.cost, sum(i.cost for i in islands)))
        tc.check(message.cost == algo.cost, "the progress message differs from the state")
        sent = {}
        for i in islands:
            outs = [e for e in i.events if e[0] == "out"]
            for e in outs:
                tc.check(len(e[2]) == len(e[1]), lambda: "island %d was asked to send %r, which it does not hold that often" % (i.no, e[1]))
                for x in e[2]:
                    sent[id(x)] = (i.no, x)
        received = {}
        for i in islands:
            for e in i.events:
                if e[0] == "in":
                    for x in e[1]:
                        tc.check(id(x) in sent and id(x) not in received, lambda: "island %d received an individual that nobody sent, or twice" % i.no)
                        received[id(x)] = i.no
        tc.check(set(received) == set(sent), lambda: "%d individuals left their islands, %d arrived" % (len(sent), len(received)))
        for a in range(n):
            for b in range(n):
                k = sum(1 for key, (src, _) in sent.items() if src == a and received[key] == b)
                want = migrants if b in adj[a] else 0
                tc.check(k == want, lambda: "%d individuals went from island %d to %d, expected %d" % (k, a, b, want))
        moved = moved or any(src != received[key] for key, (src, _) in sent.items())
        now = [len(i.individuals) for i in islands]
        tc.check(now == sizes, lambda: "island sizes changed from %r to %r" % (sizes, now))
        final = multiset(tuple(v) for i in islands for v in i.finalized_population())
        first = multiset(tuple(v) for v in algo.finalized_population())
        tc.check(first == final, "the final population is not the union of the islands' results")
        result = algo.finalized_population()
        a, b = [tuple(v) for v in result], [tuple(v) for v in result]
        tc.check(multiset(a) == final, "asking for the population twice gives different results")
        tc.check(a == b, "a population can be read only once")
    tc.check(pop == before, "the caller's initial population was modified")
    tc.nontrivial(moved)


@suite.test(quick=40, thorough=300, rule="migrants are drawn from the layers with weights 1, 1/2, 1/3 ..., uniformly inside a layer", cpu=200)
def refugee_choice(tc):
    layers = tc.int(2, 4)
    width = tc.int(1, 3)
    base = [[10.0 * l + k, 10.0 * l + (width - 1 - k)] for l in range(layers) for k in range(width)]
    pop = [list(v) for v in base]
    tc.seed()
    rounds = 300
    algo, islands, _, _, _, _ = make(tc, 2, layers * width, Graph([{1}, {0}]), 1, 1, evolve=lambda no, k, vs: base)
    tc.note(layers=layers, width=width, rounds=rounds)
    counts = {}
    with D.quiet():
        for _ in range(rounds):
            for i in islands:
                i.events = []
            algo.step()
            for i in islands:
                for e in i.events:
                    if e[0] == "out":
                        v = tuple(e[1][0])
                        counts[v] = counts.get(v, 0) + 1
    total = sum(counts.values())
    tc.nontrivial()
    ws = [1.0 / (l + 1) for l in range(layers)]
    for l in range(layers):
        for k in range(width):
            p = ws[l] / sum(ws) / width
            c = counts.get(tuple(pop[l * width + k]), 0)
            z = (c - total * p) / math.sqrt(total * p * (1 - p))
            tc.check(abs(z) < 6.5, lambda: "individual %r of layer %d chosen %d times of %d, expected %.1f" % (pop[l * width + k], l + 1, c, total, total * p))


@suite.test(quick=120, thorough=1500, rule="real optimizers as islands: sizes, evaluations and solutions are conserved", cpu=200)
def real_islands(tc):
    name = tc.pick(D.NAMES)
    dims = D.nice_dims(tc, 1, 4)
    problem = D.gen_problem(tc, dims=dims, nonneg=True)
    n = tc.int(2, 4)
    migrants = tc.int(1, 2)
    epoch = tc.int(1, 2)
    if tc.chance(0.15):
        n, migrants = 3, 5
    per = 2 * migrants + tc.int(2, 5)
    if per % 2:
        per += 1
    pop = D.gen_population(tc, dims, n * per)
    fakes.install_problem(tc, "FKI", dims, problem.fitnesses, [[0.0] * len(problem.fns)])
    tc.seed()
    with D.quiet():
        made, _ = D.factory.prepare("IMGA+" + name, "FKI")
        given = [list(p) for p in pop]
        algo = made(population=given, islands_number=n, migrants_number=migrants, epoch_length=epoch)
    tc.label(name)
    tc.note(algorithm=name, islands=n, migrants=migrants, epoch=epoch, problem=problem.desc, population=pop)
    traffic = []
    for no, island in enumerate(algo.islands):
        spy(island.driver, no, traffic)
    with D.quiet():
        for _ in range(tc.int(1, 3)):
            del traffic[:]
            algo.step()
            outs = [v for kind, no, vs in traffic if kind == "out" for v in vs]
            ins = [v for kind, no, vs in traffic if kind == "in" for v in vs]
            tc.check(multiset(outs) == multiset(ins), lambda: "%s: sent %r, arrived %r" % (name, outs, ins))
            tc.check(len(outs) == sum(len(algo.topology[i]) for i in range(n)) * migrants, lambda: "%s: %d migrants" % (name, len(outs)))
            for kind, no, (size0, size1, pop0, pop1, vs) in [(k, no, d) for k, no, d in traffic if k == "delta"]:
                tc.check(abs(size0 - size1) == len(vs), lambda: "%s: moving %d individuals changed the island from %d to %d" % (name, len(vs), size0, size1))
                big, small = (pop0, pop1) if size0 > size1 else (pop1, pop0)
                tc.check(multiset(big) == multiset(list(small) + list(vs)), lambda: "%s: the island does not differ by the migrants" % name)
            evaluated = problem.evaluated()
            final = [tuple(v) for v in algo.finalized_population()]
            tc.check(len(final) > 0 and all(v in evaluated for v in final), lambda: "%s: a final solution was never evaluated" % name)
            tc.check(multiset(final) == multiset(tuple(v) for i in algo.islands for v in i.driver.finalized_population()), "%s: the result is not the union of the islands' results" % name)
            tc.check(algo.cost == sum(i.driver.cost for i in algo.islands), "%s: the cost is not the sum of the islands' costs" % name)
    tc.check(not problem.bad, "evaluated outside the box: %r" % problem.bad[:1])
    tc.check(given == pop, "%s as an island modified the initial population" % name)
    tc.nontrivial()


def spy(driver, no, traffic):
    adapter = driver.message_adapter
    out, inn = adapter.emigrate, adapter.immigrate

    def pop():
        return [tuple(v) for v in driver.population]

    def emigrate(migrants):
        before = pop()
        migrants = [list(m) for m in migrants]
        r = out(migrants)
        vs = [tuple(m) for m in migrants]
        traffic.append(("out", no, vs))
        traffic.append(("delta", no, (len(before), len(pop()), before, pop(), vs)))
        return r

    def immigrate(migrants):
        before = pop()
        r = inn(migrants)
        after = pop()
        came = multiset(after)
        vs = []
        for v in before:
            came[v] = came.get(v, 0) - 1
        for v, k in came.items():
            vs.extend([v] * k)
        traffic.append(("in", no, vs))
        traffic.append(("delta", no, (len(before), len(after), before, after, vs)))
        return r

    adapter.emigrate, adapter.immigrate = emigrate, immigrate
