"""Scripted demes and a reference model of the hierarchical strategy's tree (used by C10 and C11)."""
import math
import random

from checks.common import *
from algorithms.base.driver import Driver
from algorithms.base.model import PopulationMessageAdapter

EPS = 2.220446049250313e-16
REF = (20.0, 20.0)


def fitness_a(x):
    return x[0]


def fitness_b(x):
    return x[1]


class Broken(Exception):
    pass


class Setting:
    """One generated configuration together with the script of every deme."""

    def __init__(self, tc, sprouts_hi=5):
        self.tc = tc
        width = tc.pick([100.0, 10.0, 40.0])
        self.dims = [(-1.0, 20.0), (-1.0, 20.0), (0.0, width)]
        self.fits = [fitness_a, fitness_b]
        self.corner = math.sqrt(sum((b - a) ** 2 for a, b in self.dims))
        self.multipliers = [tc.pick([0.0, 0.02, 0.08, 0.3, 1.0]) for _ in range(3)]
        self.metaepoch_len = [tc.size(1, 3, 9, 0.03) for _ in range(3)]
        self.max_level = tc.weighted([(4, 2), (2, 1), (1, 0)])
        self.max_sprouts = tc.size(1, sprouts_hi, 24, 0.06)
        self.sproutiveness = tc.size(1, 3, 8, 0.06)
        self.ratios = [tc.pick([0.0, 0.01, 0.2, 0.5]) for _ in range(3)]
        self.modifiers = [tc.pick([1.0, 0.5, 0.1, 2.0]) for _ in range(3)]
        self.bits = [tc.pick([4, 16, 64, 8]) for _ in range(3)]
        self.sizes = [tc.size(2, 8, 40, 0.03) for _ in range(3)]
        self.mutation_etas = [tc.pick([10.0, 12.0, 200.0, 0.5]) + l / 8.0 for l in range(3)]
        self.crossover_etas = [tc.pick([15.0, 20.0, 25.0]) + l / 8.0 for l in range(3)]
        self.mutation_rates = [tc.pick([0.05 + l / 64.0, 0.2 + l / 64.0, 1.0, 0.0]) for l in range(3)]
        self.crossover_rates = [tc.pick([0.5, 0.9]) + l / 64.0 for l in range(3)]
        self.growth = tc.pick([0.0, 0.3, 0.6, 0.9])
        # relative errors of the objectives, by level
        self.errors = [0.0, 0.0, 0.0]
        if tc.chance(0.35):
            tc.label("blurred")
            self.errors = [tc.pick([0.0, 0.06, 0.6]) for _ in range(3)]
        n = self.sizes[0] + tc.int(0, 4)
        self.population = [[k / 16.0, 1.0 + k / 16.0, width / 2] for k in range(n)]
        # demes may converge to a common place, which makes neighbours of neighbours
        self.pull, self.focus = tc.pick([0.0, 0.0, 0.15, 0.4]), tc.float(0.0, width)
        self.fault = None  # (what, how many times it still works, message): everything of that kind fails afterwards
        self.fired = 0
        self.serial = 0
        self.demes = []

    def kwargs(self):
        return dict(
            population=[list(p) for p in self.population], dims=self.dims, fitnesses=self.fits, fitness_errors=tuple(self.errors),
            cost_modifiers=tuple(self.modifiers), driver=lambda **kw: Deme(self, **kw), mutation_etas=tuple(self.mutation_etas),
            crossover_etas=tuple(self.crossover_etas), mutation_rates=tuple(self.mutation_rates), crossover_rates=tuple(self.crossover_rates),
            reference_point=REF, mantissa_bits=tuple(self.bits), min_progress_ratio=tuple(self.ratios), metaepoch_len=list(self.metaepoch_len),
            max_level=self.max_level, max_sprouts_no=self.max_sprouts, sproutiveness=self.sproutiveness,
            comparison_multipliers=tuple(self.multipliers), population_sizes=tuple(self.sizes), driver_message_adapter_factory=DemeAdapter)

    def describe(self):
        return dict(dims=self.dims, multipliers=self.multipliers, metaepoch_len=self.metaepoch_len, max_level=self.max_level,
                    max_sprouts=self.max_sprouts, sproutiveness=self.sproutiveness, ratios=self.ratios, modifiers=self.modifiers,
                    sizes=self.sizes, growth=self.growth, errors=self.errors)

    def work(self, what):
        """Called whenever a deme does something that may fail."""
        if self.fault and self.fault[0] == what:
            if self.fault[1] <= 0:
                self.fired += 1
                raise Broken(what)
            self.fault[1] -= 1

    def token(self):
        """Distinguishes vectors without moving them noticeably."""
        self.serial += 1
        return self.serial * 2.0 ** -30


class DemeAdapter(PopulationMessageAdapter):
    def get_population(self):
        return self.driver.population

    def nominate_delegates(self):
        self.driver.setting.work("nominate")
        return [list(v) for v in self.driver.next_delegates]


class Deme(Driver):
    """Every finalized population and delegate list is scripted."""

    def __init__(self, setting, population, dims, fitnesses, message_adapter_factory, **kw):
        super().__init__(message_adapter_factory=message_adapter_factory)
        setting.work("create")
        tc = self.tc = setting.tc
        self.setting = setting
        self.no = len(setting.demes)
        setting.demes.append(self)
        self.args = dict(kw, dims=dims)
        self.given_fitnesses = fitnesses
        self.initial = [list(v) for v in population]
        self.population = [list(v) for v in population]
        self.cost = tc.int(1, 9)
        self.steps = 0
        w = dims[2][1]
        self.place = tc.pick([self.initial[0][2], tc.float(0.0, w)])
        self.gap = tc.pick([8.0, 4.0])
        self.aside = tc.bool()
        self.next_delegates = []
        self.result = [list(v) for v in self.population]

    def step(self):
        self.setting.work("step")
        tc = self.tc
        self.steps += 1
        self.cost += tc.int(1, 9)
        if not tc.chance(1 - self.setting.growth):
            self.gap *= tc.pick([0.9, 0.5, 0.99, 0.75, 1.05])
        if tc.chance(0.2):
            self.place = min(self.args["dims"][2][1], max(0.0, self.place + tc.pick([-3.0, 3.0, 0.5])))
        self.place += self.setting.pull * (self.setting.focus - self.place)
        n = tc.size(1, 3, 12)
        self.result = [[self.gap + k, self.gap + (n - 1 - k), self.place] for k in range(n)]
        w = self.args["dims"][2][1]
        self.next_delegates = [[v[0] + self.setting.token(), v[1], tc.pick([self.place, tc.float(0.0, w)])]
                               for v in self.result[:tc.int(0, 3)]]
        if self.next_delegates and tc.chance(0.3):
            d = list(self.next_delegates[0])
            d[0] = self.result[0][0] + self.setting.token()
            self.next_delegates.append(d)
        # what an optimizer works on need not be what it returns
        self.population = self.result + [[0.0, 0.0, w - self.place]] if self.aside else self.result

    def finalized_population(self):
        self.setting.work("result")
        return [list(v) for v in self.result]


def center(pop):
    return [sum(v[k] for v in pop) / len(pop) for k in range(len(pop[0]))]


def distance(a, b):
    return math.sqrt(sum((p - q) ** 2 for p, q in zip(a, b)))


class Node:
    def __init__(self, deme, level, parent):
        self.deme, self.level, self.parent = deme, level, parent
        self.alive, self.ripe = True, False
        self.children = []
        self.population, self.delegates, self.center = [], [], None
        self.base = None
        self.old = self.hv = float("-inf")
        self.steps = 0
        self.cost = 0


class Model:
    """The tree as the configuration describes it; `cycle` compares one step of the code with it."""

    def __init__(self, setting, deme):
        self.s = setting
        self.ratios = list(setting.ratios)
        self.root = Node(deme, 0, None)
        self.nodes = [self.root]
        self.cost = 0.0
        self.jumps = {1: [], 2: []}
        self.moved = {1: [0, 0], 2: [0, 0]}
        self.events = set()

    def level(self, l):
        return [n for n in self.nodes if n.level == l]

    def near(self, a, b, level):
        lim = self.s.multipliers[level] * self.s.corner
        d = distance(a, b)
        if abs(d - lim) <= 1e-9 * max(1.0, lim) and lim > 0.0:
            self.s.tc.reject("on the redundancy limit")
        return d < lim

    def check_args(self, node):
        tc, s, l, d = self.s.tc, self.s, node.level, node.deme
        want = dict(mutation_eta=s.mutation_etas[l], mutation_rate=s.mutation_rates[l], crossover_eta=s.crossover_etas[l],
                    crossover_rate=s.crossover_rates[l], dims=s.dims)
        got = {k: d.args.get(k) for k in want}
        tc.check(got == want, lambda: "a deme of level %d got the parameters %r, want %r" % (l, got, want))
        tc.check(len(d.initial) == s.sizes[l], lambda: "a deme of level %d starts with %d individuals, configured %d" % (l, len(d.initial), s.sizes[l]))
        tc.check(all(in_bounds(v, s.dims) for v in d.initial), lambda: "initial individuals outside the box: %r" % d.initial)
        if l > 0:
            self.check_cloud(node)
        error = s.errors[l]
        for x in ([0.3, 1.7, 5.1], [-0.6, 19.3, 0.0]):
            if error == 0.0:
                got = [f(x) for f in d.given_fitnesses]
                tc.check(got == x[:2], lambda: "a deme of level %d sees the objectives %r at a point of value %r although no error is configured" % (l, got, x[:2]))
                continue
            for f, value in zip(d.given_fitnesses, x):
                sigma = error * abs(value) / 3.0
                far = [abs(f(x) - value) for _ in range(24)]
                tc.check(max(far) <= 7.0 * sigma, lambda: "a deme of level %d (relative error %r) sees %r off by %r" % (l, error, value, max(far)))
                # 24 draws all within 0.4 of the deviation: less than 1e-12
                tc.check(max(far) >= 0.4 * sigma, lambda: "a deme of level %d (relative error %r) sees %r off by at most %r" % (l, error, value, max(far)))
                self.events.add("blurred-deme")

    def check_cloud(self, node):
        """A new deme starts from its delegate and mutations of it, with the rate and the index of its own level."""
        tc, s, l = self.s.tc, self.s, node.level
        first, rest = node.deme.initial[0], node.deme.initial[1:]
        rate = s.mutation_rates[l]
        if rate == 0.0:
            tc.check(all(v == first for v in rest), lambda: "a deme of level %d (mutation rate 0) starts from %r" % (l, node.deme.initial))
            self.events.add("cloud-still")
        for v in rest:
            for a, b, (lo, hi) in zip(first, v, s.dims):
                if rate == 1.0 and lo + 0.15 * (hi - lo) < a < hi - 0.15 * (hi - lo):
                    tc.check(a != b, lambda: "a deme of level %d (mutation rate 1) starts from %r and the unmutated %r" % (l, first, v))
                    self.events.add("cloud-moved")
                    self.jumps[l].append(abs(a - b) / (hi - lo))
                if 0.0 < rate < 1.0 and lo + 0.15 * (hi - lo) < a < hi - 0.15 * (hi - lo):
                    self.moved[l][0] += a != b
                    self.moved[l][1] += 1
        moved, n = self.moved[l]
        if n:
            tc.check(abs(moved - n * rate) <= 6.5 * math.sqrt(n * rate * (1 - rate)) + 3.0,
                     lambda: "%d of the %d coordinates of new demes of level %d were mutated, the rate is %r" % (moved, n, l, rate))
            if n >= 100:
                self.events.add("cloud-counted")
        if s.mutation_etas[l] >= 200.0 and self.jumps[l]:
            tc.check(max(self.jumps[l]) < 0.2, lambda: "mutations of index %r for level %d go as far as %r of the box" % (s.mutation_etas[l], l, max(self.jumps[l])))
            self.events.add("cloud-narrow")
        if s.mutation_etas[l] < 1.0 and len(self.jumps[l]) >= 24:
            # an index of at most 0.75 goes further than a twentieth of the box in at least two thirds of the cases (from an inner point)
            tc.check(max(self.jumps[l]) > 0.05, lambda: "mutations of index %r for level %d never go further than %r of the box" % (s.mutation_etas[l], l, max(self.jumps[l])))
            self.events.add("cloud-wide")

    def metaepoch(self):
        """Predicts the generations of every deme, then takes over the demes' scripted results."""
        tc, s = self.s.tc, self.s
        work = []
        for n in self.nodes:
            want = n.steps + (s.metaepoch_len[n.level] if n.alive else 0)
            tc.check(n.deme.steps == want, lambda: "%s deme %d of level %d made %d generations, expected %d" % (
                "an active" if n.alive else "a stopped", n.deme.no, n.level, n.deme.steps - n.steps, want - n.steps))
            n.steps = want
            if n.alive:
                work.append(s.modifiers[n.level] * (n.deme.cost - n.cost))
                n.cost = n.deme.cost
                # what the deme holds now, not what it was asked for
                n.population = [list(v) for v in n.deme.result]
                n.delegates = [list(v) for v in n.deme.next_delegates]
                v = hv_reference([p[:2] for p in n.population], REF)
                n.old = n.hv
                if n.base is None:
                    n.base = v
                else:
                    n.hv = v - n.base
        return work

    def stagnate(self):
        for n in self.nodes:
            if n.alive and n.old > 0.0:
                lim = self.ratios[n.level] / 2 ** n.level
                gain = n.hv / (n.old + EPS) - 1.0
                if abs(gain - lim) < 1e-9 or n.old < 1e-9:
                    self.s.tc.reject("on the progress threshold")
                if gain < lim:
                    n.alive, n.ripe = False, True
                    n.center = center(n.population)
                    self.events.add("stopped")

    def prune(self):
        for l in (2, 1, 0):
            nodes = self.level(l)
            done = []
            dormant = [n for n in nodes if not n.alive and n.ripe]
            for n in [n for n in nodes if n.alive]:
                n.center = center(n.population)
                if any(self.near(o.center, n.center, l) for o in dormant + done):
                    n.alive = False
                    self.events.add("redundant")
                done.append(n)

    def adopt(self, new, fresh_counts, connected):
        """New demes: who may sprout, how many, from which delegates. `fresh_counts`: do demes released in this cycle block each other?"""
        tc, s = self.s.tc, self.s
        by_parent = {}
        for d in new:
            first = d.initial[0]
            owners = [n for n in self.nodes if n.delegates and first in n.delegates]
            tc.check(len(owners) == 1, lambda: "a new deme starts from %r, which is no delegate" % first)
            by_parent.setdefault(id(owners[0]), []).append(d)
        existing = {l: [n.center if n.center is not None else center(n.population) for n in self.level(l) if n.population] for l in (1, 2)}
        added = {1: [], 2: []}
        if fresh_counts == "unordered":
            # which of two new demes came first is unknown: at least one must be clear of the other
            for l in (1, 2):
                fresh = [d for n in self.nodes if n.level == l - 1 for d in by_parent.get(id(n), [])]
                added[l] = [center(d.initial) for d in fresh]
                for i, d in enumerate(fresh):
                    for e in fresh[:i]:
                        if self.near(d.initial[0], center(e.initial), l) and self.near(e.initial[0], center(d.initial), l):
                            tc.fail("two demes were founded next to each other in one cycle, around %r and %r" % (d.initial[0], e.initial[0]))
        made = []
        for n in sorted(self.nodes, key=lambda n: -n.level):
            mine = by_parent.get(id(n), [])
            eligible = n.ripe and n.level < s.max_level and (not connected or self.chain(n))
            alive = sum(1 for c in n.children if c.alive)
            room = max(0, min(s.sproutiveness, s.max_sprouts - alive)) if eligible else 0
            taken = [d.initial[0] for d in mine]
            tc.check(len(mine) <= room, lambda: "deme %d of level %d (%s) sprouted %d demes; at most %d allowed (%d children active)" % (
                n.deme.no, n.level, "dormant" if n.ripe else "active" if n.alive else "removed", len(mine), room, alive))
            if not eligible:
                continue
            l = n.level + 1
            tc.check(len(set(map(tuple, taken))) == len(taken), "a delegate was used twice")
            free = []
            for v in n.delegates:
                if not any(self.near(v, c, l) for c in existing[l]):
                    free.append(v)
                elif v in taken:
                    tc.fail("deme %d sprouted around the redundant delegate %r" % (n.deme.no, v))
            if fresh_counts == "unordered":
                left = [v for v in free if v not in taken and not any(self.near(v, c, l) for c in added[l])]
                tc.check(len(mine) == room or not left, lambda: "deme %d left the free delegates %r unused although it may sprout %d more" % (n.deme.no, left, room - len(mine)))
            elif not fresh_counts:
                want = min(room, len(free))
                tc.check(len(mine) == want, lambda: "deme %d sprouted %d demes, expected %d (room for %d, %d free delegates)" % (n.deme.no, len(mine), want, room, len(free)))
            else:
                others = added[l]
                for i, v in enumerate(taken):
                    if any(self.near(v, c, l) for c in others + taken[:i]):
                        if not any(self.near(v, center(d.initial), l) for d in mine[:i]) and not any(self.near(v, c, l) for c in others):
                            continue
                        tc.fail("deme %d sprouted around a delegate next to one just used" % n.deme.no)
                if len(mine) < room:
                    centers = others + [center(d.initial) for d in mine]
                    left = [v for v in free if v not in taken and not any(self.near(v, c, l) for c in centers)]
                    tc.check(not left, lambda: "deme %d left the free delegates %r unused although it may sprout %d more" % (n.deme.no, left, room - len(mine)))
                added[l] = others + [center(d.initial) for d in mine]
            if mine:
                self.events.add("sprouted")
            if alive + len(mine) == s.max_sprouts:
                self.events.add("full")
            for d in mine:
                made.append(Node(d, l, n))
        for c in made:
            c.parent.children.append(c)
            self.check_args(c)
        # creation order decides which of two equal demes is redundant
        made.sort(key=lambda c: c.deme.no)
        self.nodes.extend(made)

    def chain(self, n):
        while n is not None:
            if not n.ripe:
                return False
            n = n.parent
        return True

    def revive(self):
        if not any(n.alive for n in self.nodes):
            for n in self.nodes:
                if n.ripe:
                    n.alive, n.ripe = True, False
            self.ratios = [r / 2 for r in self.ratios]
            self.events.add("revived")

    def cycle(self, new, fresh_counts, connected, combine):
        work = self.metaepoch()
        self.cost += combine(work)
        self.stagnate()
        self.prune()
        self.adopt(new, fresh_counts, connected)
        self.revive()

    def result(self):
        return multiset(tuple(v) for n in self.nodes for v in n.population)


class LazyModel(Model):
    """When messages arrive in any order, any order in which redundant demes are found is right: which ones were trimmed shows in the next cycle."""
    pending = None

    def prune(self):
        self.pending = {}
        for l in (2, 1, 0):
            active = [n for n in self.level(l) if n.alive]
            for n in active:
                n.center = center(n.population)
            self.pending[l] = active, [n.center for n in self.level(l) if n.ripe and not n.alive]

    def revive(self):
        self.sprouted = len(self.nodes) > self.known

    def cycle(self, new, *rest):
        if self.pending is not None:
            self.resolve()
        self.known = len(self.nodes)
        super().cycle(new, *rest)

    def resolve(self):
        tc = self.s.tc
        ripe = [n for n in self.nodes[:self.known] if n.ripe]
        again = [n for n in ripe if n.deme.steps > n.steps]
        kept = [n for active, _ in self.pending.values() for n in active if n.deme.steps > n.steps]
        if again:
            tc.check(not kept and not self.sprouted, lambda: "a dormant deme evolves although %d demes are active" % (len(kept) + len(self.nodes) - self.known))
            tc.check(len(again) == len(ripe), lambda: "%d of %d dormant demes were revived" % (len(again), len(ripe)))
            self.ratios = [r / 2 for r in self.ratios]
            self.events.add("revived")
        for l, (active, dormant) in self.pending.items():
            left = [n for n in active if n in kept]
            for i, n in enumerate(left):
                tc.check(not any(self.near(c, n.center, l) for c in dormant), lambda: "active deme %d stands on a dormant one" % n.deme.no)
                tc.check(not any(self.near(o.center, n.center, l) for o in left[:i]), lambda: "active deme %d stands on another active one" % n.deme.no)
            # every trimmed deme stands on a dormant one or on one processed earlier
            gone = [n for n in active if n not in kept]
            reached = [n.center for n in left]
            while gone:
                ok = [n for n in gone if any(self.near(c, n.center, l) for c in dormant) or any(self.near(c, n.center, l) for c in reached)]
                tc.check(ok, lambda: "demes %r of level %d stopped although they are near no other" % ([n.deme.no for n in gone], l))
                reached += [n.center for n in ok]
                gone = [n for n in gone if n not in ok]
                self.events.add("redundant")
        for active, _ in self.pending.values():
            for n in active:
                n.alive = n in kept
        for n in again:
            n.alive, n.ripe = True, False
        tc.check(any(n.alive for n in self.nodes), "no deme is active and none was revived")
