from pbt.engine import Suite
from checks.common import *
from evotools.ea_utils import dominates, domination_cmp, paretofront_layers, gen_population, one_fitness
from metrics import metrics as M
from metrics import metrics_utils as MU
from algorithms.base.drivertools import rank

suite = Suite(
    "C01",
    "objective-vector sets (1-5 objectives, 0-24 vectors: small integer grids with ties, floats, antichains, "
    "chains, injected duplicates); non-trivial = the set contains both a dominated pair and an "
    "incomparable pair, or a duplicate",
    ["objective values are finite numbers"],
)


def interesting(tc, vs):
    ts = [tuple(v) for v in vs]
    dup = len(set(ts)) < len(ts)
    d = any(dom(a, b) for a in ts for b in ts)
    inc = any(a != b and not dom(a, b) and not dom(b, a) for a in ts for b in ts)
    tc.label(*[n for n, f in (("duplicate", dup), ("dominated", d), ("incomparable", inc)) if f])
    tc.nontrivial(dup or (d and inc))


@suite.test(quick=20000, thorough=400000, rule="pair of vectors against the definition")
def pairwise(tc):
    d = tc.size(1, 5, 40)
    kind = tc.draw(2)
    if kind == 0:
        a = [tc.draw(3) for _ in range(d)]
        b = [x if tc.bool() else tc.draw(3) for x in a]
    elif kind == 1:
        a = [tc.float(-1e3, 1e3) for _ in range(d)]
        b = [x if tc.chance(0.4) else x + tc.pick([-1, 1]) * 2.0 ** -tc.int(0, 40) for x in a]
    else:
        a = [tc.float(-1e9, 1e9) for _ in range(d)]
        b = [tc.float(-1e9, 1e9) for _ in range(d)]
    if tc.chance(0.3):
        a, b = tuple(a), tuple(b)
    tc.note(a=a, b=b)
    want = 1 if dom(a, b) else -1 if dom(b, a) else 0
    tc.label("cmp%+d" % want)
    tc.nontrivial(list(a) != list(b))
    a0, b0 = list(a), list(b)
    tc.check(domination_cmp(a, b) == want, lambda: "three-way comparison gives %r, definition gives %d" % (domination_cmp(a, b), want))
    tc.check(domination_cmp(b, a) == -want, "three-way comparison is not antisymmetric")
    tc.check(bool(dominates(a, b)) == (want == 1), "dominates(a, b) disagrees with the definition")
    tc.check(bool(dominates(b, a)) == (want == -1), "dominates(b, a) disagrees with the definition")
    tc.check(not dominates(a, a), "a vector dominates itself")
    tc.check(list(a) == a0 and list(b) == b0, "arguments modified")


@suite.test(quick=4000, thorough=80000, rule="non-dominated filter against the O(n^2) definition")
def nondominated_filter(tc):
    d = tc.int(1, 4)
    vs = gen_vectors(tc, d, 1, 24, big=150, scaled=True)
    if tc.chance(0.5):
        vs = [tuple(v) for v in vs]
    tc.note(vectors=vs)
    interesting(tc, vs)
    before = [list(v) for v in vs]
    for name, fn in [(m.__name__, m.filter_not_dominated) for m in (M, MU) if hasattr(m, "filter_not_dominated")]:
        got = fn(vs)
        want = multiset(nondominated([tuple(v) for v in vs]))
        tc.check(multiset(got) == want, lambda: "%s filter returned %r, expected the multiset %r" % (name, got, want))
        tc.check(multiset(fn(got)) == want, "filtering twice changes the result")
    tc.check([list(v) for v in vs] == before, "the filter modified its input")


@suite.test(quick=4000, thorough=80000, rule="layering against repeated peeling")
def layering(tc):
    d = tc.int(1, 4)
    vs = gen_vectors(tc, d, 0, 22, big=90, scaled=True)
    items = list(range(len(vs)))
    tc.note(vectors=vs)
    interesting(tc, vs)
    as_iter = tc.bool()
    got = [list(l) for l in paretofront_layers(iter(items) if as_iter else items, lambda i: vs[i])]
    want = layers_of([tuple(v) for v in vs])
    tc.label("layers%d" % min(4, len(want)))
    tc.check([sorted(l) for l in got] == [sorted(l) for l in want],
             lambda: "layers %r, peeling gives %r" % (got, want))
    ranked = list(rank(items, lambda i: vs[i]))
    tc.check(sorted(ranked) == items, "ranking is not a permutation of its input")
    level = {i: k for k, l in enumerate(want) for i in l}
    lv = [level[i] for i in ranked]
    tc.check(lv == sorted(lv), "ranking puts a worse layer before a better one")


@suite.test(quick=1500, thorough=20000, rule="random initial population inside the box")
def initial_population(tc):
    dims = gen_dims(tc, 1, 6)
    n = tc.size(0, 40, 400)
    tc.seed()
    pop = gen_population(n, dims)
    tc.note(dims=dims, n=n)
    tc.nontrivial(n > 1)
    tc.check(len(pop) == n, "wrong population size")
    tc.check(all(in_bounds(x, dims) for x in pop), "individual outside the box")
    tc.check(len(set(map(id, pop))) == n, "individuals share storage")
    if n >= 2:
        tc.check(len(set(tuple(x) for x in pop)) == n, "individuals are not independent draws")


@suite.test(quick=1000, thorough=10000, rule="combined fitness evaluates all objectives in order")
def combined_fitness(tc):
    k = tc.int(1, 4)
    ws = [[tc.int(-3, 3) for _ in range(3)] for _ in range(k)]
    fs = [lambda x, w=w: sum(a * b for a, b in zip(x, w)) for w in ws]
    x = [tc.int(-9, 9) for _ in range(3)]
    tc.note(weights=ws, x=x)
    tc.nontrivial(k > 1)
    got = list(one_fitness(fs)(x))
    tc.check(got == [sum(a * b for a, b in zip(x, w)) for w in ws], lambda: "combined fitness %r" % got)
