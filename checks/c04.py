import math
import random
from pbt.engine import Suite
from checks.common import *
from checks import drivers as D
from algorithms.base import drivertools as T
from algorithms.HGS import tools as HT
from algorithms.NSGAIII import NSGAIII as N3

suite = Suite(
    "C04",
    "boxes of 1-6 coordinates (unit, symmetric, shifted, very narrow), parents inside the box incl. on its "
    "boundary, equal or nearly equal parents, rates 0-1, distribution indices 0.5-200, random generator states; "
    "non-trivial = rate above zero and, for recombination, parents that differ",
    ["parents lie inside the box", "distribution tests use a 1e-9 significance level"],
)


def gen_parent(tc, dims):
    return gen_point(tc, dims)


def gen_second(tc, dims, x):
    out = []
    for v, (lo, hi) in zip(x, dims):
        k = tc.draw(4)
        if k == 0:
            out.append(v)
        elif k == 1:
            w = v + (hi - lo) * 2.0 ** -tc.int(20, 56)
            out.append(min(hi, w))
        else:
            out.append(tc.float(lo, hi))
    return out


@suite.test(quick=4000, thorough=100000, rule="mutated vectors stay in the box, parent untouched, rate 0 changes nothing")
def mutation(tc):
    dims = gen_dims(tc, 1, 6)
    x = gen_parent(tc, dims)
    rate = tc.pick([1.0, 0.0, 1.0 / len(dims), 0.5])
    eta = tc.pick([20.0, 0.5, 5.0, 200.0])
    tc.seed()
    tc.note(dims=dims, x=x, rate=rate, eta=eta)
    tc.nontrivial(rate > 0)
    before = list(x)
    for _ in range(4):
        y = T.mutate(x, dims, rate, eta)
        tc.check(in_bounds(y, dims), lambda: "mutant %r leaves the box %r" % (y, dims))
        tc.check(x == before, "the parent was modified")
        tc.check(y is not x, "the mutant is the parent object")
        if rate == 0.0:
            tc.check(list(y) == before, "mutation rate 0 changed the vector")
    if rate == 1.0:
        # with rate 1 every coordinate moves with probability one (up to rounding at a boundary)
        moved = [False] * len(dims)
        for _ in range(60):
            y = T.mutate(x, dims, rate, eta)
            moved = [m or a != b for m, a, b in zip(moved, x, y)]
        tc.check(all(moved), lambda: "coordinates never mutated at rate 1: %r" % moved)


@suite.test(quick=8000, thorough=150000, rule="recombined vectors stay in the box, parents untouched, common genes preserved")
def recombination(tc):
    dims = gen_dims(tc, 1, 6)
    x = gen_parent(tc, dims)
    y = gen_second(tc, dims, x)
    rate = tc.pick([1.0, 0.9, 0.0, 0.5])
    eta = tc.pick([30.0, 0.5, 5.0, 200.0])
    tc.seed()
    tc.note(dims=dims, x=x, y=y, rate=rate, eta=eta)
    tc.nontrivial(rate > 0 and x != y)
    bx, by = list(x), list(y)
    for _ in range(4):
        z = T.crossover(x, y, dims, rate, eta)
        tc.check(in_bounds(z, dims), lambda: "child %r leaves the box %r" % (z, dims))
        tc.check(x == bx and y == by, "a parent was modified")
        tc.check(z is not x and z is not y, "the child is a parent object")
        for a, b, c in zip(x, y, z):
            if a == b:
                tc.check(c == a, lambda: "both parents carry %r, the child %r" % (a, c))
        if rate == 0.0:
            tc.check(list(z) in (bx, by), "crossover rate 0 produced something other than a parent copy")
    w = T.crossover_triangular(x, y) if hasattr(T, "crossover_triangular") else x
    tc.check(len(w) == len(x) and all(min(a, b) <= c <= max(a, b) for a, b, c in zip(x, y, w)),
             lambda: "triangular child %r not between its parents" % (w,))
    tc.check(x == bx and y == by, "a parent was modified")


@suite.test(quick=4000, thorough=60000, rule="the second operator set (reference-point algorithm), same laws plus objective caching")
def operators_with_objectives(tc):
    tc.internal(N3, "Individual", "simulated_binary_crossover", "polynomial_mutation")
    dims = gen_dims(tc, 1, 6)
    a, b = N3.Individual(gen_parent(tc, dims)), N3.Individual(None)
    b.v = gen_second(tc, dims, a.v)
    a.objectives, b.objectives = [1.0, 2.0], [3.0, 4.0]
    rate = tc.pick([1.0, 0.9, 0.0, 0.5])
    mrate = tc.pick([1.0, 0.0, 0.5])
    eta = tc.pick([30.0, 0.5, 5.0])
    tc.seed()
    tc.note(dims=dims, x=a.v, y=b.v, rate=rate, mutation_rate=mrate, eta=eta)
    tc.nontrivial(rate > 0 and a.v != b.v)
    ba, bb = list(a.v), list(b.v)
    kids = N3.simulated_binary_crossover(a, b, dims, crossover_rate=rate, eta=eta)
    tc.check(len(kids) == 2, "two children expected")
    for k in kids:
        tc.check(in_bounds(k.v, dims), lambda: "child %r leaves the box %r" % (k.v, dims))
        if k.objectives is not None:
            tc.check((list(k.v), list(k.objectives)) in ((ba, [1.0, 2.0]), (bb, [3.0, 4.0])),
                     "a child carries cached objectives of a different point")
    for k in kids:
        old_v, old_o = list(k.v), k.objectives
        N3.polynomial_mutation(k, dims, mutation_rate=mrate, eta=eta)
        tc.check(in_bounds(k.v, dims), lambda: "mutant %r leaves the box %r" % (k.v, dims))
        if list(k.v) != old_v:
            tc.check(k.objectives is None, "a mutated child keeps the objectives of its former self")
        if mrate == 0.0:
            tc.check(list(k.v) == old_v, "mutation rate 0 changed the vector")
    tc.check(a.v == ba and b.v == bb and a.objectives == [1.0, 2.0] and b.objectives == [3.0, 4.0], "a parent was modified")


# -- distributions -----------------------------------------------------------------------------------
def quantile_mutation(y, lo, hi, eta, u):
    """Bounded polynomial mutation (Deb), as a function of the uniform draw."""
    d1, d2 = (y - lo) / (hi - lo), (hi - y) / (hi - lo)
    if u <= 0.5:
        dq = (2 * u + (1 - 2 * u) * (1 - d1) ** (eta + 1)) ** (1 / (eta + 1)) - 1
    else:
        dq = 1 - (2 * (1 - u) + 2 * (u - 0.5) * (1 - d2) ** (eta + 1)) ** (1 / (eta + 1))
    return min(hi, max(lo, y + dq * (hi - lo)))


def sbx_pair(x, y, lo, hi, eta, u):
    y1, y2 = min(x, y), max(x, y)

    def bq(beta):
        alpha = 2 - beta ** -(eta + 1)
        return (u * alpha) ** (1 / (eta + 1)) if u <= 1 / alpha else (1 / (2 - u * alpha)) ** (1 / (eta + 1))

    a = 0.5 * (y1 + y2 - bq(1 + 2 * (y1 - lo) / (y2 - y1)) * (y2 - y1))
    b = 0.5 * (y1 + y2 + bq(1 + 2 * (hi - y2) / (y2 - y1)) * (y2 - y1))
    return min(hi, max(lo, a)), min(hi, max(lo, b))


def ks(sample, model):
    """Two-sample Kolmogorov-Smirnov distance; `model` is a dense quantile sample."""
    sample, model = sorted(sample), sorted(model)
    i = j = 0
    worst = 0.0
    n, m = len(sample), len(model)
    while i < n and j < m:
        v = min(sample[i], model[j])
        while i < n and sample[i] <= v + 1e-9:
            i += 1
        while j < m and model[j] <= v + 1e-9:
            j += 1
        worst = max(worst, abs(i / n - j / m))
    return worst


N_SAMPLE = 1500


def agree(tc, sample, model, what, split=None):
    """P(D > c) <= 2 exp(-2 n c^2) (Massart): below 1e-9 for this threshold, plus the model's own grid error. With `split` =
    (x, y), the recombined values are also compared apart from the unchanged ones, on either side of the parents' middle."""
    limit = math.sqrt(math.log(2e9) / (2 * len(sample))) + 0.004
    d = ks(sample, model)
    tc.check(d < limit, lambda: "%s: Kolmogorov-Smirnov distance %.3f from the specified distribution (limit %.3f)" % (what, d, limit))
    if split is not None and split[0] != split[1]:
        def side(vs, lower):
            vs = [v for v in vs if min(abs(v - split[0]), abs(v - split[1])) > 1e-9]
            return [v for v in vs if (v < (split[0] + split[1]) / 2) == lower]

        for lower in (True, False):
            s, m = side(sample, lower), side(model, lower)
            if len(s) >= 200 and len(m) >= 200:
                agree(tc, s, m, what + ", the child near the %s parent" % ("lower" if lower else "upper"))


@suite.test(quick=48, thorough=1000, rule="3000 draws against the bounded polynomial mutation distribution")
def mutation_distribution(tc):
    lo, hi = tc.pick([(0.0, 1.0), (-2.0, 2.0), (-5.0, 5.0), (3.0, 7.0)])
    y = lo + (hi - lo) * tc.pick([0.5, 0.0, 0.1, 0.9, 1.0])
    eta = tc.pick([20.0, 1.0, 5.0, 60.0])
    tc.seed()
    tc.note(box=(lo, hi), y=y, eta=eta)
    tc.nontrivial()
    g = 4000
    model = [quantile_mutation(y, lo, hi, eta, (k + 0.5) / g) for k in range(g)]
    for name, draw in (("generic", lambda: T.mutate([y], [(lo, hi)], 1.0, eta)[0]), ("reference-point", lambda: n3_mut(y, lo, hi, eta))):
        if name == "reference-point":
            tc.internal(N3, "Individual", "polynomial_mutation")
        agree(tc, [draw() for _ in range(2 * N_SAMPLE)], model, name + " mutation")


def n3_mut(y, lo, hi, eta):
    i = N3.Individual([y])
    N3.polynomial_mutation(i, [(lo, hi)], mutation_rate=1.0, eta=eta)
    return i.v[0]


@suite.test(quick=48, thorough=1000, rule="6000 draws against the bounded SBX distribution")
def recombination_distribution(tc):
    lo, hi = tc.pick([(0.0, 1.0), (-2.0, 2.0), (-5.0, 5.0), (3.0, 7.0)])
    fx, fy = tc.pick([(0.3, 0.6), (0.0, 0.5), (0.45, 0.55), (1.0, 0.2), (0.1, 0.9)])
    x, y = lo + (hi - lo) * fx, lo + (hi - lo) * fy
    eta = tc.pick([30.0, 1.0, 5.0])
    tc.seed()
    tc.note(box=(lo, hi), x=x, y=y, eta=eta)
    tc.nontrivial()
    g = 1000
    model = []
    for k in range(g):
        a, b = sbx_pair(x, y, lo, hi, eta, (k + 0.5) / g)
        model += [a, b, x, y]  # half of the coordinates are left as they are
    agree(tc, [T.crossover([x], [y], [(lo, hi)], 1.0, eta)[0] for _ in range(4 * N_SAMPLE)], model, "recombination", (x, y))
    out = []
    tc.internal(N3, "Individual", "simulated_binary_crossover")
    a, b = N3.Individual([x]), N3.Individual([y])
    a.objectives = b.objectives = [0.0]
    for _ in range(4 * N_SAMPLE):
        out.append(N3.simulated_binary_crossover(a, b, [(lo, hi)], 1.0, eta)[random.getrandbits(1)].v[0])
    agree(tc, out, model, "reference-point recombination", (x, y))


@suite.test(quick=32, thorough=600, rule="vectors of 2-5 coordinates, each with its own box and parents (some shared): every coordinate follows its own distribution")
def every_coordinate(tc):
    n = tc.int(2, 5)
    dims, x, y = [], [], []
    for _ in range(n):
        lo, hi = tc.pick([(0.0, 1.0), (-2.0, 2.0), (-5.0, 5.0), (3.0, 7.0)])
        fx, fy = tc.pick([(0.3, 0.6), (0.5, 0.5), (0.0, 0.5), (1.0, 0.2), (0.0, 0.0), (0.1, 0.9)])
        dims.append((lo, hi))
        x.append(lo + (hi - lo) * fx)
        y.append(lo + (hi - lo) * fy)
    eta = tc.pick([30.0, 1.0, 5.0])
    tc.seed()
    tc.note(dims=dims, x=x, y=y, eta=eta)
    tc.nontrivial(x != y)
    tc.internal(N3, "Individual", "simulated_binary_crossover", "polynomial_mutation")
    a, b = N3.Individual(list(x)), N3.Individual(list(y))
    a.objectives = b.objectives = [0.0]
    kids = [T.crossover(x, y, dims, 1.0, eta) for _ in range(N_SAMPLE)]
    kids3 = [N3.simulated_binary_crossover(a, b, dims, 1.0, eta)[random.getrandbits(1)].v for _ in range(N_SAMPLE)]
    mut = [T.mutate(x, dims, 1.0, eta) for _ in range(N_SAMPLE)]
    mut3 = []
    for _ in range(N_SAMPLE):
        c = N3.Individual(list(x))
        N3.polynomial_mutation(c, dims, mutation_rate=1.0, eta=eta)
        mut3.append(c.v)
    # each recombined coordinate lands near either parent independently of the others
    for name, pop in (("", kids), ("reference-point ", kids3)):
        for i in range(n - 1):
            mids = [(x[j] + y[j]) / 2 for j in (i, i + 1)]
            both = [v for v in pop if all(min(abs(v[j] - x[j]), abs(v[j] - y[j])) > 1e-9 for j in (i, i + 1))]
            if len(both) >= 100:
                share = sum((v[i] < mids[0]) == (v[i + 1] < mids[1]) for v in both) / len(both)
                eps = math.sqrt(math.log(2e9) / (2 * len(both)))
                tc.check(abs(share - 0.5) < eps, lambda: "%srecombination: coordinates %d and %d lie on the same side of the parents in %.0f%% of %d children" % (
                    name, i, i + 1, 100 * share, len(both)))
    g = 1000
    for i, (lo, hi) in enumerate(dims):
        model = []
        for k in range(g):
            model += (list(sbx_pair(x[i], y[i], lo, hi, eta, (k + 0.5) / g)) if x[i] != y[i] else [x[i]] * 2) + [x[i], y[i]]
        mmodel = [quantile_mutation(x[i], lo, hi, eta, (k + 0.5) / (4 * g)) for k in range(4 * g)]
        for what, pop, m in (("recombined", kids, model), ("recombined (reference-point)", kids3, model), ("mutated", mut, mmodel), ("mutated (reference-point)", mut3, mmodel)):
            agree(tc, [v[i] for v in pop], m, "coordinate %d of %d %s" % (i, n, what), (x[i], y[i]) if m is model else None)


@suite.test(quick=48, thorough=1000, rule="per-coordinate change frequency against the configured mutation rate; crossover rate likewise")
def rates(tc):
    n = tc.int(2, 6)
    dims = [(-1.0, 1.0)] * n
    rate = tc.pick([0.5, 0.1, 0.25, 0.8])
    tc.seed()
    tc.note(n=n, rate=rate)
    tc.nontrivial()
    x = [0.25] * n
    trials = 3000 // n
    total = trials * n
    eps = math.sqrt(math.log(2e9) / (2 * total))
    changed = sum(sum(a != b for a, b in zip(x, T.mutate(x, dims, rate, 20.0))) for _ in range(trials))
    tc.check(abs(changed / total - rate) < eps, lambda: "mutation rate %.2f produced %.3f changes per coordinate" % (rate, changed / total))
    y = [-0.5] * n
    copies = 0
    m = 1500
    eps = math.sqrt(math.log(2e9) / (2 * m))
    for _ in range(m):
        if list(T.crossover(x, y, dims, rate, 20.0)) in (x, y):
            copies += 1
    want = (1 - rate) + rate * 0.5 ** n  # no crossover, or no coordinate selected
    tc.check(abs(copies / m - want) < eps, lambda: "crossover rate %.2f left %.3f parent copies, expected about %.3f" % (rate, copies / m, want))


def either(name):
    """Both tree strategies' versions of a function (one, if they share it)."""
    from algorithms.HGS.classic import ClassicHGS as C
    return [getattr(m, name) for m in (HT, C) if hasattr(m, name)]


@suite.test(quick=4000, thorough=60000, rule="offspring cloud of a delegate: first member is the delegate, all inside the box")
def delegate_population(tc):
    dims = gen_dims(tc, 1, 5)
    x = gen_parent(tc, dims)
    n = tc.int(1, 12)
    rate = tc.pick([1.0, 0.0, 0.5])
    tc.seed()
    tc.note(dims=dims, delegate=x, size=n, rate=rate)
    tc.nontrivial(n > 1 and rate > 0)
    before = list(x)
    for fn in either("population_from_delegate"):
        pop = fn(x, n, dims, rate, 10.0)
        tc.check(len(pop) == n, "wrong number of individuals")
        tc.check(list(pop[0]) == before and pop[0] is not x, "the first individual is not a copy of the delegate")
        tc.check(all(in_bounds(p, dims) for p in pop), "individual outside the box")
        tc.check(x == before, "the delegate was modified")


@suite.test(quick=4000, thorough=60000, rule="mantissa truncation: reference truncation, idempotent, towards zero")
def precision(tc):
    bits = tc.pick([4, 1, 2, 16, 52, 64])
    n = tc.int(1, 4)
    x = [tc.float(-5.0, 5.0) * tc.pick([1.0, 1e-3, 1e3]) for _ in range(n)]
    tc.note(bits=bits, x=x)
    tc.nontrivial(any(v != 0 for v in x) and bits < 52)
    want = D.trim_bits(bits)(x)
    for fn in either("trim_vector"):
        got = fn(x, bits)
        tc.check(list(got) == want, lambda: "truncation to %d bits gives %r, reference %r" % (bits, got, want))
        tc.check(list(fn(got, bits)) == list(got), "truncation is not idempotent")


@suite.test(quick=160, thorough=3000, rule="every optimizer with active variation leaves a population of identical points")
def variation_takes_effect(tc):
    name = tc.pick([n for n in D.NAMES if n != "NSLS"])
    p = D.gen_problem(tc, 2, 5)
    n = tc.int(6, 14)
    x = [tc.float(lo + 0.2 * (hi - lo), hi - 0.2 * (hi - lo)) for lo, hi in p.dims]
    pop = [list(x) for _ in range(n)]
    params = D.gen_params(tc, name, p, default=True)
    params["mutation_rate"] = tc.pick([1.0, 0.5])
    if name == "OMOPSO":
        params["mutation_probability"] = 0.5
    tc.seed()
    tc.note(algorithm=name, x=x, n=n)
    tc.label(name)
    tc.nontrivial()
    with D.quiet():
        d = D.build(name, p, pop, params)
        for _ in range(8):
            d.next_step()
    fresh = set(v for v in p.evaluated() if list(v) != x)
    tc.check(fresh, "eight generations with mutation switched on never evaluated a new point")
    tc.check(not p.bad, lambda: "evaluated a point outside the box: %r" % (p.bad[:1],))
    if name == "OMOPSO":
        per = set(i for v in fresh for i in range(len(x)) if v[i] != x[i])
        tc.check(len(per) == len(x), lambda: "coordinates that never move: %r" % sorted(set(range(len(x))) - per))


@suite.test(quick=60, thorough=1500, cpu=60, rule="jumping genes strike when the first layer overflows, and only at an active jumping rate")
def jumping_takes_effect(tc):
    dims = [(0.0, 1.0)] * tc.int(2, 5)
    p = D.Problem(dims, [lambda x: sum(x), lambda x: -sum(x)], "a line of equally good points")
    n = tc.int(6, 14)
    gens = tc.int(2, 5)
    pop = [[tc.float(0.05, 0.95) for _ in dims] for _ in range(n)]
    params = D.gen_params(tc, "JGBL", p, default=True)
    rate = tc.pick([1.0, 0.0, 0.6])
    params.update(mutation_rate=0.0, crossover_rate=0.0, jumping_rate=rate, jumping_percentage=0.5)
    tc.seed()
    tc.note(n=n, dims=len(dims), jumping_rate=rate, generations=gens)
    tc.nontrivial(rate > 0)
    with D.quiet():
        d = D.build("JGBL", p, pop, params)
        for _ in range(gens):
            d.next_step()
    fresh = p.evaluated() - set(map(tuple, pop))
    tc.check(bool(fresh) == (rate > 0), lambda: "jumping rate %r: %d new points in %d generations" % (rate, len(fresh), gens))
    if rate > 0:
        jumped = len(p.log)
        limit = 6 * n * gens * 0.5 * rate
        tc.check(jumped >= limit * 0.2, lambda: "jumping rate %r: only %d points in %d generations of %d" % (rate, jumped, gens, n))


# -- flight of a swarm -------------------------------------------------------------------------------
def fit(columns, move):
    """Least-squares coefficients of `move` in the span of `columns`, with the largest residual; None if they are dependent."""
    import numpy
    a = numpy.array(columns, dtype=float).T
    norms = numpy.sqrt((a * a).sum(axis=0))
    if norms.min() < 1e-6:
        return None
    q = a / norms
    g = q.T.dot(q)
    if abs(numpy.linalg.det(g)) < 1e-3:
        return None
    c = numpy.linalg.solve(g, q.T.dot(numpy.array(move, dtype=float)))
    return [float(v) for v in c / norms], float(abs(q.dot(c) - numpy.array(move, dtype=float)).max())


@suite.test(quick=300, thorough=6000, cpu=60, rule="particles move by a damped share of their last move, towards their own best and towards a leader")
def swarm_flight(tc):
    m = tc.int(2, 3)
    dims = [(-10.0, 10.0)] * tc.int(5, 8)
    optima = [[tc.float(-2.0, 2.0) for _ in dims] for _ in range(m)]
    p = D.Problem(dims, [lambda x, c=c: sum((a - b) ** 2 for a, b in zip(x, c)) for c in optima], "spheres around %r" % (optima,))
    n = tc.int(3, 7)
    gens = tc.int(1, 4)
    wide = tc.chance(0.25)
    pop = [[tc.float(-9.0, 9.0) if wide else tc.float(-3.0, 3.0) for _ in dims] for _ in range(n)]
    params = D.gen_params(tc, "OMOPSO", p, default=True)
    params["mutation_probability"] = 0.0
    tc.seed()
    tc.note(problem=p.desc, population=pop, generations=gens)
    judged = 0
    with D.quiet():
        d = D.build("OMOPSO", p, pop, params)
        old = [list(x) for x in d.population]
        best = [list(x) for x in old]
        speed = [[0.0] * len(dims) for _ in old]
        for g in range(gens):
            known = sorted(set(map(tuple, pop)) | p.evaluated())
            values = {x: p.value(x) for x in known}
            front = [x for x in known if not any(dom(values[y], values[x]) for y in known)]
            d.next_step()
            new = [list(x) for x in d.population]
            for k, x in enumerate(new):
                move = [a - b for a, b in zip(x, old[k])]
                inside = [j for j in range(len(dims)) if dims[j][0] < x[j] < dims[j][1]]
                if speed[k] is not None and len(inside) >= 5:
                    outcome = explain(old[k], [move[j] for j in inside], [speed[k][j] for j in inside], best[k], front, inside)
                    if outcome is not None:
                        judged += 1
                        tc.check(outcome, lambda: "generation %d: the particle at %r with speed %r, best %r and leaders %r moved to %r" % (g, old[k], speed[k], best[k], front, x))
                speed[k] = move if len(inside) == len(dims) else None
                if len(inside) < len(dims):
                    tc.label("bounced")
                if dom(p.value(x), p.value(best[k])):
                    best[k] = list(x)
            old = new
    tc.nontrivial(judged > 0)


def explain(x, move, speed, best, front, inside):
    """Whether some leader explains the move; None when the directions cannot be told apart."""
    own = [best[j] - x[j] for j in inside]
    columns = [(c, lim) for c, lim in ((speed, (0.1, 0.5)), (own, (0.0, 2.0))) if max(map(abs, c)) > 1e-6]
    if any(max(map(abs, c)) > 0 for c in (speed, own)) and len(columns) < sum(max(map(abs, c)) > 0 for c in (speed, own)):
        return None
    unclear = False
    for leader in front:
        pull = [leader[j] - x[j] for j in inside]
        cols = list(columns)
        if max(map(abs, pull)) > 1e-9:
            cols.append((pull, (0.0, 2.0)))
        if not cols:
            if max(map(abs, move)) < 1e-9:
                return True
            continue
        got = fit([c for c, _ in cols], move)
        if got is None:
            unclear = True
            continue
        coefs, rest = got
        if rest < 1e-7 and all(lo - 1e-6 <= v <= hi + 1e-6 for v, (_, (lo, hi)) in zip(coefs, cols)):
            return True
    return None if unclear else False


@suite.test(quick=24, thorough=500, cpu=60, rule="the swarm's two mutations: how often they strike, and how far they go")
def swarm_mutation(tc):
    from algorithms.OMOPSO import OMOPSO as O
    tc.internal(O, "Individual", "UniformMutation", "NonUniformMutation")
    lo, hi = tc.pick([(0.0, 1.0), (-2.0, 2.0), (3.0, 7.0)])
    y = lo + (hi - lo) * tc.pick([0.5, 0.25, 0.9])
    rate = tc.pick([0.05, 0.3, 0.7])
    size = tc.pick([0.5, 0.1, 2.0])
    progress = tc.pick([0.1, 0.5, 0.9, 1.0])
    tc.seed()
    tc.note(box=(lo, hi), y=y, rate=rate, perturbation=size, progress=progress)
    tc.nontrivial()
    dims = [(lo, hi)] * 3
    n = 3000
    g = 3000
    us = [(k + 0.5) / g for k in range(g)]
    clip = lambda v: min(hi, max(lo, v))
    reach = [1.0 - u ** ((1.0 - progress) ** size) for u in us]
    models = {
        "uniform": (O.UniformMutation(rate, size, dims), [clip(y + (u - 0.5) * size) for u in us]),
        "non-uniform": (O.NonUniformMutation(progress, rate, size, dims), [clip(y + (hi - y) * r) for r in reach] + [clip(y - (y - lo) * r) for r in reach]),
    }
    for name, (mutation, model) in sorted(models.items()):
        moved = [[] for _ in dims]
        for _ in range(n):
            i = O.Individual([y] * 3)
            mutation(i)
            tc.check(in_bounds(i.value, dims), lambda: "%s mutation leaves the box: %r" % (name, i.value))
            for k, v in enumerate(i.value):
                if v != y:
                    moved[k].append(v)
        if name == "non-uniform" and progress == 1.0:
            tc.check(not any(moved), "non-uniform mutation still strikes at the end of the run")
            continue
        for k, vs in enumerate(moved):
            slack = 5 * math.sqrt(rate * (1 - rate) / n) + 0.01
            tc.check(abs(len(vs) / n - rate) < slack, lambda: "%s mutation changes coordinate %d in %.3f of the cases, configured %.3f" % (name, k, len(vs) / n, rate))
            if len(vs) >= 200:
                agree(tc, vs, [v for v in model if v != y], "%s mutation of coordinate %d" % (name, k))


# -- transposed genes --------------------------------------------------------------------------------
def is_inserted(child, x, y, k):
    """child = x without k of its genes, with k genes of y (in order) inserted in one place."""
    n = len(x)
    for p in range(n - k + 1):
        if ordered(child[p:p + k], y) and ordered(child[:p] + child[p + k:], x):
            return True
    return False


def is_pasted(child, x, y, k):
    """child = x with k genes of y (in order) written over it from some place on, up to the end at most."""
    n = len(x)
    for p in range(n):
        block = child[p:p + k]
        if ordered(block, y) and child[:p] == x[:p] and child[p + k:] == x[p + k:]:
            return True
    return False


def ordered(part, whole):
    it = iter(whole)
    return all(any(a == b for b in it) for a in part)


@suite.test(quick=2500, thorough=40000, rule="jumping genes: a child is one parent with genes of the other inserted in place of its own, or written over them")
def gene_transposition(tc):
    p = D.Problem(gen_dims(tc, 1, 6), [lambda x: sum(x), lambda x: -sum(x)], "sum")
    n = len(p.dims)
    share = tc.pick([0.5, 0.0, 0.25, 0.34, 0.75, 1.0])
    steps = 1 << 10
    ratios = tc.shuffled(range(1, 40))[:2 * n]
    rx, ry = [r / 40.0 for r in ratios[:n]], [r / 40.0 for r in ratios[n:]]
    if tc.chance(0.2):
        rx[tc.draw(n - 1)] = tc.pick([0.0, 1.0])
    x, y = ([lo + r * (hi - lo) for r, (lo, hi) in zip(rs, p.dims)] for rs in (rx, ry))
    params = D.gen_params(tc, "JGBL", p, default=True)
    params["jumping_percentage"] = share
    tc.seed()
    tc.note(dims=p.dims, x=x, y=y, share=share)
    k = int(share * n)
    tc.nontrivial(0 < k < n)
    with D.quiet():
        d = D.build("JGBL", p, [list(x), list(y)], params)
    grid = lambda v: [int(round((a - lo) / (hi - lo) * 40 * steps)) for a, (lo, hi) in zip(v, p.dims)]
    gx, gy = grid(x), grid(y)
    bx, by = list(x), list(y)
    for op, holds in (("cut_and_paste", is_inserted), ("copy_and_paste", is_pasted)):
        kids = tc.internal(d, op)(x, y)
        tc.check(len(kids) == 2, "two children expected")
        for child, a, b in zip(kids, (gx, gy), (gy, gx)):
            tc.check(len(child) == n and in_bounds(child, p.dims), lambda: "%s gives %r in the box %r" % (op, child, p.dims))
            tc.check(holds(grid(child), a, b, k), lambda: "%s with %d genes of %r and %r gives %r" % (op, k, x, y, child))
    tc.check(x == bx and y == by, "a parent was modified")
