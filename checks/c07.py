import itertools
import math

from pbt.engine import Suite
from checks.common import *
from checks import drivers as D

suite = Suite(
    "C07",
    "each optimizer run for 1-6 generations on generated problems; the survivors of every generation and the final "
    "population are recomputed from the candidate multiset by an independent reference selection; non-trivial = "
    "selection had to discard a candidate with a different objective vector from some survivor",
    ["objective functions are pure", "near-ties within 1e-9 may be broken either way"],
)


def counter_sub(a, b):
    """Multiset difference of lists of tuples; None when b is not contained in a."""
    m = multiset(a)
    for x in b:
        k = tuple(x)
        if m.get(k, 0) == 0:
            return None
        m[k] -= 1
    return [k for k, c in m.items() for _ in range(c)]


def start(tc, name, dim_hi=3, nmax=14, gens=6, obj=(2, 3), nonneg=False, n_min=2, **over):
    p = D.gen_problem(tc, 1, dim_hi, obj=obj, nonneg=nonneg)
    n, g = D.extent(tc, name, tc.int(n_min, nmax), tc.int(1, gens))
    pop = D.gen_population(tc, p.dims, n, p.optima)
    params = D.gen_params(tc, name, p)
    params.update(over)
    tc.seed()
    tc.note(algorithm=name, problem=p.desc, population=pop, params=params, generations=g)
    return p, n, pop, params, g


def ranks_of(vals):
    r = [0] * len(vals)
    for k, lay in enumerate(layers_of(vals)):
        for i in lay:
            r[i] = k
    return r


def crowding_bounds(vals):
    """Crowding distances of a mutually non-dominated set, all values distinct in every objective, as (lowest, highest): the best in an objective is
    infinitely far, the worst in one counts its only gap at least once and is infinitely far at most (with two objectives it is the best in the other)."""
    n = len(vals)
    low, high = [0.0] * n, [0.0] * n
    for k in range(len(vals[0])):
        o = sorted(range(n), key=lambda i: vals[i][k])
        width = vals[o[-1]][k] - vals[o[0]][k]
        low[o[0]] = high[o[0]] = high[o[-1]] = float("inf")
        if n > 1:
            low[o[-1]] += (vals[o[-1]][k] - vals[o[-2]][k]) / width
        for a, b, c in zip(o, o[1:], o[2:]):
            gap = (vals[c][k] - vals[a][k]) / width
            low[b] += gap
            high[b] += gap
    return low, high


def check_rank_crowding(tc, p, before, kept, n, what):
    before = [tuple(x) for x in before]
    kept = [tuple(x) for x in kept]
    out = counter_sub(before, kept)
    tc.check(out is not None, lambda: "%s: survivors %r are not among the candidates %r" % (what, kept, before))
    tc.check(len(kept) == min(n, len(before)), lambda: "%s: %d survivors of %d candidates, capacity %d" % (what, len(kept), len(before), n))
    if not out:
        return
    vals = [p.value(x) for x in before]
    rk = ranks_of(vals)
    rank = {x: r for x, r in zip(before, rk)}
    worst_kept = max(rank[x] for x in kept)
    best_out = min(rank[x] for x in out)
    tc.nontrivial(set(p.value(x) for x in out) - set(p.value(x) for x in kept))
    tc.check(worst_kept <= best_out, lambda: "%s: kept a solution of front %d and discarded one of front %d" % (what, worst_kept + 1, best_out + 1))
    # the front that was admitted only in part
    part = [x for x in before if rank[x] == best_out]
    kp = [x for x in kept if rank[x] == best_out]
    if not kp:
        return
    pv = [p.value(x) for x in part]
    m = len(pv[0])
    uniq = set()
    ambiguous = False
    for k in range(m):
        lo = min(v[k] for v in pv)
        at = [x for x, v in zip(part, pv) if v[k] == lo]
        if len(at) == 1:
            uniq.add(at[0])
        else:
            ambiguous = True
    if not ambiguous and len(uniq) <= len(kp):
        for x in uniq:
            tc.check(x in kp, lambda: "%s: the best solution in one objective of the partly admitted front was discarded" % what)
    if all(len(set(v[k] for v in pv)) == len(pv) for k in range(m)):
        tc.label("crowding")
        low, high = crowding_bounds(pv)
        ins = {x: d for x, d in zip(part, high) if x in kp}
        outs = {x: d for x, d in zip(part, low) if x not in kp}
        if outs and max(outs.values()) > min(ins.values()) * (1 + 1e-9) + 1e-9:
            tc.fail("%s: a more crowded solution (distance %r) was kept while one at %r was discarded" % (what, min(ins.values()), max(outs.values())))


@suite.test(quick=1300, thorough=20000, cpu=60, rule="NSGA-II: fronts first, then crowding; extremes never lost")
def rank_and_crowding(tc):
    p, n, pop, params, gens = start(tc, "NSGAII")
    with D.quiet():
        d = D.build("NSGAII", p, pop, params)
        for g in range(gens):
            before = d.population
            k = len(p.log)
            d.next_step()
            kept = counter_sub(d.population, p.log[k:])
            tc.check(kept is not None, "the offspring of a generation are not all in the population after it")
            check_rank_crowding(tc, p, before, kept, n, "generation %d" % g)
        before = d.population
        fin = d.finalized_population()
    check_rank_crowding(tc, p, before, fin, n, "final selection")
    vals = [p.value(x) for x in fin]
    allv = [p.value(x) for x in p.log]
    m = len(allv[0])
    if n >= m:
        for k in range(m):
            tc.check(min(v[k] for v in vals) == min(v[k] for v in allv),
                     lambda: "objective %d: the best value ever evaluated %r is not in the final population (best there %r)" % (k, min(v[k] for v in allv), min(v[k] for v in vals)))


@suite.test(quick=300, thorough=5000, cpu=60, rule="jumping-gene variant: same final selection")
def jumping_genes(tc):
    p, n, pop, params, gens = start(tc, "JGBL", nmax=10, gens=4)
    with D.quiet():
        d = D.build("JGBL", p, pop, params)
        for g in range(gens):
            prev = [tuple(x) for x in d.population]
            k = len(p.log)
            d.next_step()
            seen = set(prev) | set(p.log[k:])
            tc.check(all(tuple(x) in seen for x in d.population), "a survivor is neither a parent nor evaluated offspring")
        before = d.population
        fin = d.finalized_population()
    check_rank_crowding(tc, p, before, fin, n, "final selection")


def indicator_selection(vals, n, kappa):
    """Reference indicator-based truncation. Returns kept indices or None when a near-tie makes it ambiguous."""
    m = len(vals[0])
    lo = [min(v[k] for v in vals) for k in range(m)]
    hi = [max(v[k] for v in vals) for k in range(m)]
    eps = 2.220446049250313e-16
    s = [[(v[k] - lo[k]) / (hi[k] - lo[k] + eps) for k in range(m)] for v in vals]
    N = len(vals)
    ind = [[max(a - b for a, b in zip(s[i], s[j])) for j in range(N)] for i in range(N)]
    c = max(abs(x) for r in ind for x in r)
    q = abs(c * kappa + eps)
    e = [[math.exp(-ind[i][j] / q) for j in range(N)] for i in range(N)]
    alive = list(range(N))
    while len(alive) > n:
        f = {j: -math.fsum(e[i][j] for i in alive if i != j) for j in alive}
        w = min(alive, key=lambda j: f[j])
        for j in alive:
            if vals[j] != vals[w] and abs(f[j] - f[w]) <= 1e-6 * max(abs(f[j]), abs(f[w]), 1e-300):
                return None
        alive.remove(w)
    return alive


@suite.test(quick=900, thorough=15000, cpu=60, rule="indicator-based selection against a reference implementation of the additive epsilon indicator")
def indicator_based(tc):
    p, n, pop, params, gens = start(tc, "IBEA", nmax=12, gens=4)

    def judge(before, kept, what):
        before = [tuple(x) for x in before]
        out = counter_sub(before, kept)
        tc.check(out is not None and len(kept) == min(n, len(before)), lambda: "%s: %r from %r" % (what, kept, before))
        if not out:
            return
        vals = [p.value(x) for x in before]
        ref = indicator_selection(vals, n, params["kappa"])
        if ref is None:
            tc.label("ambiguous")
            return
        tc.nontrivial(set(p.value(x) for x in out) - set(p.value(x) for x in kept))
        want, got = multiset([vals[i] for i in ref]), multiset([p.value(x) for x in kept])
        tc.check(want == got, lambda: "%s: kept objective vectors %r, the indicator keeps %r" % (what, got, want))

    with D.quiet():
        d = D.build("IBEA", p, pop, params)
        for g in range(gens):
            before = [tuple(x) for x in d.population]
            d.next_step()
            after = [tuple(x) for x in d.population]
            if not g:
                tc.check(counter_sub(after, before) is not None, "the first generation lost a parent although nothing exceeded the capacity")
            else:
                # survivors = all but the newly created ones
                created = int(params["mating_population_size"] * n)
                tc.check(len(after) == n + created, lambda: "generation %d leaves %d individuals, want %d + %d" % (g, len(after), n, created))
        before = d.population
        fin = d.finalized_population()
    judge(before, fin, "final selection")


@suite.test(quick=900, thorough=15000, cpu=60, rule="hypervolume-based steady state: the discarded one is a smallest contributor of the worst front; hypervolume never falls")
def smallest_contributor(tc):
    n = tc.int(2, 12)
    p = D.gen_problem(tc, 1, 3)
    pop = D.gen_population(tc, p.dims, n, p.optima)
    params = D.gen_params(tc, "SMSEMOA", p)
    one = tc.chance(0.7)
    ref = tuple(tc.pick([200.0, 200.0, 30.0]) for _ in p.fns)
    params["reference_point"] = ref
    params["epoch_length_multiplier"] = 1.5 / n if one else tc.pick([0.5, 1.0])
    gens = tc.int(1, 8) if one else tc.int(1, 4)
    tc.seed()
    tc.note(problem=p.desc, population=pop, params=params, generations=gens)
    with D.quiet():
        d = D.build("SMSEMOA", p, pop, params)
        hv = hv_reference([p.value(x) for x in d.population], ref)
        for g in range(gens):
            before = [tuple(x) for x in d.population]
            k = len(p.log)
            d.next_step()
            after = [tuple(x) for x in d.population]
            new = p.log[k:]
            tc.check(len(new) == int(n * params["epoch_length_multiplier"]), lambda: "%d offspring in one generation of %d" % (len(new), n))
            out = counter_sub(before + new, after)
            tc.check(out is not None and len(after) == n, lambda: "generation %d: population %r from %r plus offspring %r" % (g, after, before, new))
            now = hv_reference([p.value(x) for x in after], ref)
            tc.check(now >= hv - 1e-7 * max(1.0, hv), lambda: "the hypervolume fell from %r to %r" % (hv, now))
            hv = now
            if one:
                cand = before + new
                vals = [p.value(x) for x in cand]
                worst = layers_of(vals)[-1]
                gone = p.value(out[0])
                wv = [vals[i] for i in worst]
                tc.check(gone in wv, lambda: "discarded %r although the worst front is %r" % (gone, wv))
                tot = hv_reference(wv, ref)
                con = [tot - hv_reference(wv[:i] + wv[i + 1:], ref) for i in range(len(wv))]
                mine = con[wv.index(gone)]
                tc.nontrivial(len(set(wv)) > 1)
                tc.label("one-front" if len(worst) == len(cand) else "several-fronts")
                tc.check(mine <= min(con) + 1e-8 * max(1.0, tot), lambda: "discarded a contribution of %r, the smallest of the worst front is %r" % (mine, min(con)))
        fin = d.finalized_population()
    tc.check(multiset(fin) == multiset(after), "final population differs from the last generation")


def strength_fitness(vals):
    n = len(vals)
    strength = [sum(dom(vals[i], vals[j]) for j in range(n)) for i in range(n)]
    raw = [sum(strength[j] for j in range(n) if dom(vals[j], vals[i])) for i in range(n)]
    k = int(math.sqrt(n))
    dens = []
    for i in range(n):
        ds = sorted(math.sqrt(sum((a - b) ** 2 for a, b in zip(vals[i], w))) for w in vals)
        dens.append(1.0 / (ds[k] + 2.0))
    return raw, dens


def truncate(vals, n):
    """Iterated removal of the most crowded point; None when a near-tie between different points is met."""
    alive = [tuple(v) for v in vals]
    while len(alive) > n:
        ds = [sorted(math.sqrt(sum((a - b) ** 2 for a, b in zip(v, w))) for w in alive) for v in alive]
        best = None
        for i in range(len(alive)):
            if best is None or less(ds[i], ds[best]) is True:
                best = i
        for i in range(len(alive)):
            if alive[i] != alive[best] and less(ds[best], ds[i]) is not True:
                return None
        del alive[best]
    return alive


def less(a, b):
    """Lexicographic a < b on distance lists; None when they differ only within rounding somewhere first."""
    for x, y in zip(a, b):
        if x == y:
            continue
        if abs(x - y) <= 1e-9 * max(1.0, abs(x), abs(y)):
            return None
        return x < y
    return False


@suite.test(quick=1000, thorough=16000, cpu=60, rule="strength Pareto: archive against a reference of fitness, filling and truncation")
def strength_archive(tc):
    p, n, pop, params, gens = start(tc, "SPEA2", nmax=12)
    with D.quiet():
        d = D.build("SPEA2", p, pop, params)
        archive = []
        for g in range(gens):
            union = archive + [tuple(x) for x in d.population]
            d.next_step()
            archive = [tuple(x) for x in d.finalized_population()]
            out = counter_sub(union, archive)
            tc.check(out is not None and len(archive) == n, lambda: "generation %d: archive %r from %r" % (g, archive, union))
            vals = [p.value(x) for x in union]
            nd = [v for v in vals if not any(dom(w, v) for w in vals)]
            kept = [p.value(x) for x in archive]
            if out:
                tc.nontrivial(set(p.value(x) for x in out) - set(kept))
            if len(nd) <= n:
                tc.label("filled")
                missing = counter_sub(kept, nd)
                tc.check(missing is not None, lambda: "generation %d: non-dominated %r not all archived: %r" % (g, nd, kept))
                raw, dens = strength_fitness(vals)
                fit = {v: r + q for v, r, q in zip(vals, raw, dens)}
                worst_in = max(fit[v] for v in kept)
                gone = [p.value(x) for x in out]
                if gone:
                    best_out = min(fit[v] for v in gone)
                    tc.check(worst_in <= best_out + 1e-9, lambda: "generation %d: archived fitness %r, discarded %r" % (g, worst_in, best_out))
            else:
                tc.label("truncated")
                tc.check(counter_sub(nd, kept) is not None, lambda: "generation %d: dominated solution archived while non-dominated ones were discarded" % g)
                want = truncate(nd, n)
                if want is None:
                    tc.label("ambiguous")
                else:
                    tc.check(multiset(want) == multiset(kept), lambda: "generation %d: truncation of %r kept %r, want %r" % (g, nd, kept, want))


def personal_bests(d):
    """Where every particle found its best objectives so far, or None if the swarm keeps no such record."""
    try:
        return [tuple(x.best_val.value) for x in d.individuals]
    except AttributeError:
        return None


@suite.test(quick=900, thorough=15000, cpu=60, rule="particle swarm: the reported archive is mutually non-dominated and made of evaluated solutions")
def swarm_archive(tc):
    p, n, pop, params, gens = start(tc, "OMOPSO", nmax=20, gens=8)
    with D.quiet():
        d = D.build("OMOPSO", p, pop, params)
        if tc.chance(0.3):
            d.max_budget = n * (gens + 1)
        for g in range(gens + 1):
            fin = [tuple(x) for x in d.finalized_population()]
            tc.check(len(fin) > 0, "empty archive")
            seen = p.evaluated()
            tc.check(all(x in seen for x in fin), "archived a point that was never evaluated")
            vals = [p.value(x) for x in fin]
            tc.check(len(set(vals)) == len(vals), lambda: "equal objective vectors archived twice: %r" % (vals,))
            for a in vals:
                for b in vals:
                    tc.check(not dom(a, b), lambda: "generation %d: the archive keeps %r although it also holds %r" % (g, b, a))
            tc.nontrivial(len(fin) > 1 and len(seen) > len(fin))
            tc.check(len(d.population) == n, lambda: "swarm of %d, started with %d" % (len(d.population), n))
            bests = personal_bests(d)
            if g and bests and known:
                for x, old, new in zip(d.population, known, bests):
                    better = dom(p.value(x), p.value(old))
                    want = p.value(x) if better else p.value(old)
                    tc.label("best-replaced" if better else "best-kept")
                    tc.check(p.value(new) == want, lambda: "generation %d: a particle at %r remembers %r after %r" % (g, p.value(x), p.value(new), p.value(old)))
            known = bests
            if g < gens:
                d.next_step()


@suite.test(quick=500, thorough=8000, cpu=60, rule="local search: no survivor is dominated by a parent that was discarded; fronts fill in order")
def local_search(tc):
    p, n, pop, params, gens = start(tc, "NSLS", nmax=10, gens=4)
    with D.quiet():
        d = D.build("NSLS", p, pop, params)
        for g in range(gens):
            before = [tuple(x) for x in d.population]
            d.next_step()
            after = [tuple(x) for x in d.population]
            tc.check(len(after) == n, lambda: "%d survivors of %d" % (len(after), n))
            left = multiset(after)
            gone = []
            for x in before:
                if left.get(x, 0):
                    left[x] -= 1
                else:
                    gone.append(x)
            tc.nontrivial(bool(gone))
            for e in gone:
                ve = p.value(e)
                for s in after:
                    tc.check(not dom(ve, p.value(s)), lambda: "generation %d: discarded %r but kept %r, which it dominates" % (g, ve, p.value(s)))
            seen = p.evaluated() | set(before)
            tc.check(all(x in seen for x in after), "a survivor was never evaluated")


@suite.test(quick=500, thorough=8000, cpu=60, rule="reference-point niching: within a niche the better penalised distance survives; niches fill evenly")
def reference_points(tc):
    p, n, pop, params, gens = start(tc, "NSGAIII", nmax=12, gens=3, crossover_rate=1.0)
    with D.quiet():
        d = D.build("NSGAIII", p, pop, params)
        refs = getattr(d, "reference_points", None)
        tc.check(refs is None or (len(refs) == n and all(abs(sum(r) - 1) < 1e-9 and min(r) >= 0 for r in refs)),
                 lambda: "reference points are not on the unit simplex: %r" % (refs,))
        for g in range(gens):
            before = [tuple(x) for x in d.population]
            k = len(p.log)
            d.next_step()
            after = [tuple(x) for x in d.population]
            cand = before + p.log[k:]
            out = counter_sub(cand, after)
            tc.check(out is not None and len(after) == n, lambda: "generation %d: %r from %r" % (g, after, cand))
            if refs is None or not out:
                continue
            vals = {x: p.value(x) for x in cand}
            ideal = [min(p.value(x)[i] for x in p.log) for i in range(len(p.fns))]
            nadir = [max(v[i] for v in vals.values()) for i in range(len(p.fns))]
            score = {}
            ambiguous = False
            for x, v in vals.items():
                z = [(a - lo) / (hi - lo + 2.220446049250313e-16) for a, lo, hi in zip(v, ideal, nadir)]
                per = []
                for i, r in enumerate(refs):
                    ln = math.sqrt(sum(q * q for q in r))
                    t = sum(a * q for a, q in zip(z, r)) / ln
                    per.append((math.sqrt(sum((a - t / ln * q) ** 2 for a, q in zip(z, r))), i, t))
                per.sort()
                if len(per) > 1 and per[1][0] - per[0][0] < 1e-9:
                    ambiguous = True
                score[x] = (per[0][1], per[0][2] + 5 * per[0][0])
            by = {}
            for x in cand:
                by.setdefault(score[x][0], []).append(x)
            rank = {}
            for c, xs in by.items():
                ths = sorted(set(score[x][1] for x in xs))
                if any(b - a < 1e-9 for a, b in zip(ths, ths[1:])):
                    ambiguous = True
                for x in xs:
                    rank[x] = ths.index(score[x][1])
            if ambiguous:
                tc.label("ambiguous")
                continue
            tc.nontrivial(True)
            worst, best = max(rank[x] for x in after), min(rank[x] for x in out)
            tc.check(worst <= best, lambda: "generation %d: kept a solution of niche level %d, discarded one of level %d" % (g, worst + 1, best + 1))


@suite.test(quick=64, thorough=800, cpu=120, rule="with variation switched off offspring are copies of their parents: better individuals are chosen more often")
def mating_prefers_better(tc):
    name = tc.pick(["NSGAII", "JGBL", "IBEA", "SPEA2"])
    n = tc.pick([20, 30])
    # distinct, totally ordered individuals: x is better than y whenever x < y
    p = D.Problem([(0.0, 1.0)], [lambda x: x[0], lambda x: 2 * x[0] + 1.0], "chain")
    pop = [[(i + 0.5) / n] for i in range(n)]
    pop = tc.shuffled(pop)
    over = dict(mutation_rate=0.0, crossover_rate=0.0)
    params = D.gen_params(tc, name, p, default=True)
    params.update(over)
    if "mating_population_size" in params:
        params["mating_population_size"] = 1.0
    tc.seed()
    tc.note(algorithm=name, population=pop)
    tc.label(name)
    tc.nontrivial(True)
    better = total = 0
    with D.quiet():
        for rep in range(12):
            q = D.Problem(p.dims, p.fns, p.desc)
            d = D.build(name, q, pop, params)
            d.next_step()
            after = [tuple(x) for x in d.population]
            off = after if name == "SPEA2" else counter_sub(after, pop)
            if off is None:
                tc.label("other-shape")
                return
            tc.check(all(list(x) in pop for x in off), "variation is switched off but an offspring is not a copy of a parent")
            better += sum(x[0] < 0.5 for x in off)
            total += len(off)
    # random choice gives 0.5; a binary tournament won by the better one with p=0.9 gives 0.7
    tc.check(better > 0.57 * total, lambda: "%s: %d of %d parents come from the better half" % (name, better, total))


def dist(a, b):
    return math.sqrt(sum((x - y) ** 2 for x, y in zip(a, b)))


def farthest(front, vals, t):
    """Survivors of the last layer: the boundary solutions, then always the one farthest from those chosen. None when ties decide."""
    for k in range(len(vals[front[0]])):
        o = sorted(vals[x][k] for x in front)
        if any(b - a < 1e-9 for a, b in zip(o, o[1:])):
            return None
    edge = []
    for k in range(len(vals[front[0]])):
        for x in (min(front, key=lambda x: vals[x][k]), max(front, key=lambda x: vals[x][k])):
            if x not in edge:
                edge.append(x)
    if len(edge) > t:
        return ("some of", edge)
    chosen, rest = list(edge), [x for x in front if x not in edge]
    while len(chosen) < t:
        far = sorted(((min(dist(x, c) for c in chosen), x) for x in rest), reverse=True)
        if len(far) > 1 and far[0][0] - far[1][0] < 1e-9:
            return None
        chosen.append(far[0][1])
        rest.remove(far[0][1])
    return ("exactly", chosen)


def accepted(p, base, plus, minus):
    """The published acceptance rule of a local search step: the vectors it may continue from."""
    b, u, v = p.value(base), p.value(plus), p.value(minus)
    up, down = dom(u, b), dom(v, b)
    if up or down:
        return [x for x, ok in ((plus, up), (minus, down)) if ok]
    return [x for x, w in ((plus, u), (minus, v)) if not dom(b, w)] or [base]


@suite.test(quick=1500, thorough=20000, cpu=60, rule="local search: acceptance rule, then boundary and farthest candidates of the last layer survive")
def farthest_candidate(tc):
    m = tc.pick([2, 2, 3])
    dims = [(-50.0, 50.0)] * (1 if m == 2 and tc.bool() else 2)  # wide: a trial outside the domain would repeat its base
    cs = [[tc.float(0.0, 1.0) for _ in dims] for _ in range(m)]
    p = D.Problem(dims, [lambda x, c=c: sum((a - b) ** 2 for a, b in zip(x, c)) for c in cs], "distances to %r" % cs)
    n = tc.int(2, 8)
    pop = [[tc.float(-1.0, 2.0) for _ in dims] for _ in range(n)]
    params = D.gen_params(tc, "NSLS", p)
    tc.seed()
    tc.note(problem=p.desc, population=pop, params=params)
    with D.quiet():
        d = D.build("NSLS", p, pop, params)
        for g in range(tc.int(1, 4)):
            before = [tuple(x) for x in d.population]
            k = len(p.log)
            d.next_step()
            after = [tuple(x) for x in d.population]
            log = p.log[k:]
            if g == 0 and log[:n] == before:
                log = log[n:]
            if len(log) != 2 * n * len(dims):
                tc.label("other-shape")
                return
            if len(set(before)) < n or len(set(log) | set(before)) < len(log) + n:
                tc.label("equal-vectors")
                continue
            options = []
            for i, base in enumerate(before):
                for j in range(len(dims)):
                    plus, minus = log[:2]
                    log = log[2:]
                    may = accepted(p, base, plus, minus)
                    if j + 1 < len(dims):
                        # the next trial of this individual shows where the step went
                        nxt = [x for x in may if all(q[:j + 1] == x[:j + 1] for q in log[:2])]
                        tc.check(nxt, lambda: "generation %d: from %r with trials %r, %r the search went to %r" % (g, base, plus, minus, log[:2]))
                        base = nxt[0]
                options.append([None if x == before[i] and may == [x] and x not in (plus, minus) else x for x in may])
            pending = [i for i, o in enumerate(options) if len(o) > 1]
            unsure = []
            for i in pending:
                live = [x for x in options[i] if x in after]
                if len(live) == 1:
                    options[i] = live
                else:
                    unsure.append(i)
            if len(unsure) > 4:
                tc.label("unsure")
                continue
            verdicts = []
            for pick in itertools.product(*[options[i] for i in unsure]):
                cand = before + [o[0] for o in options if len(o) == 1 and o[0] is not None] + list(pick)
                verdicts.append(judge(p, cand, after, n))
                if verdicts[-1] is None:
                    break
            wrong = None if None in verdicts else "tie" if "tie" in verdicts else verdicts[0]
            tc.label("judged" if wrong is None else wrong if wrong == "tie" else "wrong")
            tc.nontrivial(wrong is None)
            tc.check(wrong in (None, "tie"), lambda: "generation %d: %s; candidates %r, survivors %r" % (g, wrong, cand, after))


def judge(p, cand, after, n):
    if counter_sub(cand, after) is None or len(after) != n:
        return "survivors were no candidates"
    if len(set(cand)) < len(cand):
        return "tie"
    vals = {x: p.value(x) for x in cand}
    kept = []
    for lay in layers_of([vals[x] for x in cand]):
        front = [cand[i] for i in lay]
        t = n - len(kept)
        if len(front) <= t:
            kept += front
            if not set(front) <= set(after):
                return "a member of a layer that fits was discarded"
            continue
        if t == 0:
            return None
        f = farthest(front, vals, t)
        if f is None:
            return "tie"
        got = set(after) - set(kept)
        if f[0] == "exactly":
            return None if got == set(f[1]) else "the last layer kept %r, the farthest candidates are %r" % (sorted(got), sorted(f[1]))
        return None if got <= set(f[1]) else "the last layer kept %r, its boundary is %r" % (sorted(got), f[1])
    return None


# -- particle swarm: the leaders ---------------------------------------------------------------------
def gen_front(tc, m, k):
    """k distinct mutually non-dominated vectors, unevenly spaced."""
    out = []
    if m == 2:
        xs = sorted(set(tc.draw(64) / 64.0 if tc.chance(0.5) else tc.float(0.0, 1.0) for _ in range(k)))
        ys = sorted(set(tc.draw(64) / 64.0 if tc.chance(0.5) else tc.float(0.0, 1.0) for _ in range(k)), reverse=True)
        scale = tc.pick([1.0, 10.0, 0.01])
        out = [(x - 0.25, scale * y) for x, y in zip(xs, ys)]
    else:
        for _ in range(k):
            a, b = tc.float(0.0, 1.0), tc.float(0.0, 1.0)
            out.append((a, b, 3.0 - a - b))
    return tc.shuffled(out)


def more_crowded(vals, a, b):
    """Whether both neighbours of a in every objective are strictly nearer than those of b (both inside, no ties)."""
    for k in range(len(a)):
        o = sorted(v[k] for v in vals)
        if len(set(o)) < len(o):
            return False
        i, j = o.index(a[k]), o.index(b[k])
        if i in (0, len(o) - 1) or j in (0, len(o) - 1):
            return False
        if not max(o[i] - o[i - 1], o[i + 1] - o[i]) < min(o[j] - o[j - 1], o[j + 1] - o[j]):
            return False
    return True


@suite.test(quick=2500, thorough=40000, rule="particle swarm: leaders are mutually non-dominated, pruned where they are crowded, and chosen where they are not")
def swarm_leaders(tc):
    import importlib
    import random
    mod = importlib.import_module("algorithms.OMOPSO.OMOPSO")
    tc.internal(mod, "LeaderArchive", "Individual", "CrowdingTournament")
    m = tc.weighted([(3, 2), (1, 3)])
    size = tc.size(3, 8, 30)
    stream = []
    for v in gen_front(tc, m, tc.int(size, size + 6)):
        stream.append(v)
        if tc.chance(0.25):
            stream.append(tuple(x + tc.pick([0.0, 0.5]) for x in tc.pick(stream)))
    archive = mod.LeaderArchive(size)
    tc.note(size=size, stream=stream)
    tc.seed()
    pruned = False
    for v in stream:
        ind = mod.Individual([0.0])
        ind.objectives = list(v)
        before = [tuple(x.objectives) for x in archive.archive]
        archive.add(ind)
        now = [tuple(x.objectives) for x in archive.archive]
        if any(dom(w, v) for w in before) or v in before:
            tc.check(multiset(now) == multiset(before), lambda: "adding the dominated or known %r to %r gives %r" % (v, before, now))
            continue
        rest = [w for w in before if not dom(v, w)] + [v]
        if len(rest) <= size:
            tc.check(multiset(now) == multiset(rest), lambda: "adding %r to %r gives %r" % (v, before, now))
            continue
        pruned = True
        gone = counter_sub(rest, now)
        tc.check(gone is not None and len(gone) == 1, lambda: "adding %r to %r (capacity %d) gives %r" % (v, before, size, now))
        g = gone[0]
        ends = [(min(w[k] for w in rest), max(w[k] for w in rest)) for k in range(m)]
        inner = [w for w in rest if all(lo < w[k] < hi for k, (lo, hi) in enumerate(ends))]
        unique_end = any(g[k] in ends[k] and len([w for w in rest if w[k] == g[k]]) == 1 for k in range(m))
        if inner:
            tc.check(not unique_end, lambda: "the boundary solution %r was dropped from %r" % (g, rest))
        for w in now:
            tc.check(not more_crowded(rest, w, g), lambda: "%r was dropped from %r although %r is more crowded" % (g, rest, w))
    now = [tuple(x.objectives) for x in archive.archive]
    tc.nontrivial(pruned)
    if len(now) < 4:
        return
    # the most crowded leader loses every tournament
    ends = [(min(w[k] for w in now), max(w[k] for w in now)) for k in range(m)]
    inner = [w for w in now if all(lo < w[k] < hi for k, (lo, hi) in enumerate(ends))]
    worst = [w for w in inner if all(more_crowded(now, w, x) for x in inner if x is not w)]
    if len(worst) == 1 and all(len(set(w[k] for w in now)) == len(now) for k in range(m)):
        tc.label("tournament")
        archive.crowding()
        chosen = mod.CrowdingTournament()
        for _ in range(30):
            tc.check(tuple(chosen(archive).objectives) != worst[0], lambda: "the most crowded leader %r of %r was chosen" % (worst[0], now))
