from pbt.engine import Suite
from checks.common import *
from algorithms.base.hv import HyperVolume
from metrics import metrics as M

suite = Suite(
    "C02",
    "point sets in 1-5 objectives with ties, duplicates, dominated points and points beyond the reference "
    "point; non-trivial = at least three points dominate the reference point, in two or more objectives",
    ["coordinates are finite; agreement to 1e-9 relative"],
)


def relevant(pts, ref):
    return [p for p in pts if weakly(p, ref)]


def gen_case(tc, nmax):
    d = tc.weighted([(4, 2), (4, 3), (2, 4), (1, 5), (1, 1), (0.3, 6), (0.2, 7)])
    pts = gen_vectors(tc, d, 0, {1: nmax, 2: nmax, 3: nmax, 4: min(nmax, 16), 5: min(nmax, 9), 6: 7, 7: 6}[d],
                      big={1: 60, 2: 120, 3: 60}.get(d, 0))
    kind = tc.draw(3)
    if kind == 0:
        ref = [50.0] * d
    elif kind == 1:
        ref = [float(tc.int(1, 12)) for _ in range(d)]
    elif kind == 2:
        ref = [tc.float(0.0, 2.0) for _ in range(d)]
    else:
        ref = [0.0] * d
        pts = [[-abs(x) for x in p] for p in pts]
    if pts and tc.chance(0.3):  # points sharing a coordinate with the reference point
        for _ in range(tc.int(1, 3)):
            p = list(pts[tc.draw(len(pts) - 1)])
            p[tc.draw(d - 1)] = ref[tc.draw(d - 1)]
            pts = pts + [p]
    tc.note(points=pts, ref=ref)
    rel = relevant(pts, ref)
    ts = [tuple(p) for p in pts]
    tc.label("d%d" % d)
    if len(rel) < len(pts):
        tc.label("beyond-reference")
    if len(set(ts)) < len(ts):
        tc.label("duplicate")
    if any(dom(a, b) for a in rel for b in rel):
        tc.label("dominated")
    tc.nontrivial(len(rel) >= 3 and d >= 2)
    return d, pts, ref


@suite.test(quick=8000, thorough=120000, rule="against slicing of objectives")
def exact(tc):
    d, pts, ref = gen_case(tc, 20)
    keep = [list(p) for p in pts]
    got = HyperVolume(ref).compute(pts)
    want = hv_reference(pts, ref)
    tc.check(close(got, want), lambda: "hypervolume %r, reference %r" % (got, want))
    tc.check([list(p) for p in pts] == keep, "the point set was modified")


@suite.test(quick=2500, thorough=40000, rule="permutation, duplication, dominated points, monotonicity, translation, reuse")
def laws(tc):
    d, pts, ref = gen_case(tc, 24)
    calc = HyperVolume(ref)
    base = calc.compute(list(pts))
    tc.check(base >= -1e-9, lambda: "negative hypervolume %r" % base)
    perm = tc.shuffled(pts)
    tc.check(close(calc.compute(perm), base), "depends on the order of the points (or on earlier calls)")
    if pts:
        p = pts[tc.draw(len(pts) - 1)]
        worse = [x + tc.pick([0.0, 0.5, 1.0]) for x in p]
        tc.check(close(HyperVolume(ref).compute(pts + [list(p)]), base), "a duplicate changes the value")
        tc.check(close(HyperVolume(ref).compute([worse] + pts), base), "a weakly dominated point changes the value")
        better = [x - tc.pick([0.0, 0.25, 1.0]) for x in p]
        more = HyperVolume(ref).compute(pts + [better])
        tc.check(more >= base - 1e-9 * max(1, abs(base)), lambda: "adding a better point lowers %r to %r" % (base, more))
        shift = [float(tc.int(-8, 8)) for _ in range(d)]
        moved = HyperVolume([r + s for r, s in zip(ref, shift)]).compute([[x + s for x, s in zip(q, shift)] for q in pts])
        tc.check(close(moved, base, 1e-8, 1e-8), lambda: "not translation invariant: %r vs %r" % (moved, base))


@suite.test(quick=1500, thorough=20000, rule="the hypervolume metric uses reference (50,...,50)")
def metric(tc):
    d = tc.int(2, 3)
    pts = gen_vectors(tc, d, 1, 14, big=60)
    tc.note(points=pts)
    nd = nondominated(pts)
    tc.nontrivial(len(nd) >= 3)
    got = M.hypervolume(pts, nd, [[0.0] * d])
    want = hv_reference(nd, [50.0] * d)
    tc.check(close(got, want), lambda: "metric %r, reference %r" % (got, want))
