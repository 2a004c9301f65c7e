import math
from pbt.engine import Suite
from checks.common import *
from metrics import metrics as M

suite = Suite(
    "C03",
    "solution sets and reference fronts in 1-3 objectives (1-18 points each, ties and duplicates); "
    "non-trivial = the solution has two or more distinct vectors, one of them dominated or duplicated, or the "
    "reference has two or more",
    ["values are finite; agreement to 1e-9 relative"],
)


def sq(a, b):
    return sum((x - y) ** 2 for x, y in zip(a, b))


def rms_nearest(frm, to):
    return math.sqrt(sum(min(sq(f, t) for t in to) for f in frm) / len(frm))


def spacing_ref(nd):
    if len(nd) < 2:
        return 0.0
    ds = [min(sum(abs(x - y) for x, y in zip(a, b)) for j, b in enumerate(nd) if i != j) for i, a in enumerate(nd)]
    m = sum(ds) / len(ds)
    return math.sqrt(sum((m - x) ** 2 for x in ds) / (len(nd) - 1))


def gen(tc):
    d = tc.weighted([(5, 2), (3, 3), (1, 1), (0.3, 5)])
    sol = gen_vectors(tc, d, 1, 18, big=80)
    front = nondominated(gen_vectors(tc, d, 1, 18, big=150))
    if tc.chance(0.2):
        front = front + [list(sol[tc.draw(len(sol) - 1)])]
        front = nondominated(front)
    nd = nondominated(sol)
    tc.note(solution=sol, front=front)
    tc.label("d%d" % d, "nd=all" if len(nd) == len(sol) else "nd<all", "single" if len(nd) == 1 else "several")
    tc.nontrivial(len(set(map(tuple, sol))) > 1 and (len(nd) < len(sol) or len(front) > 1))
    return d, sol, nd, front


@suite.test(quick=6000, thorough=100000, rule="each indicator against its formula")
def formulas(tc):
    d, sol, nd, front = gen(tc)
    if tc.chance(0.4):
        sol, nd, front = [tuple(x) for x in sol], [tuple(x) for x in nd], [tuple(x) for x in front]
    keep = ([list(x) for x in sol], [list(x) for x in nd], [list(x) for x in front])
    gd, igd = rms_nearest(nd, front), rms_nearest(front, sol)
    want = {
        "generational_distance": gd,
        "inverse_generational_distance": igd,
        "average_hausdorff_distance": max(gd, igd),
        "epsilon": max(min(max(p[k] - s[k] for k in range(d)) for p in front) for s in nd),
        "extent": math.sqrt(sum(max(s[k] for s in sol) - min(s[k] for s in sol) for k in range(d))),
        "spacing": spacing_ref(nd),
        "non_domination_ratio": len(nd) / len(sol),
    }
    for name, w in want.items():
        g = getattr(M, name)(sol, nd, front)
        tc.check(close(g, w, 1e-7, 1e-7), lambda: "%s = %r, formula gives %r" % (name, g, w))
    tc.check(([list(x) for x in sol], [list(x) for x in nd], [list(x) for x in front]) == keep, "arguments modified")


@suite.test(quick=3000, thorough=40000, rule="order-independence, identity, translation and improvement laws")
def laws(tc):
    d, sol, nd, front = gen(tc)
    names = ["generational_distance", "inverse_generational_distance", "average_hausdorff_distance", "epsilon",
             "extent", "spacing", "non_domination_ratio"]
    base = {n: getattr(M, n)(sol, nd, front) for n in names}
    s2, n2, f2 = tc.shuffled(sol), tc.shuffled(nd), tc.shuffled(front)
    shift = [float(tc.int(-8, 8)) for _ in range(d)]
    mv = lambda vs: [[x + s for x, s in zip(v, shift)] for v in vs]
    for n in names:
        g = getattr(M, n)(s2, n2, f2)
        tc.check(close(g, base[n], 1e-7, 1e-7), lambda: "%s depends on the order: %r vs %r" % (n, g, base[n]))
        g = getattr(M, n)(mv(sol), mv(nd), mv(front))
        tc.check(close(g, base[n], 1e-6, 1e-6), lambda: "%s is not translation invariant: %r vs %r" % (n, g, base[n]))
    for n in names:
        tc.check(n == "epsilon" or base[n] >= 0, lambda: "%s negative: %r" % (n, base[n]))
    tc.check(0 < base["non_domination_ratio"] <= 1, "non-domination ratio out of (0, 1]")
    tc.check(base["average_hausdorff_distance"] >= max(base["generational_distance"], base["inverse_generational_distance"]) - 1e-12,
             "average Hausdorff distance below one of its components")
    for n in ("generational_distance", "inverse_generational_distance", "average_hausdorff_distance", "epsilon"):
        g = getattr(M, n)(front, front, front)
        tc.check(abs(g) < 1e-12, lambda: "%s of the reference front itself is %r" % (n, g))
    if all(any(weakly(p, s) for p in front) for s in nd):
        tc.label("front-covers")
        tc.check(base["epsilon"] <= 1e-12, lambda: "epsilon positive although the front covers the solution: %r" % base["epsilon"])
