"""Generators and independent oracles shared by the checks."""
import math


def close(a, b, rel=1e-9, abs_=1e-9):
    return abs(a - b) <= max(abs_, rel * max(abs(a), abs(b)))


# -- Pareto dominance, written from the definition (minimisation) -------------------------------------
def dom(a, b):
    return all(x <= y for x, y in zip(a, b)) and any(x < y for x, y in zip(a, b))


def weakly(a, b):
    return all(x <= y for x, y in zip(a, b))


def nondominated(vs):
    return [v for v in vs if not any(dom(w, v) for w in vs)]


def layers_of(vs):
    """Index lists: successive non-dominated layers."""
    rest = list(range(len(vs)))
    out = []
    while rest:
        lay = [i for i in rest if not any(dom(vs[j], vs[i]) for j in rest)]
        out.append(lay)
        rest = [i for i in rest if i not in set(lay)]
    return out


def multiset(xs):
    d = {}
    for x in xs:
        k = tuple(x) if isinstance(x, (list, tuple)) else x
        d[k] = d.get(k, 0) + 1
    return d


def hv_reference(points, ref):
    """Hypervolume by slicing objectives (HSO), exact up to float addition."""
    pts = [tuple(p) for p in points if weakly(p, ref)]
    return _hso(pts, tuple(ref))


def _hso(pts, ref):
    if not pts:
        return 0.0
    d = len(ref)
    if d == 1:
        return ref[0] - min(p[0] for p in pts)
    pts = list(set(pts))
    levels = sorted(set(p[-1] for p in pts))
    total = 0.0
    for i, z in enumerate(levels):
        nxt = levels[i + 1] if i + 1 < len(levels) else ref[-1]
        if nxt > z:
            sl = [p[:-1] for p in pts if p[-1] <= z]
            sl = [p for p in set(sl) if not any(dom(q, p) for q in sl)]
            total += (nxt - z) * _hso(sl, ref[:-1])
    return total


# -- generators --------------------------------------------------------------------------------------
def gen_vectors(tc, d, lo, hi, allow_negative=True, big=0, scaled=False):
    """A list of objective vectors with ties, duplicates, antichains and chains well represented."""
    mode = tc.draw(4)
    base = -3 if allow_negative and tc.chance(0.3) else 0

    def grid():
        return [float(base + tc.draw(3)) for _ in range(d)]

    def wide():
        return [tc.float(-5.0 if base else 0.0, 40.0) for _ in range(d)]

    def fine():
        return [tc.draw(2 ** 20) / 2.0 ** 20 for _ in range(d)]

    def antichain():
        v = [float(tc.draw(12)) for _ in range(d - 1)]
        return v + [40.0 - sum(v) + (0.0 if tc.chance(0.7) else tc.draw(4) / 4.0)]

    def chain():
        k = float(tc.draw(6))
        return [k + tc.draw(1) for _ in range(d)]

    g = (grid, wide, fine, antichain, chain)[mode]
    if big and tc.chance(0.015):
        tc.label("large")
        g = tc.pick([grid, wide, fine, antichain, chain])
        vs = [g() for _ in range(tc.int(hi, big))]
        hi = big
    else:
        vs = tc.list(g, lo, hi)
    if vs and tc.chance(0.4):
        for _ in range(tc.int(1, 3)):
            if len(vs) < hi:
                vs.append(list(vs[tc.draw(len(vs) - 1)]))
        vs = tc.shuffled(vs)
    if scaled and tc.chance(0.1):
        f = 2.0 ** tc.pick([-40, -20, 10, 40])
        tc.label("scaled")
        vs = [[x * f for x in v] for v in vs]
    return vs


def gen_dims(tc, lo=1, hi=5):
    """Box bounds: unit, symmetric, negative, wide, very narrow."""
    n = tc.int(lo, hi)

    def one():
        k = tc.draw(5)
        if k <= 1:
            return (0.0, 1.0)
        if k == 2:
            return (-1.0, 1.0)
        if k == 3:
            a = float(tc.int(-20, 20))
            return (a, a + float(tc.int(1, 40)))
        if k == 4:
            a = tc.float(-2.0, 2.0)
            return (a, a + tc.pick([1e-3, 0.37, 5.5]))
        return (float(-tc.int(1, 9)), 0.0)

    return [one() for _ in range(n)]


def gen_point(tc, dims):
    return [tc.float(lo, hi) for lo, hi in dims]


def in_bounds(x, dims):
    return len(x) == len(dims) and all(
        isinstance(v, (int, float)) or hasattr(v, "__float__") for v in x
    ) and all(math.isfinite(float(v)) and lo <= v <= hi for v, (lo, hi) in zip(x, dims))
