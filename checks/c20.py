import importlib
import math
import os

from pbt.engine import Suite, REPO
from checks.common import *

suite = Suite(
    "C20",
    "points of every bundled problem's box (uniform, corner-heavy, on the Pareto set, near it) and rows of the reference fronts; "
    "non-trivial = the point lies on or near the Pareto set, or the row is an inner one",
    ["UF5 uses the project's choice of 10 variables and N=10, UF6 N=30; formulas and fronts are judged with these",
     "EWA1, EWA2 and ackley list the ideal point as their front: only its dimension and that nothing dominates it are judged",
     "the kursawe front is a sampled one: attained and undominated to 0.05"],
)

pi, sin, cos, sqrt, exp = math.pi, math.sin, math.cos, math.sqrt, math.exp


# -- published formulas ---------------------------------------------------------------------------------
def zdt_linear_g(x):
    return 1 + 9.0 * sum(x[1:]) / (len(x) - 1)


def zdt1(x):
    g = zdt_linear_g(x)
    return x[0], g * (1 - sqrt(x[0] / g))


def zdt2(x):
    g = zdt_linear_g(x)
    return x[0], g * (1 - (x[0] / g) ** 2)


def zdt3(x):
    g = zdt_linear_g(x)
    return x[0], g * (1 - sqrt(x[0] / g) - x[0] / g * sin(10 * pi * x[0]))


def zdt4(x):
    g = 1 + 10 * (len(x) - 1) + sum(v * v - 10 * cos(4 * pi * v) for v in x[1:])
    return x[0], g * (1 - sqrt(x[0] / g))


def zdt6_f1(t):
    return 1 - exp(-4 * t) * sin(6 * pi * t) ** 6


def zdt6(x):
    f = zdt6_f1(x[0])
    g = 1 + 9 * (sum(x[1:]) / (len(x) - 1)) ** 0.25
    return f, g * (1 - (f / g) ** 2)


def odd_even(x, term):
    """Means over odd and even 1-based indices from 2 on, as in the CEC 2009 two-objective problems."""
    odd = [term(x, j) for j in range(2, len(x) + 1) if j % 2 == 1]
    even = [term(x, j) for j in range(2, len(x) + 1) if j % 2 == 0]
    return odd, even


def thirds(x, term):
    n = len(x)
    return [[term(x, j) for j in range(3, n + 1) if (j - k) % 3 == 0] for k in (1, 2, 0)]


def sine_y(x, j):
    return x[j - 1] - sin(6 * pi * x[0] + j * pi / len(x))


def uf2_y(x, j):
    n = len(x)
    a = 0.3 * x[0] ** 2 * cos(24 * pi * x[0] + 4 * j * pi / n) + 0.6 * x[0]
    t = 6 * pi * x[0] + j * pi / n
    return x[j - 1] - a * (cos(t) if j % 2 == 1 else sin(t))


def uf3_y(x, j):
    return x[j - 1] - x[0] ** (0.5 * (1 + 3.0 * (j - 2) / (len(x) - 2)))


def uf8_y(x, j):
    return x[j - 1] - 2 * x[1] * sin(2 * pi * x[0] + j * pi / len(x))


def two(x, y, h, front):
    o, e = odd_even(x, lambda x, j: h(y(x, j)))
    a, b = front(x[0])
    return a + 2.0 * sum(o) / len(o), b + 2.0 * sum(e) / len(e)


def rugged(x, y, extra, front):
    """The product term of UF3 and UF6."""
    out = []
    for k, par in enumerate((1, 0)):
        js = [j for j in range(2, len(x) + 1) if j % 2 == par]
        ys = [y(x, j) for j in js]
        p = 1.0
        for j, v in zip(js, ys):
            p *= cos(20 * v * pi / sqrt(j))
        out.append(front(x[0])[k] + extra(x[0]) + 2.0 / len(js) * (4 * sum(v * v for v in ys) - 2 * p + 2))
    return tuple(out)


def square(v):
    return v * v


def three(x, h):
    means = [2.0 * sum(h(v) for v in ys) / len(ys) for ys in thirds(x, uf8_y)]
    a, b = 0.5 * pi * x[0], 0.5 * pi * x[1]
    return tuple(f + m for f, m in zip((cos(a) * cos(b), cos(a) * sin(b), sin(a)), means))


def uf9(x, eps=0.1):
    means = [2.0 * sum(v * v for v in ys) / len(ys) for ys in thirds(x, uf8_y)]
    t = max(0.0, (1 + eps) * (1 - 4 * (2 * x[0] - 1) ** 2))
    f = (0.5 * (t + 2 * x[0]) * x[1], 0.5 * (t - 2 * x[0] + 2) * x[1], 1 - x[1])
    return tuple(a + m for a, m in zip(f, means))


def kursawe(x):
    return (sum(-10 * exp(-0.2 * sqrt(a * a + b * b)) for a, b in zip(x, x[1:])), sum(abs(a) ** 0.8 + 5 * sin(a ** 3) for a in x))


def ackley(x):
    a, b = x
    v = -20 * exp(-0.2 * sqrt((a * a + b * b) / 2)) - exp((cos(2 * pi * a) + cos(2 * pi * b)) / 2) + 20 + math.e
    return v, v


def concave(t):
    return t, 1 - sqrt(t)


def convex(t):
    return t, 1 - t * t


def line(t):
    return t, 1 - t


# -- the Pareto set as a function of the front's free coordinates -----------------------------------------
def on_sine(n):
    return lambda t: [t] + [sin(6 * pi * t + j * pi / n) for j in range(2, n + 1)]


def on_uf2(t, n=30):
    x = [t]
    for j in range(2, n + 1):
        a = 0.3 * t * t * cos(24 * pi * t + 4 * j * pi / n) + 0.6 * t
        x.append(a * (cos if j % 2 else sin)(6 * pi * t + j * pi / n))
    return x


def on_uf3(t, n=30):
    return [t] + [t ** (0.5 * (1 + 3.0 * (j - 2) / (n - 2))) for j in range(2, n + 1)]


def on_uf8(a, b, n=30):
    return [a, b] + [2 * b * sin(2 * pi * a + j * pi / n) for j in range(3, n + 1)]


def zeros(n):
    return lambda t: [t] + [0.0] * (n - 1)


def sphere_angles(r):
    a = math.asin(min(1.0, max(0.0, r[2]))) / (pi / 2)
    b = math.atan2(r[1], r[0]) / (pi / 2) if r[0] or r[1] else 0.0
    return a, b


def uf9_coords(r):
    s = 1 - r[2]
    return (min(1.0, r[0] / s) if s > 0 else 0.0), s


UNIT = (0.0, 1.0)
NAMES = ["ZDT1", "ZDT2", "ZDT3", "ZDT4", "ZDT6"] + ["UF%d" % i for i in range(1, 11)] + ["kursawe", "ackley", "EWA1", "EWA2"]
FORMULA = {
    "ZDT1": zdt1, "ZDT2": zdt2, "ZDT3": zdt3, "ZDT4": zdt4, "ZDT6": zdt6,
    "UF1": lambda x: two(x, sine_y, square, concave),
    "UF2": lambda x: two(x, uf2_y, square, concave),
    "UF3": lambda x: rugged(x, uf3_y, lambda t: 0.0, concave),
    "UF4": lambda x: two(x, sine_y, lambda v: abs(v) / (1 + exp(2 * abs(v))), convex),
    "UF5": lambda x: tuple(v + (1 / 20 + 0.1) * abs(sin(20 * pi * x[0])) for v in
                           two(x, sine_y, lambda v: 2 * v * v - cos(4 * pi * v) + 1, line)),
    "UF6": lambda x: rugged(x, sine_y, lambda t: max(0.0, 2 * (1 / 60 + 0.1) * sin(60 * pi * t)), line),
    "UF7": lambda x: two(x, sine_y, square, lambda t: line(t ** 0.2)),
    "UF8": lambda x: three(x, square),
    "UF9": uf9,
    "UF10": lambda x: three(x, lambda v: 4 * v * v - cos(8 * pi * v) + 1),
    "kursawe": kursawe, "ackley": ackley,
    "EWA1": lambda x: (sin(50 * x[0]) * cos(50 * x[1]) + 1, (x[0] - 0.5) ** 2 * (x[1] - 0.5) ** 2),
    "EWA2": lambda x: (sin(50 * x[0]) * cos(30 * x[1]) + 1, sin(30 * x[0]) * cos(50 * x[1]) + 1),
}
BOX = {
    "ZDT1": [UNIT] * 30, "ZDT2": [UNIT] * 30, "ZDT3": [UNIT] * 30, "ZDT4": [UNIT] + [(-5.0, 5.0)] * 9, "ZDT6": [UNIT] * 10,
    "UF1": [UNIT] + [(-1.0, 1.0)] * 29, "UF2": [UNIT] + [(-1.0, 1.0)] * 29, "UF3": [UNIT] * 30, "UF4": [UNIT] + [(-2.0, 2.0)] * 29,
    "UF5": [UNIT] + [(-1.0, 1.0)] * 9, "UF6": [UNIT] + [(-1.0, 1.0)] * 29, "UF7": [UNIT] + [(-1.0, 1.0)] * 29,
    "UF8": [UNIT] * 2 + [(-2.0, 2.0)] * 28, "UF9": [UNIT] * 2 + [(-2.0, 2.0)] * 28, "UF10": [UNIT] * 2 + [(-2.0, 2.0)] * 28,
    "kursawe": [(-5.0, 5.0)] * 3, "ackley": [(-1.5, 1.5)] * 2, "EWA1": [UNIT] * 2, "EWA2": [UNIT] * 2,
}
# a Pareto-optimal point from free parameters in [0, 1]
SET = {
    "ZDT1": zeros(30), "ZDT2": zeros(30), "ZDT3": zeros(30), "ZDT4": zeros(10), "ZDT6": zeros(10),
    "UF1": on_sine(30), "UF2": on_uf2, "UF3": on_uf3, "UF4": on_sine(30),
    "UF5": lambda t: on_sine(10)(round(20 * t) / 20.0),
    "UF6": lambda t: on_sine(30)(uf6_segment(t)), "UF7": on_sine(30),
    "UF8": on_uf8, "UF10": on_uf8, "UF9": lambda a, b: on_uf8(0.25 * a * 2 if a < 0.5 else 1 - 0.25 * (1 - a) * 2, b),
}


def uf6_segment(t):
    """Maps [0, 1] onto {0} and the segments [(2i-1)/60, 2i/60]."""
    if t < 1 / 61.0:
        return 0.0
    i = min(30, 1 + int((t - 1 / 61.0) * 61 / 2.0))
    u = (t * 61 - 1) / 2.0 - (i - 1)
    return (2 * i - 1 + min(1.0, max(0.0, u))) / 60.0


def bisect(f, target, lo, hi):
    for _ in range(200):
        mid = (lo + hi) / 2
        if f(mid) > target:
            lo = mid
        else:
            hi = mid
    return (lo + hi) / 2


ZDT6_MIN = math.atan(9 * pi) / (6 * pi)

# the point that attains a front row
ATTAIN = {n: (lambda r, s=SET[n]: s(r[0])) for n in ("ZDT1", "ZDT2", "ZDT3", "ZDT4", "UF1", "UF2", "UF3", "UF4")}
ATTAIN.update({
    "UF5": lambda r: on_sine(10)(r[0]), "UF6": lambda r: on_sine(30)(r[0]),
    "UF7": lambda r: on_sine(30)(r[0] ** 5),
    "UF8": lambda r: on_uf8(*sphere_angles(r)), "UF10": lambda r: on_uf8(*sphere_angles(r)),
    "UF9": lambda r: on_uf8(*uf9_coords(r)),
    "ZDT6": lambda r: zeros(10)(bisect(zdt6_f1, r[0], 0.0, ZDT6_MIN) if r[0] >= zdt6_f1(ZDT6_MIN) - 1e-12 else None),
})
RTOL = {"ZDT6": 1e-5}
TWO_PARAMETERS = ("UF8", "UF9", "UF10")
_mods = {}


def module(name):
    if name not in _mods:
        cwd = os.getcwd()
        os.chdir(REPO)
        try:
            _mods[name] = importlib.import_module("problems.%s.problem" % name)
        finally:
            os.chdir(cwd)
    return _mods[name]


def gen_x(tc, name):
    box = BOX[name]
    kind = tc.pick(["set", "near", "random", "edges", "spread"]) if name in SET else tc.pick(["random", "edges", "near"])
    if kind in ("set", "near") and name in SET:
        x = SET[name](*[tc.float(0.0, 1.0) for _ in range(2 if name in TWO_PARAMETERS else 1)])
        if kind == "near":
            for _ in range(tc.int(1, 3)):
                i = tc.draw(len(x) - 1)
                x[i] += tc.pick([1e-3, -1e-3, 0.1, -0.1, 0.5, -0.7])
    elif kind == "near":
        x = [tc.pick([0.0, 1e-6, -1e-3, 0.5, -1.0, -2.0]) for _ in box]
    elif kind == "edges":
        x = [tc.pick([lo, hi, (lo + hi) / 2, lo + (hi - lo) / 4]) for lo, hi in box]
    elif kind == "spread":
        r = __import__("random").Random(tc.draw(2 ** 31 - 1))
        x = [lo + (hi - lo) * r.random() for lo, hi in box]
    else:
        x = [tc.float(lo, hi) for lo, hi in box]
    return kind, [min(hi, max(lo, v)) for v, (lo, hi) in zip(x, box)]


@suite.test(quick=8000, thorough=250000, rule="objectives equal the published formulas, depend on the point only and leave it alone")
def formulas(tc):
    name = tc.pick(NAMES)
    p = module(name)
    tc.label(name)
    tc.check([tuple(map(float, d)) for d in p.dims] == BOX[name], lambda: "the search box of %s is %r" % (name, p.dims))
    kind, x = gen_x(tc, name)
    tc.label(kind)
    tc.note(problem=name, kind=kind, x=x)
    tc.nontrivial(kind in ("set", "near"))
    want = FORMULA[name](list(x))
    given = list(x)
    got = [f(given) for f in p.fitnesses]
    tc.check(given == x, "%s modified the point" % name)
    tc.check(len(got) == len(want), "%s has %d objectives, want %d" % (name, len(got), len(want)))
    rel = RTOL.get(name, 1e-9)
    for k, (a, b) in enumerate(zip(got, want)):
        tc.check(math.isfinite(float(a)), lambda: "%s objective %d is %r" % (name, k + 1, a))
        tc.check(close(a, b, rel, max(rel, 1e-9)), lambda: "%s objective %d is %r, the definition gives %r" % (name, k + 1, a, b))
    _, other = gen_x(tc, name)
    for f in reversed(p.fitnesses):
        f(other)
    again = [f(tuple(x)) for f in p.fitnesses]
    tc.check(again == got, lambda: "%s evaluated twice at the same point: %r and %r" % (name, got, again))


def beats(name, y, r):
    if name == "kursawe":
        return all(a < b - 0.05 for a, b in zip(y, r))
    if name == "ZDT3":
        return y[0] <= r[0] and y[1] < r[1] - 3e-3
    t = 1e-5 if name == "ZDT6" else 1e-6
    return all(a <= b for a, b in zip(y, r)) and any(a < b - t for a, b in zip(y, r))


@suite.test(quick=4000, thorough=120000, rule="no point dominates a reference vector; points of the Pareto set lie near one")
def nothing_dominates_the_front(tc):
    name = tc.pick(NAMES)
    p = module(name)
    kind, x = gen_x(tc, name)
    if tc.chance(0.4) and name in ("ZDT1", "ZDT2", "ZDT3", "ZDT4", "ZDT6"):
        kind, x = "set", SET[name](tc.float(0.0, 1.0))
    tc.label(name, kind)
    y = [f(list(x)) for f in p.fitnesses]
    tc.note(problem=name, kind=kind, x=x, y=y)
    tc.nontrivial(kind in ("set", "near"))
    front = [list(map(float, r)) for r in p.pareto_front]
    for r in front:
        if beats(name, y, r):
            tc.fail("%s: the point %r with objectives %r dominates the reference vector %r" % (name, x, y, r))
    if kind == "set" and name in SET and name not in ("ZDT3", "ZDT6"):
        d = min(max(abs(a - b) for a, b in zip(y, r)) for r in front)
        lim = 0.25 if len(y) == 3 else 0.06
        tc.check(d <= lim, lambda: "%s: the Pareto-optimal vector %r is %g away from the reference front" % (name, y, d))


@suite.test(quick=1500, thorough=20000, rule="reference vectors are attainable and do not dominate one another")
def front_rows(tc):
    name = tc.pick(NAMES)
    p = module(name)
    front = [list(map(float, r)) for r in p.pareto_front]
    tc.label(name)
    tc.check(len(front) > 0, "%s has an empty reference front" % name)
    i = tc.draw(len(front) - 1)
    rows = range(i, min(len(front), i + (1 if name == "kursawe" else 10)))
    tc.note(problem=name, first_row=i, vector=front[i], rows=len(front))
    tc.nontrivial(0 < i < len(front) - 1)
    for i in rows:
        check_row(tc, name, p, front, i)


def check_row(tc, name, p, front, i):
    r = front[i]
    tc.check(len(r) == len(p.fitnesses) and all(math.isfinite(v) for v in r), lambda: "%s: row %d of the reference front is %r" % (name, i, r))
    tol = 1e-6 if name == "kursawe" else 1e-9
    for q in front:
        if all(a <= b for a, b in zip(q, r)) and any(a < b - tol for a, b in zip(q, r)):
            tc.fail("%s: reference vector %r dominates reference vector %r" % (name, q, r))
    if name in ATTAIN:
        x = ATTAIN[name](r)
        ok = None not in x and in_bounds(x, [(lo - 1e-9, hi + 1e-9) for lo, hi in BOX[name]])
        tc.check(ok, lambda: "%s: reference vector %r is not attained in the search box (needs %r)" % (name, r, x[:2]))
        x = [min(hi, max(lo, v)) for v, (lo, hi) in zip(x, BOX[name])]
        y = [f(x) for f in p.fitnesses]
        tol = 1e-5 if name == "ZDT6" else 1e-6
        tc.check(all(abs(a - b) <= tol for a, b in zip(y, r)), lambda: "%s: reference vector %r is not attained: its point of the Pareto set gives %r" % (name, r, y))
    elif name == "kursawe":
        x = attain_kursawe(p, r)
        y = [f(x) for f in p.fitnesses]
        tc.check(max(abs(a - b) for a, b in zip(y, r)) <= 0.05, lambda: "kursawe: reference vector %r not attained, nearest %r" % (r, y))


_grid = []


def attain_kursawe(p, r):
    """Direct search for the point closest to the vector r."""
    if not _grid:
        vs = [-1.6 + 0.1 * i for i in range(19)]
        _grid.extend(([a, b, c], kursawe([a, b, c])) for a in vs for b in vs for c in vs)
    def dist(y):
        return sum((a - b) ** 2 for a, b in zip(y, r))
    best = None
    for x, _ in sorted(_grid, key=lambda e: dist(e[1]))[:6]:
        x = list(x)
        d = dist(kursawe(x))
        h = 0.05
        while h > 1e-4 and d > 1e-4:
            moved = False
            for k in range(3):
                for s in (h, -h):
                    z = list(x)
                    z[k] = min(5.0, max(-5.0, z[k] + s))
                    dz = dist(kursawe(z))
                    if dz < d:
                        x, d, moved = z, dz, True
            if not moved:
                h /= 2
        if best is None or d < best[0]:
            best = (d, x)
    return best[1]


# -- the two five-objective rotated problems: only what does not depend on their (deviating) definition --------
@suite.test(quick=300, thorough=6000, rule="the rotated DTLZ problems are pure, finite and of consistent dimensions")
def rotated_problems(tc):
    name = tc.pick(["UF11", "UF12"])
    p = module(name)
    tc.check(len(p.dims) == 30 and all(lo < hi for lo, hi in p.dims) and len(p.fitnesses) == 5, "%s has wrong dimensions" % name)
    x = [tc.float(lo, hi) for lo, hi in p.dims]
    tc.note(problem=name, x=x)
    tc.nontrivial()
    given = list(x)
    y = [float(f(given)) for f in p.fitnesses]
    tc.check(given == x and all(math.isfinite(v) for v in y), lambda: "%s at %r gives %r" % (name, x, y))
    tc.check([float(f(tuple(x))) for f in p.fitnesses] == y, "%s evaluated twice differs" % name)
    r = list(map(float, p.pareto_front[tc.draw(len(p.pareto_front) - 1)]))
    tc.check(len(r) == 5 and all(math.isfinite(v) for v in r), lambda: "%s: reference vector %r" % (name, r))
    zz = dtlz_angles([v - 1 for v in r])
    x = unrotate(name, zz + [0.5] * 26)
    y = [float(f(x)) for f in p.fitnesses]
    tc.check(all(abs(a - b) <= 1e-2 for a, b in zip(y, r)), lambda: "%s: reference vector %r is not attained: its point of the Pareto set gives %r" % (name, r, y),
             sig="%s reference front not attained by the objectives as coded" % name)


def dtlz_angles(s):
    """Angles (in units of pi/2) of a DTLZ2 vector on the unit sphere."""
    out = []
    rest = sqrt(sum(v * v for v in s)) or 1.0
    for k in range(len(s) - 1, 0, -1):
        a = math.asin(min(1.0, max(0.0, s[k] / rest))) if rest > 1e-12 else 0.0
        out.append(a / (pi / 2))
        rest *= cos(a)
    return out


_inv = {}


def unrotate(name, z):
    import numpy as np
    if name not in _inv:
        _inv[name] = np.linalg.inv(np.array(module(name).M))
    return [float(v) for v in _inv[name].dot(np.array(z))]
