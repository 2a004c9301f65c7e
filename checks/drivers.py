"""Building every optimizer on generated problems, with all evaluations recorded."""
import io
import math
import sys
import types
from contextlib import redirect_stdout

from checks.common import *


def stub_scipy():
    """NSLS needs scipy's euclidean distance; scipy is not installed here."""
    try:
        import scipy.spatial.distance  # noqa: F401
        return
    except ImportError:
        pass
    scipy = types.ModuleType("scipy")
    spatial = types.ModuleType("scipy.spatial")
    distance = types.ModuleType("scipy.spatial.distance")
    distance.euclidean = lambda a, b: math.sqrt(sum((x - y) ** 2 for x, y in zip(a, b)))
    spatial.distance = distance
    scipy.spatial = spatial
    sys.modules.update({"scipy": scipy, "scipy.spatial": spatial, "scipy.spatial.distance": distance})


stub_scipy()

from simulation import factory, run_config  # noqa: E402

NAMES = ["NSGAII", "SPEA2", "SMSEMOA", "IBEA", "OMOPSO", "NSGAIII", "JGBL", "NSLS"]


class Objective:
    """One objective function; shares the problem's evaluation log."""

    def __init__(self, problem, k, fn):
        self.problem, self.k, self.fn = problem, k, fn

    def __call__(self, x):
        p = self.problem
        v = tuple(x)
        p.calls[self.k] += 1
        if self.k == 0:
            p.log.append(v)
        if not in_bounds(v, p.dims):
            p.bad.append(v)
        return self.fn(v)


class Problem:
    def __init__(self, dims, fns, desc):
        self.dims = dims
        self.fns = fns
        self.desc = desc
        self.calls = [0] * len(fns)
        self.optima = []
        self.log = []
        self.bad = []
        self.fitnesses = [Objective(self, k, f) for k, f in enumerate(fns)]

    def value(self, x):
        return tuple(f(tuple(x)) for f in self.fns)

    def evaluated(self):
        return set(self.log)


def nice_dims(tc, lo, hi):
    """Boxes as in the bundled problems: integer bounds, zero inside."""
    n = tc.int(lo, hi)
    out = []
    for _ in range(n):
        out.append(tc.weighted([(5, (0.0, 1.0)), (2, (-1.0, 1.0)), (2, (-2.0, 2.0)), (1, (-5.0, 5.0)), (1, (0.0, 10.0))]))
    return out


def well_problem(dims, m):
    """Every objective has the same minimisers (two mirrored points): no conflict between the objectives."""
    h = [0.125 * min(-a if a < 0 else b, b) for a, b in dims]
    fns = [lambda x, c=k + 1.0: c * sum(abs(abs(p) - q) for p, q in zip(x, h)) for k in range(m)]
    p = Problem(dims, fns, "well x%d on %s" % (m, dims))
    p.optima = [[s * v if a <= s * v <= b else v for v, (a, b) in zip(h, dims)] for s in (1, -1)]
    return p


def gen_problem(tc, dim_lo=1, dim_hi=5, obj=(2, 3), nonneg=False, dims=None):
    dims = dims or nice_dims(tc, dim_lo, dim_hi)
    d = len(dims)
    m = tc.weighted([(3, obj[0]), (1, obj[-1])])
    mid = [(a + b) / 2 for a, b in dims]
    kinds = []
    fns = []
    if tc.chance(0.12):
        return well_problem(dims, m)
    for k in range(m):
        kind = tc.weighted([(3, "dist"), (3, "zdt"), (2, "lin"), (2, "step"), (1, "const"), (1, "neg")])
        if nonneg and kind in ("lin", "neg"):
            kind = "dist"
        if kind == "dist":
            c = [tc.float(a, b) for a, b in dims]
            fns.append(lambda x, c=c: sum((p - q) ** 2 for p, q in zip(x, c)))
        elif kind == "zdt":
            if k == 0:
                fns.append(lambda x: abs(x[0]))
            else:
                fns.append(lambda x: 1.0 + sum(abs(p) for p in x[1:]) + math.exp(-abs(x[0])))
        elif kind == "lin":
            w = [float(tc.int(-2, 2)) for _ in dims]
            fns.append(lambda x, w=w: sum(p * q for p, q in zip(x, w)))
        elif kind == "step":
            w = [float(tc.int(0, 2)) for _ in dims]
            fns.append(lambda x, w=w: float(math.floor(3 * sum(abs(p * q) for p, q in zip(x, w)))))
        elif kind == "const":
            fns.append(lambda x: 1.0)
        else:
            fns.append(lambda x: -1.0 - sum(p * p for p in x))
        kinds.append(kind)
    return Problem(dims, fns, "%s on %s" % ("/".join(kinds), dims))


def real_problem(name):
    import importlib
    mod = importlib.import_module("problems.%s.problem" % name)
    return Problem([tuple(d) for d in mod.dims], list(mod.fitnesses), name)


def extent(tc, name, n, gens, big=64, long=30):
    """Size and length of a run: now and then the platform's own population size, now and then many generations."""
    if tc.chance(0.02):
        tc.label("large")
        big = {"SMSEMOA": 24, "SPEA2": 40, "IBEA": 40}.get(name, big)
        return tc.int(n, big), min(gens, tc.int(1, 2))
    if tc.chance(0.1 if n <= 6 else 0.03):
        tc.label("long")
        return n, tc.int(gens, long)
    return n, gens


def gen_population(tc, dims, n, optima=()):
    mode = tc.weighted([(6, "uniform"), (1, "identical"), (1, "corners"), (2, "duplicates")])
    if optima and tc.chance(0.7):
        tc.label("pop-optimal")
        return [list(tc.pick(optima)) for _ in range(n)]
    if mode == "identical":
        p = gen_point(tc, dims)
        pop = [list(p) for _ in range(n)]
    elif mode == "corners":
        pop = [[tc.pick([a, b]) for a, b in dims] for _ in range(n)]
    else:
        pop = [gen_point(tc, dims) for _ in range(n)]
        if mode == "duplicates":
            for i in range(n):
                if tc.chance(0.4):
                    pop[i] = list(pop[tc.draw(n - 1)])
    tc.label("pop-" + mode)
    return pop


def gen_params(tc, name, problem, default=None):
    """Constructor parameters of one algorithm beyond population, dims and fitnesses."""
    if default is None:
        default = tc.chance(0.3)
    d = len(problem.dims)
    if default:
        p = {"mutation_eta": 20.0, "crossover_eta": 30.0, "mutation_rate": 1.0 / d, "crossover_rate": 0.9}
        mating = 0.5
        kappa = 0.05
        jump = (0.6, 0.5)
    else:
        p = {
            "mutation_eta": tc.pick([20.0, 1.0, 5.0, 100.0]),
            "crossover_eta": tc.pick([30.0, 1.0, 10.0]),
            "mutation_rate": tc.pick([1.0 / d, 0.0, 0.5, 1.0]),
            "crossover_rate": tc.pick([0.9, 0.0, 0.5, 1.0]),
        }
        mating = tc.pick([0.5, 0.25, 1.0])
        kappa = tc.pick([0.05, 0.5])
        jump = tc.pick([(0.6, 0.5), (1.0, 0.5), (0.3, 0.25)])
    if name in ("NSGAII", "JGBL", "IBEA"):
        p["mating_population_size"] = mating
    if name == "JGBL":
        p["jumping_rate"], p["jumping_percentage"] = jump
    if name == "IBEA":
        p["kappa"] = kappa
    if name == "SMSEMOA":
        p["reference_point"] = tuple(200.0 for _ in problem.fns)
        if not default:
            p["epoch_length_multiplier"] = tc.pick([0.5, 0.25, 1.0])
    if name == "NSLS" and not default:
        p["local_search_mu"] = tc.pick([0.5, 0.1])
        p["local_search_sigma"] = tc.pick([0.5, 0.1])
    if name == "OMOPSO" and not default:
        p["mutation_probability"] = tc.pick([0.05, 0.0, 1.0])
        p["mutation_perturbation"] = tc.pick([0.5, 5.0])
    return p


def algorithm_class(name):
    return factory.prepare_algorithm_class(name)


def build(name, problem, population, params, **extra):
    kw = dict(params)
    kw.update(extra)
    return algorithm_class(name)(population=population, dims=problem.dims, fitnesses=problem.fitnesses, **kw)


class quiet:
    """Some steps print progress; keep the worker logs small."""

    def __enter__(self):
        self.r = redirect_stdout(io.StringIO())
        self.r.__enter__()

    def __exit__(self, *a):
        return self.r.__exit__(*a)


def trim_bits(bits):
    """Reference truncation of the mantissa to `bits` digits after the leading one (towards zero)."""
    bits += 1

    def one(v):
        if v == 0 or not math.isfinite(v):
            return v
        m, e = math.frexp(v)
        return math.ldexp(math.trunc(m * 2.0 ** bits) / 2.0 ** bits, e) if bits < 53 else v

    return lambda x: [one(v) for v in x]
