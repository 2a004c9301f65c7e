import contextlib
import io
import math
import multiprocessing
import random
import re

from pbt.engine import Suite
from checks.common import *
from checks import trees as T
from simulation import model, serialization
from simulation.model import SimulationCase
from simulation.serializer import Serializer, Result
from statistic import stats
from statistic.stats_bootstrap import bootstrap, yield_analysis

suite = Suite(
    "C18",
    "samples of 1-40 numbers (integers with ties, floats of many magnitudes, constants, injected outliers, negative values) and "
    "bootstrap sizes 1-400; non-trivial = at least three distinct values",
    ["samples are finite", "interval quantiles are tested at 1e-9 significance", "resamples are two thirds (0.66) of the sample, at least one"],
)


def gen_sample(tc, hi=40):
    mode = tc.draw(5)
    if tc.chance(0.02):
        tc.label("large")
        hi = 400
    if mode == 0:
        xs = [float(tc.int(-6, 12)) for _ in range(tc.small(1, hi))]
    elif mode == 1:
        v = tc.pick([0.1, 0.3, 1.1, 1e-9, 12345.678, 1 / 3.0, 0.0, -2.7])
        xs = [v] * tc.small(1, hi)
    elif mode == 2:
        xs = [tc.float(-50.0, 50.0) for _ in range(tc.small(1, hi))]
    elif mode == 3:
        s = tc.pick([1e-12, 1e-3, 1e6, 1e12])
        xs = [s * tc.float(0.0, 1.0) for _ in range(tc.small(1, hi))]
    elif mode == 4:
        xs = [1.0 + tc.draw(8) / 64.0 for _ in range(tc.int(4, hi))]
        for _ in range(tc.small(1, 3)):
            xs[tc.draw(len(xs) - 1)] = tc.pick([2.0, 3.0, -4.0, 100.0, -1e3])
    else:
        v = tc.float(0.0, 3.0)
        xs = [v] * tc.int(8, hi)
        xs[tc.draw(len(xs) - 1)] = v + tc.pick([1.0, -1.0, 50.0])
    return tc.shuffled(xs) if tc.chance(0.3) else xs


def percentile(xs, q):
    ys = sorted(xs)
    r = (len(ys) - 1) * q
    i = int(math.floor(r))
    j = min(i + 1, len(ys) - 1)
    return ys[i] + (ys[j] - ys[i]) * (r - i)


def share(text):
    return 0.0 if text.strip() == "--" else float(text.strip().rstrip("%"))


def near(a, b, scale):
    return (a == b) or abs(a - b) <= 1e-9 * max(scale, 1e-300)


@suite.test(quick=6000, thorough=100000, rule="every field of the summary against its definition")
def summary(tc):
    xs = gen_sample(tc)
    boot = tc.pick([1, 2, 10, 40, 100])
    tc.seed()
    tc.note(sample=xs, bootstrap=boot)
    tc.nontrivial(len(set(xs)) > 2)
    keep = list(xs)
    a = yield_analysis(xs, boot)
    tc.check(xs == keep, "the sample was modified")
    n = len(xs)
    scale = max(abs(x) for x in xs)
    mean = math.fsum(xs) / n
    var = math.fsum((x - mean) ** 2 for x in xs) / n
    sd = math.sqrt(var)
    q1, q3 = percentile(xs, 0.25), percentile(xs, 0.75)
    iq = q3 - q1
    fences = {"low_inn_fence": q1 - 1.5 * iq, "upp_inn_fence": q3 + 1.5 * iq, "low_out_fence": q1 - 3 * iq, "upp_out_fence": q3 + 3 * iq}
    for k, v in fences.items():
        tc.check(near(a[k], v, scale), lambda: "%s is %r, want %r" % (k, a[k], v))
    tc.check(near(a["mean"], mean, scale) and near(a["btstrpd"]["metrics"], mean, scale), lambda: "mean %r / %r, want %r" % (a["mean"], a["btstrpd"]["metrics"], mean))
    tc.check(near(a["stdev"], sd, scale), lambda: "deviation %r, want %r" % (a["stdev"], sd))
    tc.check(near(a["lower"], mean - 3 * sd, scale) and near(a["upper"], mean + 3 * sd, scale), lambda: "bounds %r, %r" % (a["lower"], a["upper"]))
    # outliers: values that sit on a fence (up to rounding) may fall either way
    eps = 1e-9 * max(scale, 1e-300)

    def outside(lo, hi, strict):
        return sum(1 for x in xs if (x < lo - eps or x > hi + eps) or (not strict and (x < lo + eps or x > hi - eps)))

    constant = len(set(xs)) == 1
    if constant:
        tc.label("constant")
        tc.check(a["extr_outliers"].strip() == "--" and a["mild_outliers"].strip() == "--", lambda: "equal values are reported as outliers: %r mild, %r extreme" % (a["mild_outliers"], a["extr_outliers"]))
        tc.check(near(a["metrics_nooutliers"], mean, scale), lambda: "mean without outliers %r of a constant sample" % a["metrics_nooutliers"])
    elif iq > eps:
        e_lo, e_hi = outside(fences["low_out_fence"], fences["upp_out_fence"], True), outside(fences["low_out_fence"], fences["upp_out_fence"], False)
        m_lo, m_hi = outside(fences["low_inn_fence"], fences["upp_inn_fence"], True), outside(fences["low_inn_fence"], fences["upp_inn_fence"], False)
        extr, mild = share(a["extr_outliers"]), share(a["mild_outliers"])
        if e_lo == e_hi and m_lo == m_hi:
            tc.label("outliers" if m_lo else "no-outliers")
            tc.check(abs(extr - 100.0 * e_lo / n) < 0.006, lambda: "extreme outliers %r, want %d of %d" % (a["extr_outliers"], e_lo, n))
            tc.check(abs(mild - 100.0 * (m_lo - e_lo) / n) < 0.006, lambda: "mild outliers %r, want %d of %d" % (a["mild_outliers"], m_lo - e_lo, n))
            kept = [x for x in xs if fences["low_inn_fence"] - eps <= x <= fences["upp_inn_fence"] + eps]
            mk = math.fsum(kept) / len(kept)
            sk = math.sqrt(math.fsum((x - mk) ** 2 for x in kept) / len(kept))
            tc.check(near(a["metrics_nooutliers"], mk, scale), lambda: "mean without outliers %r, want %r" % (a["metrics_nooutliers"], mk))
            tc.check(near(a["stdev_nooutliers"], sk, scale), lambda: "deviation without outliers %r, want %r" % (a["stdev_nooutliers"], sk))
            if abs(mean) > 1e-6 * scale:
                tc.check(near(a["mean_nooutliers_diff"], 100.0 * (mk - mean) / mean, 1e4 + abs(100 * mk / mean)), lambda: "mean difference %r" % a["mean_nooutliers_diff"])
            if sd > 1e-6 * scale:
                tc.check(near(a["stdev_nooutliers_diff"], 100.0 * (sk - sd) / sd, 1e4), lambda: "deviation difference %r" % a["stdev_nooutliers_diff"])
    # 3-sigma verdict, unless a value sits on the bound
    inside_lo = sum(1 for x in xs if mean - 3 * sd + eps <= x <= mean + 3 * sd - eps)
    inside_hi = sum(1 for x in xs if mean - 3 * sd - eps <= x <= mean + 3 * sd + eps)
    if inside_lo == inside_hi:
        good = inside_lo >= 0.95 * n
        tc.label("good" if good else "suspicious")
        tc.check((a["goodbench"] == "✓") == good, lambda: "%d of %d values lie within three deviations, verdict %r" % (inside_lo, n, a["goodbench"]))
    b = a["btstrpd"]
    lo, hi = b["from"], b["to"]
    tc.check(math.isfinite(lo) and math.isfinite(hi) and lo <= hi, lambda: "interval [%r, %r]" % (lo, hi))
    tc.check(min(xs) - eps <= lo and hi <= max(xs) + eps, lambda: "interval [%r, %r] leaves the sample's range [%r, %r]" % (lo, hi, min(xs), max(xs)))
    tc.check(abs(b["confidence"] - 95.0) < 1e-9, lambda: "confidence %r" % b["confidence"])
    if abs(mean) > 1e-6 * scale:
        d = 100.0 * (hi - lo) / mean
        tc.check(near(a["pr_dispersion"], d, max(1.0, abs(d)) * 1e3), lambda: "relative interval %r, want %r" % (a["pr_dispersion"], d))
        if abs(abs(d) - 30) > 1e-6:
            tc.check((a["dispersion_warn"].strip() == "HIGH") == (abs(d) > 30), lambda: "dispersion %r, warning %r" % (d, a["dispersion_warn"]))


def sums_distribution(xs, k):
    """Probability of each sum of k draws with replacement from an integer sample."""
    dist = {0: 1.0}
    p = 1.0 / len(xs)
    for _ in range(k):
        new = {}
        for s, q in dist.items():
            for x in xs:
                new[s + x] = new.get(s + x, 0.0) + q * p
        dist = new
    return dist


def binom_tail(n, p, lo, hi):
    """P(lo <= Binomial(n, p) <= hi)."""
    if p <= 0.0:
        return 1.0 if lo <= 0 else 0.0
    if p >= 1.0:
        return 1.0 if hi >= n else 0.0
    t = 0.0
    for i in range(max(lo, 0), min(hi, n) + 1):
        t += math.exp(math.lgamma(n + 1) - math.lgamma(i + 1) - math.lgamma(n - i + 1) + i * math.log(p) + (n - i) * math.log1p(-p))
    return t


@suite.test(quick=600, thorough=8000, rule="interval bounds against the exact distribution of resample means")
def interval(tc):
    xs = [tc.int(-3, 15) for _ in range(tc.int(2, 18))]
    direct = tc.bool()
    boot = tc.pick([40, 200, 400, 1000])
    if direct:
        k, alpha = tc.int(1, 12), tc.pick([0.025, 0.05, 0.25, 0.1])
    else:
        k, alpha = max(1, int(len(xs) * 0.66)), 0.025
    tc.seed()
    tc.note(sample=xs, bootstrap=boot, size=k, alpha=alpha)
    tc.nontrivial(len(set(xs)) > 2)
    if direct:
        b = bootstrap(xs, lambda v: sum(v) / len(v), boot, k, alpha)
    else:
        b = yield_analysis(xs, boot)["btstrpd"]
    dist = sums_distribution(xs, k)
    tc.check(abs(sum(xs) / len(xs) - b["metrics"]) < 1e-9, lambda: "central value %r" % b["metrics"])
    tc.check(abs(b["confidence"] - 100.0 * (1 - 2 * alpha)) < 1e-9, lambda: "confidence %r for alpha %r" % (b["confidence"], alpha))
    for name, i in (("from", int(boot * alpha)), ("to", int(boot * (1 - alpha)))):
        v = b[name] * k
        s = int(round(v))
        tc.check(abs(v - s) < 1e-6 and s in dist, lambda: "%s = %r is not the mean of %d values of the sample" % (name, b[name], k))
        below = sum(q for t, q in dist.items() if t < s)
        upto = sum(q for t, q in dist.items() if t <= s)
        # at most i resamples lie strictly below, at least i + 1 at or below; one rank of slack
        p1 = binom_tail(boot, below, 0, i + 1)
        p2 = binom_tail(boot, upto, i, boot)
        tc.check(p1 > 1e-9 and p2 > 1e-9, lambda: "%s = %r is the %.4f..%.4f quantile, rank %d of %d" % (name, b[name], below, upto, i, boot))


class Inline:
    """Stands in for the process pool."""

    def __init__(self, n=None):
        pass

    def map(self, fn, xs, chunksize=1):
        return [fn(x) for x in xs]

    def close(self):
        pass

    def join(self):
        pass


@suite.test(quick=160, thorough=2000, cpu=200, rule="printed report: one line per metric with count, interval and mean; values outside three deviations flagged")
def report(tc):
    top, cwd = T.working_directory(tc)
    root = (cwd / serialization.RESULTS_DIR).resolve()
    root.mkdir(parents=True)
    import problems.ZDT1.problem as z1
    full = z1.pareto_front
    z1.pareto_front = list(full)[::max(1, len(full) // 8)]
    tc.defer(lambda: setattr(z1, "pareto_front", full))
    old = multiprocessing.Pool
    multiprocessing.Pool = Inline
    tc.defer(lambda: setattr(multiprocessing, "Pool", old))
    want = {}
    flat = tc.chance(0.5)
    for algo in tc.subset(["NSGAII", "IBEA"], 0.7) or ["NSGAII"]:
        n = tc.int(14, 24) if flat else tc.small(1, 6)
        costs = []
        for r in range(n):
            c = SimulationCase("ZDT1", algo, r, None, str(root), model.get_simulation_id(r or 1, T.gen_date(tc, r)))
            cost = 500.0 + tc.draw(3) if not (flat and r == n - 1) else tc.pick([501.0, 9000.0, 800.0])
            Serializer(c).store(Result([[0.0]], [[1.0 + tc.draw(3), 2.0]], cost=cost), "500")
            costs.append(cost)
        want[algo] = costs
    tc.note(costs=want)
    tc.nontrivial(True)
    tc.seed()
    out = io.StringIO()
    with contextlib.redirect_stdout(out):
        stats.statistics({"--bootstrap": "20", "-j": "2", "--dir": str(root)})
    text = out.getvalue()
    seen = {}
    current = None
    for line in text.splitlines():
        parts = [p.strip() for p in line.split("::")]
        m = re.match(r"\s*(\S+)\s+≤\s+(\S+)\s+≤\s+(\S+)\s*$", parts[6]) if len(parts) > 8 else None
        if m:
            current = (parts[1 - 1].strip(), parts[1], parts[4])
            seen[current] = (parts[2], parts[3], [float(v) for v in m.groups()], parts[5])
        elif current and "out of mean" in line or (current and "= avg" in line):
            pass
    metrics = ["cost", "gd", "igd", "ahd", "epsilon", "extent", "spacing", "ndr", "hypervolume", "pdi"]
    tc.check(set(seen) == set(("ZDT1", a, m) for a in want for m in metrics), lambda: "reported %r for algorithms %r" % (sorted(seen), sorted(want)))
    for a, costs in want.items():
        cnt, budget, (lo, mid, hi), ok = seen[("ZDT1", a, "cost")]
        mean = sum(costs) / len(costs)
        tc.check(cnt == str(len(costs)) and budget == "500", lambda: "%s: %s results at budget %s, stored %d at 500" % (a, cnt, budget, len(costs)))
        tc.check(abs(mid - mean) < 1e-3, lambda: "%s: mean cost %r, want %r" % (a, mid, mean))
        tc.check(min(costs) - 1e-3 <= lo <= hi <= max(costs) + 1e-3, lambda: "%s: cost interval %r..%r" % (a, lo, hi))
    # flagged values of suspicious cost samples
    sections = re.split(r"(?m)^ *ZDT1", text)
    for sec in sections[1:]:
        head = sec.splitlines()[0]
        if ":: cost" not in head.replace("  ", " ") and not re.search(r"::\s+cost\s+::", head):
            continue
        algo = head.split("::")[1].strip()
        costs = want[algo]
        mean = sum(costs) / len(costs)
        sd = math.sqrt(sum((x - mean) ** 2 for x in costs) / len(costs))
        for line in sec.splitlines()[1:]:
            m = re.match(r"\s*::\s+(\S+)\s+= avg", line)
            if m:
                tc.label("suspicious")
                x = float(m.group(1))
                out_of = abs(x - mean) > 3 * sd
                if abs(abs(x - mean) - 3 * sd) > 1e-6:
                    tc.check(("out of mean" in line) == out_of, lambda: "value %r (mean %r, deviation %r): %r" % (x, mean, sd, line.strip()))
