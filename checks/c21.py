import contextlib
import io
import math
import os
import warnings
from pathlib import Path

from pbt.engine import Suite
from checks.common import *
from checks import trees as T
from checks.c17 import reference
from checks.c19 import BEST, thin, mean_metrics, acceptable_budget
from simulation import model
from simulation.model import SimulationCase
from simulation.serializer import Serializer, Result

with warnings.catch_warnings(), contextlib.redirect_stdout(io.StringIO()):
    warnings.simplefilter("ignore")
    import matplotlib.figure
    import plots.pictures as pictures
    import plots.best_fronts as best_fronts
    import plots.violin as violin

suite = Suite(
    "C21",
    "result trees of 1-3 problems (two- and three-objective), 1-5 algorithms (some of them without a plot style), 1-4 runs and "
    "1-4 checkpoints, drawn by each plotting command into recorded figures; non-trivial = a result that must not be drawn "
    "or checkpoints that differ between algorithms",
    ["figures are captured when saved; colours, markers and legends' layout are not judged", "scores within 1e-9 are taken as equal"],
)

ALGOS = ["NSGAII", "HGS+IBEA", "IMGA+OMOPSO", "DHGS+NSGAIII", "JGBL", "SPEA2", "HGS+SMSEMOA", "IMGA+SPEA2"]
ORDER = list(pictures.algos_order)


def capture(tc):
    """Replaces saving of figures by recording; {file name without extension: [figure]}."""
    saved = {}
    orig = matplotlib.figure.Figure.savefig

    def record(self, fname, *args, **kwargs):
        p = Path(str(fname))
        saved.setdefault(p.stem, []).append((p, snapshot(self)))
        p.write_bytes(b"figure")

    matplotlib.figure.Figure.savefig = record
    tc.defer(lambda: setattr(matplotlib.figure.Figure, "savefig", orig))
    tc.defer(lambda: matplotlib.pyplot.close("all"))
    return saved


def snapshot(fig):
    out = []
    for ax in fig.axes:
        lines = []
        for l in ax.lines:
            xyz = getattr(l, "_verts3d", None)
            data = [list(map(float, c)) for c in (xyz if xyz is not None else (l.get_xdata(), l.get_ydata()))]
            lines.append((str(l.get_label()), list(zip(*data))))
        dots, segments = [], []
        for c in ax.collections:
            off = getattr(c, "_offsets3d", None)
            if off is not None:
                dots.append((str(c.get_label()), list(zip(*[[float(v) for v in o] for o in off]))))
            elif hasattr(c, "get_segments"):
                segments += [[tuple(map(float, p)) for p in s] for s in c.get_segments()]
            else:
                dots.append((str(c.get_label()), [tuple(map(float, o)) for o in c.get_offsets()]))
        out.append(dict(lines=lines, dots=dots, segments=segments, xlim=tuple(map(float, ax.get_xlim())), ylim=tuple(map(float, ax.get_ylim())),
                        ticks=[float(t) for t in ax.get_xticks()], labels=[t.get_text() for t in ax.get_xticklabels()]))
    return out


def gen_results(tc, root, problems, numbers, same=True, over=(0,), nobj={}, algos=5, runs=(1, 4)):
    """{(problem, algo): {number: [(fit, cost)] by run number}}"""
    root.mkdir(parents=True)
    out = {}
    serial = 0
    for problem in problems:
        for algo in tc.shuffled(ALGOS)[:tc.int(1, algos)]:
            mine = numbers if same else sorted(tc.subset(numbers, 0.7)) or numbers[:1]
            rids = []
            for _ in range(tc.small(*runs) if not tc.chance(0.02) else tc.int(9, 13)):
                serial += 1
                rids.append(model.get_simulation_id(serial, T.gen_date(tc, serial)))
            data = {}
            for b in mine:
                extra = tc.pick(list(over))
                per = {}
                for rid in rids:
                    fit = [[tc.pick([0.0, 0.5, 1.0, 1.5, 3.0]) + tc.draw(8) / 64.0 for _ in range(nobj.get(problem, 2))] for _ in range(tc.small(1, 4))]
                    Serializer(SimulationCase(problem, algo, 1, None, str(root), rid)).store(Result([[0.0] for _ in fit], fit, cost=b + extra), str(b))
                    per[rid] = (fit, b + extra)
                data[b] = [per[r] for r in sorted(per)]
            out[(problem, algo)] = data
    return out


def draw(tc, fn, root, plots_dir, **more):
    saved = capture(tc)
    before = T.snapshot(root)
    args = {"--bootstrap": "3", "--dir": str(root), "-o": str(plots_dir)}
    args.update(more)
    tc.seed()
    with contextlib.redirect_stdout(io.StringIO()), warnings.catch_warnings():
        warnings.simplefilter("ignore")
        fn(args)
    after = T.snapshot(root)
    tc.check(all(after.get(k) == v for k, v in before.items()), "plotting changed the stored results")
    for stem, figs in saved.items():
        for p, _ in figs:
            tc.check(Path(str(plots_dir)) in p.parents, lambda: "figure saved to %s, not below %s" % (p, plots_dir))
    return saved


def one_figure(tc, saved, stem):
    figs = saved.get(stem)
    tc.check(figs, lambda: "no figure %s, saved: %r" % (stem, sorted(saved)))
    content = [[(ax["lines"], ax["dots"], ax["segments"]) for ax in f] for _, f in figs]
    tc.check(all(repr(c) == repr(content[0]) for c in content), lambda: "%s: its files show different figures" % stem)
    return figs[0][1]


def same_points(a, b):
    return len(a) == len(b) and all(len(p) == len(q) and all(close(x, y) for x, y in zip(p, q)) for p, q in zip(a, b))


@suite.test(quick=60, thorough=900, cpu=200, rule="pictures: mean of every metric at every time mark, one line per algorithm")
def over_time(tc):
    top = T.scratch(tc)
    problems = ["ZDT1", "UF8"][:tc.int(1, 2)]
    mods = thin(tc, problems)
    marks = sorted(tc.subset([1, 2, 5, 9, 10, 30, 100], 0.5)) or [1]
    results = gen_results(tc, top / "results", problems, marks, same=False, nobj={"UF8": 3}) if not tc.chance(0.05) else (top / "results").mkdir() or {}
    tc.note(results={"%s/%s" % k: v for k, v in results.items()})
    saved = draw(tc, pictures.pictures_time, top / "results", top / "plots")
    tc.nontrivial(any(a not in ORDER for _, a in results) or len(set(map(tuple, results.values()))) > 1)
    want = {}
    for (p, a), data in results.items():
        if a in ORDER:
            for t in sorted(data):
                for k, v in mean_metrics(results, mods, p, a, t).items():
                    if k in BEST:
                        want.setdefault((p, k), {}).setdefault(a, []).append((t, v))
    stems = {s for s in saved if "legend" not in s}
    tc.check(stems == {"figures_metrics_%s_%s" % k for k in want}, lambda: "figures %r, want %r" % (sorted(stems), sorted(want)))
    for (p, k), algos in want.items():
        axes = one_figure(tc, saved, "figures_metrics_%s_%s" % (p, k))
        lines = {l: xy for ax in axes for l, xy in ax["lines"]}
        tc.check(set(lines) == set(algos), lambda: "%s, %s: lines for %r, want %r" % (p, k, sorted(lines), sorted(algos)))
        for a in algos:
            tc.check(same_points(lines[a], algos[a]), lambda: "%s, %s, %s: drawn %r, want %r" % (p, k, a, lines[a], algos[a]))
        lo, hi = axes[0]["xlim"]
        tc.check(lo <= 0 and hi >= max(t for xy in algos.values() for t, _ in xy), lambda: "%s, %s: the time axis %r cuts off the marks of %r" % (p, k, axes[0]["xlim"], algos))


def acceptable(results, p, a):
    b = acceptable_budget(results[(p, a)])
    return b


@suite.test(quick=60, thorough=900, cpu=200, rule="pictures_summary: normalised score of the acceptable result, per metric, algorithm and problem")
def summary(tc):
    top = T.scratch(tc)
    problems = ["ZDT1", "ZDT3", "UF8"][:tc.int(1, 3)]
    mods = thin(tc, problems)
    budgets = sorted(tc.subset([500, 1500, 2500], 0.6)) or [500]
    results = gen_results(tc, top / "results", problems, budgets, nobj={"UF8": 3}, over=(0, 0, 300, 600, 1500))
    selected = tc.subset(ORDER, 0.2)
    tc.note(results={"%s/%s" % k: v for k, v in results.items()}, selected=selected)
    saved = draw(tc, pictures.pictures_summary, top / "results", top / "plots", **{"--selected": ",".join(selected)})
    raw = {}
    for (p, a) in results:
        b = acceptable(results, p, a)
        tc.nontrivial(b != max(results[(p, a)]))
        if b is not None:
            for k, v in mean_metrics(results, mods, p, a, b).items():
                if k in BEST:
                    raw.setdefault(k, {}).setdefault(p, {})[a] = math.log(abs(v) + 1.0)
    tc.check(set(saved) == {"figures_summary_%s" % k for k in raw}, lambda: "figures %r, want %r" % (sorted(saved), sorted(raw)))
    labels = [p for p in pictures.problems_order if p in problems]
    for k, per in raw.items():
        axes = one_figure(tc, saved, "figures_summary_%s" % k)
        want = {}
        for i, p in enumerate(labels):
            sc = per.get(p, {})
            for a, v in sc.items():
                if a in ORDER:
                    want.setdefault(a, []).append((i, v if k == "pdi" else v / (max(sc.values()) + 0.0001)))
        dots = {}
        for l, xy in axes[0]["dots"]:
            dots.setdefault(l, []).extend(xy)
        dots = {a: xy for a, xy in dots.items() if xy}
        tc.check(set(dots) == set(want) and all(same_points(sorted(dots[a]), sorted(want[a])) for a in want), lambda: "%s: drawn %r, want %r" % (k, dots, want))
        lines = {l: xy for l, xy in axes[0]["lines"] if xy}
        tc.check(set(lines) == set(selected) & set(want), lambda: "%s: connected %r, want %r" % (k, sorted(lines), sorted(set(selected) & set(want))))
        for a in lines:
            tc.check(same_points(lines[a], want[a]), lambda: "%s: line of %s is %r, want %r" % (k, a, lines[a], want[a]))
        shown = {t: l for t, l in zip(axes[0]["ticks"], axes[0]["labels"])}
        tc.check(all(shown.get(float(i)) == p for i, p in enumerate(labels)), lambda: "%s: problems labelled %r, want %r" % (k, shown, labels))


@suite.test(quick=60, thorough=900, cpu=200, rule="best_fronts: reference front and the first run of every acceptable result")
def fronts(tc):
    top = T.scratch(tc)
    problems = tc.subset(["ZDT1", "ZDT3", "UF8", "UF6"], 0.5) or ["ZDT1"]
    import importlib
    mods = {p: importlib.import_module("problems.%s.problem" % p) for p in problems}
    budgets = sorted(tc.subset([500, 1500, 2500], 0.6)) or [500]
    results = gen_results(tc, top / "results", problems, budgets, nobj={"UF8": 3}, over=(0, 0, 300, 600, 1500))
    coloured = tc.bool()
    tc.note(results={"%s/%s" % k: v for k, v in results.items()}, coloured=coloured)
    saved = draw(tc, best_fronts.best_fronts_color_nondom if coloured else best_fronts.best_fronts, top / "results", top / "plots")
    chosen = {}
    for (p, a) in results:
        b = acceptable(results, p, a)
        tc.nontrivial(b != max(results[(p, a)]))
        if b is not None and a in pictures.algos:
            chosen.setdefault(p, {})[a] = results[(p, a)][b][0][0]
    expected = set(chosen) if coloured else set(problems)
    tc.check(set(saved) == {"figures_metrics_%s" % p for p in expected}, lambda: "figures %r, want %r" % (sorted(saved), sorted(expected)))
    for p in expected:
        axes = one_figure(tc, saved, "figures_metrics_%s" % p)
        guides = ([(0.0, 0.0), (1.0, 0.0)], [(0.0, 0.0), (0.0, 1.0)])
        ref = [xy for ax in axes for l, line in ax["lines"] for xy in line if line not in guides] + [xy for ax in axes for l, line in ax["dots"] for xy in line if l not in pictures.algos]
        want = set(tuple(map(float, x)) for x in mods[p].pareto_front)
        tc.check(set(ref) == want, lambda: "%s: reference front: missing %r, foreign %r" % (p, sorted(want - set(ref))[:3], sorted(set(ref) - want)[:3]))
        dots = {}
        for ax in axes:
            for l, xy in ax["dots"]:
                dots.setdefault(l, []).extend(xy)
        dots = {a: xy for a, xy in dots.items() if xy and a in pictures.algos}
        tc.check(set(dots) == set(chosen.get(p, {})), lambda: "%s: drawn %r, want %r" % (p, sorted(dots), sorted(chosen.get(p, {}))))
        for a, xy in dots.items():
            tc.check(multiset(xy) == multiset(tuple(x) for x in chosen[p][a]), lambda: "%s, %s: drawn %r, want %r" % (p, a, xy, chosen[p][a]))


@suite.test(quick=60, thorough=900, cpu=200, rule="violin: every run's value of the acceptable result, one violin per algorithm")
def violins(tc):
    top = T.scratch(tc)
    problems = ["ZDT1", "UF8"][:tc.int(1, 2)]
    mods = thin(tc, problems)
    budgets = sorted(tc.subset([500, 1500, 2500], 0.6)) or [500]
    results = gen_results(tc, top / "results", problems, budgets, nobj={"UF8": 3}, over=(0, 0, 300, 600, 1500))
    tc.note(results={"%s/%s" % k: v for k, v in results.items()})
    saved = draw(tc, violin.violin, top / "results", top / "plots")
    want = {}
    for (p, a) in results:
        b = acceptable(results, p, a)
        tc.nontrivial(b != max(results[(p, a)]) or a not in ORDER)
        if b is not None and a in ORDER:
            for no, row in enumerate(results[(p, a)][b]):
                one = mean_metrics(results, mods, p, a, b, only=no)
                for k, v in one.items():
                    if k in BEST:
                        want.setdefault((p, k), {}).setdefault(a, []).append(v)
    want = {k: {a: vs for a, vs in per.items() if any(vs)} for k, per in want.items()}
    want = {k: per for k, per in want.items() if per}
    tc.check(set(saved) == {"figures_violin_%s_%s" % k for k in want}, lambda: "figures %r, want %r" % (sorted(saved), sorted(want)))
    for (p, k), per in want.items():
        axes = one_figure(tc, saved, "figures_violin_%s_%s" % (p, k))
        ax = axes[0]
        names = [a for a in ORDER if a in per]
        shown = {t: l for t, l in zip(ax["ticks"], ax["labels"])}
        tc.check([shown.get(float(i + 1)) for i in range(len(names))] == names, lambda: "%s, %s: labels %r, want %r" % (p, k, shown, names))
        for i, a in enumerate(names):
            marks = sorted(s[0][1] for s in ax["segments"] if abs((s[0][0] + s[1][0]) / 2 - i - 1) < 1e-6 and s[0][1] == s[1][1] and s[0][0] != s[1][0])
            vs = sorted(per[a])
            med = vs[len(vs) // 2] if len(vs) % 2 else (vs[len(vs) // 2 - 1] + vs[len(vs) // 2]) / 2
            exp = sorted([vs[0], vs[-1], sum(vs) / len(vs), med])
            tc.check(len(marks) == 4 and all(close(x, y, abs_=1e-7) for x, y in zip(marks, exp)), lambda: "%s, %s, %s: marks %r, want %r of %r" % (p, k, a, marks, exp, vs))


# -- statistics report ---------------------------------------------------------------------------------
def number(text):
    return float(text.replace("%", "").strip())


@suite.test(quick=60, thorough=800, cpu=200, rule="statistics: one row per algorithm, checkpoint and metric with mean, interval, deviation and outliers")
def statistics_report(tc):
    from statistic import stats
    from simulation import serialization
    top, cwd = T.working_directory(tc)
    problems = ["ZDT1", "UF8"][:tc.int(1, 2)]
    mods = thin(tc, problems)
    budgets = sorted(tc.subset([500, 1500, 2500], 0.5)) or [500]
    many = tc.chance(0.3)
    where, elsewhere = Path(serialization.RESULTS_DIR), top / "elsewhere"
    if tc.bool():
        where, elsewhere = elsewhere, where
        gen_results(tc, elsewhere.resolve(), problems, [500, 700], algos=2, nobj={"UF8": 3}, runs=(1, 2))
    results = gen_results(tc, where.resolve(), problems, budgets[:1] if many else budgets, same=False, nobj={"UF8": 3}, over=(0, 300),
                          algos=2 if many else 3, runs=(11, 14) if many else (1, 4))
    tc.note(results={"%s/%s" % k: v for k, v in results.items()})
    tc.seed()
    out = io.StringIO()
    with contextlib.redirect_stdout(out), warnings.catch_warnings():
        warnings.simplefilter("ignore")
        stats.statistics({"--bootstrap": "5", "-j": "1", "--dir": str(where)})
    rows = {}
    for line in out.getvalue().splitlines():
        c = [x.strip() for x in line.split("::")]
        if len(c) == 13 and c[0] in problems:
            key = (c[0], c[1], int(c[3]), c[4])
            tc.check(key not in rows, lambda: "two rows for %r" % (key,))
            rows[key] = c
    want = {}
    for (p, a), data in results.items():
        for b in data:
            for no in range(len(data[b])):
                for k, v in dict(mean_metrics(results, mods, p, a, b, only=no), cost=data[b][no][1]).items():
                    want.setdefault((p, a, b, k), []).append(float(v))
    tc.check({k[:3] for k in rows} == {k[:3] for k in want}, lambda: "rows for %r, want %r" % (sorted({k[:3] for k in rows}), sorted({k[:3] for k in want})))
    for key, vs in want.items():
        if key not in rows:
            tc.check(False, "no row for %r" % (key,))
        c = rows[key]
        mean = sum(vs) / len(vs)
        sd = math.sqrt(sum((v - mean) ** 2 for v in vs) / len(vs))
        lo, mid, hi = [number(x) for x in c[6].split("≤")]
        tc.nontrivial(sd > 0.01)
        tc.check(int(c[2]) == len(vs), lambda: "%r: %s runs, want %d" % (key, c[2], len(vs)))
        tc.check(abs(mid - mean) <= 0.000501 + 1e-9 * abs(mean), lambda: "%r: result %r, mean of %r" % (key, mid, vs))
        tc.check(min(vs) - 0.00051 <= lo <= hi <= max(vs) + 0.00051, lambda: "%r: interval [%r, %r] of %r" % (key, lo, hi, vs))
        tc.check(abs(number(c[7]) - sd) <= 0.000501 + 1e-9 * sd, lambda: "%r: deviation %s of %r" % (key, c[7], vs))
        inside = len([v for v in vs if abs(v - mean) <= 3 * sd])
        close_call = any(abs(abs(v - mean) - 3 * sd) < 1e-9 * max(1.0, abs(v)) for v in vs) if sd > 1e-12 else True
        if not close_call:
            tc.check((c[5] == "✓") == (inside >= 0.95 * len(vs)), lambda: "%r: marked %r, values %r" % (key, c[5], vs))
            tc.label("trusted" if c[5] == "✓" else "suspicious")
        s = sorted(vs)

        def quantile(q):
            x = q * (len(s) - 1)
            i = int(x)
            return s[i] + (x - i) * (s[min(i + 1, len(s) - 1)] - s[i])

        q1, q3 = quantile(0.25), quantile(0.75)
        iq = q3 - q1
        edges = [q1 - 1.5 * iq, q3 + 1.5 * iq, q1 - 3 * iq, q3 + 3 * iq]
        if any(abs(v - e) < 1e-9 * max(1.0, abs(v)) for v in vs for e in edges):
            continue  # on a fence
        far = len([v for v in vs if v < edges[2] or v > edges[3]])
        mild = len([v for v in vs if v < edges[0] or v > edges[1]]) - far
        kept = [v for v in vs if edges[0] <= v <= edges[1]]
        m = c[8].replace("extr.", "").split("mild")
        for text, n, what in zip(m, (mild, far), ("mild", "extreme")):
            tc.check((text.strip() == "--") if n == 0 else abs(number(text) - 100.0 * n / len(vs)) <= 0.00501, lambda: "%r: %s outliers %s, want %d of %d" % (key, what, text, n, len(vs)))
        tc.label("outliers" if mild + far else "no-outliers")
        inner = sum(kept) / len(kept)
        tc.check(abs(number(c[9].split("(")[0]) - inner) <= 0.000501 + 1e-9 * abs(inner), lambda: "%r: mean without outliers %s, want %r" % (key, c[9], inner))
