import re

from docopt import docopt

import evogil
from pbt.engine import Suite
from checks.common import *
from simulation import factory, run_config, worker, serialization, model

suite = Suite(
    "C13",
    "generated command lines (problem and algorithm filters in any letter case and order, with repeats and unknown "
    "names, 1-6 budgets in any order, -N, -j, --renice, -d) parsed by the program's own usage text; non-trivial = "
    "more than one problem or algorithm is selected, or N > 1",
    ["names given to -a and -p are separated by commas without spaces"],
)

ID = re.compile(r"\d{4}-\d{2}-\d{2}\.\d{6}\.\d{6}__\d{7}")


def mixed(tc, s):
    return tc.pick([s, s.lower(), s.upper(), s.swapcase()])


def gen_filter(tc, names):
    k = tc.small(1, 5)
    chosen = [tc.pick(names) for _ in range(k)]
    shown = [mixed(tc, c) for c in chosen]
    if tc.chance(0.15):
        shown.insert(tc.draw(len(shown)), tc.pick(["nosuch", "ZDT", "ZDT11", "IMGA", "+", ""]))
    return [n for n in names if n in chosen], ",".join(shown)


@suite.test(quick=2500, thorough=40000, rule="job list = selected problems x selected algorithms x repetitions")
def jobs(tc):
    argv = ["run"]
    timed = tc.chance(0.3)
    if timed:
        timeout, step = tc.size(1, 500, 10 ** 6), tc.size(1, 60, 10 ** 5)
        argv += ["time", tc.pick(["-t", "--timeout"]), str(timeout), tc.pick(["-s", "--step"]), str(step)]
    else:
        budgets = [tc.size(0, 20000, 10 ** 10, 0.05) for _ in range(tc.size(1, 6, 40))]
        argv += ["budget", ",".join(map(str, budgets))]
    probs, algos = list(run_config.problems), list(run_config.algorithms)
    if tc.chance(0.75):
        probs, text = gen_filter(tc, run_config.problems)
        argv += tc.pick([["-p", text], ["--problem", text], ["--problem=" + text]])
    if tc.chance(0.75):
        algos, text = gen_filter(tc, run_config.algorithms)
        argv += tc.pick([["-a", text], ["--algo", text], ["--algo=" + text]])
    n = 1
    if tc.chance(0.6):
        n = tc.size(0, 4, 40, 0.04) if len(probs) * len(algos) < 60 else 1
        argv += ["-N", str(n)]
    where = None
    if tc.chance(0.4):
        where = tc.pick(["out", "a/b", "/tmp/x"])
        argv += [tc.pick(["-d", "--dir"]), where]
    nice = None
    if tc.chance(0.3):
        nice = str(tc.int(0, 19))
        argv += ["--renice", nice]
    through_main = tc.chance(0.5)
    tc.note(argv=argv)
    args = docopt(evogil.__doc__, argv=argv)
    if through_main:
        evogil.set_default_options(args)
    kept = (list(run_config.problems), list(run_config.algorithms))
    cls, cases = factory.resolve_configuration(args)
    tc.check((run_config.problems, run_config.algorithms) == kept, "selecting jobs changed the lists of known problems or algorithms")
    tc.nontrivial(len(probs) * len(algos) > 1 or n > 1)
    tc.label("time" if timed else "budget")
    tc.check(cls is (worker.TimeWorker if timed else worker.BudgetWorker), lambda: "wrong kind of worker: %r" % cls)
    got = multiset([(c.problem_name, c.algorithm_name, int(c.run_id)) for c in cases])
    want = multiset([(p, a, r) for p in probs for a in algos for r in range(n)])
    tc.check(got == want, lambda: "jobs %r, want %r" % (short(got), short(want)))
    for c in cases:
        if timed:
            tc.check(c.params[factory.TIMEOUT_PARAM] == timeout and c.params[factory.SAMPLING_INTERVAL_PARAM] == step, lambda: "time bounds %r" % (c.params,))
        else:
            tc.check(list(c.params[factory.BUDGETS_PARAM]) == sorted(budgets), lambda: "budgets %r, given %r" % (c.params, budgets))
        tc.check(c.results_dir == (where or serialization.RESULTS_DIR), lambda: "results go to %r" % (c.results_dir,))
        tc.check(c.renice == nice, lambda: "renice %r" % (c.renice,))
        tc.check(ID.fullmatch(c.id), lambda: "run directory name %r is not what the loader reads" % (c.id,))
        tc.check(int(c.id.split("__")[1]) == int(c.run_id), lambda: "repetition %r is stored in directory %r" % (c.run_id, c.id))
    ids = [(c.problem_name, c.algorithm_name, c.id) for c in cases]
    tc.check(len(set(ids)) == len(ids), "two runs share one result directory")


def short(d):
    return list(d.items())[:12]


@suite.test(quick=3000, thorough=40000, rule="run identifiers keep their run number and stay distinct")
def identifiers(tc):
    runs = [tc.pick([0, 1, tc.int(0, 9999999)]) for _ in range(tc.size(1, 4, 60))]
    date = tc.pick([None, "2020-01-31.235959.000001", "1999-12-01.000000.999999"])
    tc.note(runs=runs, date=date)
    tc.nontrivial(len(runs) > 1)
    for r in runs:
        i = model.get_simulation_id(r, date)
        tc.check(ID.fullmatch(i), lambda: "identifier %r" % i)
        tc.check(int(i.split("__")[1]) == r, lambda: "run %d got identifier %r" % (r, i))
        if date:
            tc.check(i.startswith(date + "__"), lambda: "date %r got identifier %r" % (date, i))
        padded = i.split("__")[1]
        tc.check(model.get_simulation_id(padded, i.split("__")[0]) == i, lambda: "identifier %r is rebuilt as %r" % (i, model.get_simulation_id(padded, i.split("__")[0])))


COMMANDS = ["list", "summary", "stats", "statistics", "rank", "rank_details", "table", "pictures", "pictures_summary", "best_fronts", "violin", "run"]
WITH_OPTIONS = ["stats", "statistics", "pictures", "pictures_summary", "best_fronts", "violin"]


@suite.test(quick=70, thorough=900, cpu=200, rule="each command does what the function it is named after does on the selected or default directories")
def commands(tc):
    import contextlib
    import io
    import logging
    import random
    import sys
    import warnings
    from pathlib import Path
    from checks import c16, c21, trees as T, fakes as F
    from simulation import run_parallel
    from simulation.serializer import load_file
    import statistic.ranking
    import statistic.stats
    import statistic.summary
    top, cwd = T.working_directory(tc)
    problems = ["ZDT1", "ZDT3"][:tc.int(1, 2)]
    c21.thin(tc, problems)
    command = tc.pick(COMMANDS)
    trees = {}
    default = Path(serialization.RESULTS_DIR).resolve()
    for where in (default, top / "other"):
        trees[where] = c21.gen_results(tc, where, problems, sorted(tc.subset([500, 1500, 2500], 0.6)) or [500], runs=(1, 2), algos=3)
    for d in statistic.ranking.result_dirs:
        p = Path(d)
        (cwd / p).parent.mkdir(parents=True, exist_ok=True)
        if tc.chance(0.7) and not p.exists():
            p.symlink_to(default)
    argv = ["evogil.py", command]
    direct = {"--dir": serialization.RESULTS_DIR, "-o": c21.pictures.PLOTS_DIR, "--bootstrap": "10000", "-j": "4"}
    given = None
    if command == "run":
        return run_command(tc, top, default, c16, F, run_parallel, load_file)
    if command in WITH_OPTIONS:
        if tc.chance(0.7):
            given = top / "other"
            argv += tc.pick([["-d", str(given)], ["--dir", str(given)], ["--dir=" + str(given)]])
            direct["--dir"] = str(given)
        if tc.chance(0.5):
            direct["-o"] = str(top / "drawn")
            argv += ["-o", direct["-o"]]
        direct["--bootstrap"], direct["-j"] = "3", "1"
        argv += ["-b", "3", "-j", "1"]
        direct["--selected"] = "HGS+SPEA2,HGS+NSGAII,HGS+NSGAIII,HGS+IBEA,HGS+OMOPSO,HGS+SMSEMOA,HGS+JGBL,HGS+NSLS"
        if command == "pictures_summary" and tc.bool():
            direct["--selected"] = tc.pick(["NSGAII", "HGS+IBEA,JGBL"])
            argv += ["--selected", direct["--selected"]]
    tc.note(argv=argv, trees={str(k): {"%s/%s" % x: sorted(v) for x, v in t.items()} for k, t in trees.items()})
    tc.label(command)
    tc.nontrivial(given is not None)
    fn = {"summary": lambda a: statistic.summary.analyse_results(a), "stats": lambda a: statistic.stats.statistics(a), "statistics": lambda a: statistic.stats.statistics(a),
          "rank": lambda a: statistic.ranking.rank(a), "rank_details": lambda a: statistic.ranking.detailed_rank(a), "table": lambda a: statistic.ranking.table_rank(a),
          "pictures": lambda a: c21.pictures.pictures_time(a), "pictures_summary": lambda a: c21.pictures.pictures_summary(a),
          "best_fronts": lambda a: c21.best_fronts.best_fronts(a), "violin": lambda a: c21.violin.violin(a)}.get(command)

    def observe(action):
        saved = c21.capture(tc)
        random.seed(7)
        out = io.StringIO()
        with contextlib.redirect_stdout(out), warnings.catch_warnings():
            warnings.simplefilter("ignore")
            action()
        shown = {stem: sorted({(str(p.parent), repr([(a["lines"], a["dots"], a["segments"]) for a in axes])) for p, axes in figs}) for stem, figs in saved.items()}
        return out.getvalue(), shown

    def main():
        old, sys.argv = sys.argv, argv
        try:
            evogil.main_worker()
        finally:
            sys.argv = old

    if fn:
        observe(lambda: fn(direct))  # fills the metric caches, so that both compared runs find the same files
    text, figures = observe(main)
    if command == "list":
        lines = [l.strip() for l in text.splitlines() if l.strip()]
        names = [l for l in lines if not l.endswith(":")]
        tc.check(names == list(run_config.algorithms) + list(run_config.problems), lambda: "list shows %r" % (names,))
        return
    want_text, want_figures = observe(lambda: fn(direct))
    tc.check(sorted(figures) == sorted(want_figures), lambda: "%r saves figures %r, the command's own function %r" % (argv, sorted(figures), sorted(want_figures)))
    tc.check(figures == want_figures, lambda: "%r draws other figures than its function does for these options" % (argv,))
    if command == "summary":
        text, want_text = "\n".join(sorted(text.splitlines())), "\n".join(sorted(want_text.splitlines()))
    if command.startswith("stat"):
        # the interval's bounds are random
        text, want_text = [[[c.strip() for i, c in enumerate(l.split("::")) if i in (0, 1, 2, 3, 4, 7, 8, 9, 10)] for l in t.splitlines()] for t in (text, want_text)]
        tc.check(all(r[0] != "ZDT1" or len(r) == 9 for r in text), "rows of another shape")
    tc.check(text == want_text, lambda: "%r prints %r, its function %r" % (argv, text[:1500], want_text[:1500]))


def run_command(tc, top, default, c16, F, run_parallel, load_file):
    """The run command, from the command line to the stored checkpoints."""
    import logging
    import sys
    F.install_problem(tc, "FKP", [(0.0, 1.0)], [lambda x: x[0], lambda x: -x[0]], [[0.0, 0.0]])
    costs = [tc.int(1, 30) for _ in range(tc.int(1, 3))]

    class Scripted(F.FakeDriver):
        def __init__(self, **kw):
            super().__init__(costs=costs, pops=lambda g: [[float(g)]], **kw)

    names = ["FKA", "FKB"][:tc.int(1, 2)]
    for a in names:
        F.install_algorithm(tc, a, Scripted)
    saved = run_config.problems, run_config.algorithms, run_parallel.ActorSystem, logging.root.manager.disable
    tc.defer(lambda: (setattr(run_config, "problems", saved[0]), setattr(run_config, "algorithms", saved[1]), setattr(run_parallel, "ActorSystem", saved[2]), logging.disable(saved[3])))
    run_config.problems, run_config.algorithms = ["FKP"], names
    run_parallel.ActorSystem = c16.Actors
    c16.Actors.made = []
    budgets = [tc.int(0, 90) for _ in range(tc.size(1, 3, 20))]
    argv = ["evogil.py", "run", "budget", ",".join(map(str, budgets))]
    chosen = names
    if tc.bool():
        chosen = [tc.pick(names)]
        argv += ["-a", chosen[0]]
    n = 1
    if tc.bool():
        n = tc.size(1, 3, 14)
        argv += ["-N", str(n)]
    where = default
    if tc.bool():
        where = top / "stored"
        argv += ["-d", str(where)]
    tc.note(argv=argv, costs=costs)
    tc.label("run")
    tc.nontrivial(n > 1 or len(chosen) > 1)
    old, sys.argv = sys.argv, argv
    try:
        evogil.main_worker()
    finally:
        sys.argv = old
    want = {}
    cost = g = 0
    for b in sorted(budgets):
        while cost < b:
            cost += costs[g % len(costs)]
            g += 1
        want[b] = ([[float(g)]], [[float(g), -float(g)]], cost)
    got = {p.name: p for p in (where / "FKP").iterdir()} if (where / "FKP").exists() else {}
    tc.check(sorted(got) == sorted(chosen), lambda: "%r stored results of %r" % (argv, sorted(got)))
    other = top / "stored" if where == default else default
    tc.check(not (other / "FKP").exists(), lambda: "%r stored results below %s" % (argv, other))
    for a in chosen:
        dirs = sorted(got[a].iterdir())
        tc.check(len(dirs) == n, lambda: "%r stored %d repetitions" % (argv, len(dirs)))
        for d in dirs:
            files = {int(f.stem): load_file(f) for f in d.iterdir()}
            files = {b: (r.population, r.fitnesses, r.additional_data["cost"]) for b, r in files.items()}
            tc.check(files == want, lambda: "%r stored %r, want %r" % (argv, files, want))
