"""Generated result trees in a scratch directory."""
import os
import shutil
import tempfile
from pathlib import Path

from pbt.engine import REPO
from simulation import model
from simulation.model import SimulationCase
from simulation.serializer import Serializer, Result


def scratch(tc):
    """A fresh directory for this case, removed afterwards."""
    d = tempfile.mkdtemp(prefix="case-", dir=os.getcwd())
    tc.defer(lambda: shutil.rmtree(d, ignore_errors=True))
    return Path(d)


def enter(tc, path):
    old = os.getcwd()
    tc.defer(lambda: os.chdir(old))
    os.chdir(str(path))


def working_directory(tc):
    """A fresh working directory in which the default result directory is private to the case."""
    top = scratch(tc)
    cwd = top / "cwd"
    cwd.mkdir()
    (cwd / "problems").symlink_to(os.path.join(REPO, "problems"))
    enter(tc, cwd)
    return top, cwd


def snapshot(root):
    out = {}
    for base, dirs, files in os.walk(str(root)):
        for f in files:
            p = os.path.join(base, f)
            with open(p, "rb") as fh:
                out[os.path.relpath(p, str(root))] = fh.read()
        for d in dirs:
            out[os.path.relpath(os.path.join(base, d), str(root)) + os.sep] = None
    return out


def gen_date(tc, k):
    """Distinct, not generated in increasing order."""
    return "20%02d-%02d-%02d.%02d%02d%02d.%06d" % (tc.int(10, 30), tc.int(1, 12), tc.int(1, 28), tc.int(0, 23), tc.int(0, 59), tc.int(0, 59), k)


def gen_number(tc):
    return tc.pick([0, 5, 40, 500, 1000, 1500, 9500, 10000, 99, 100]) if tc.chance(0.7) else tc.size(0, 20000, 10 ** 12, 0.1)


def gen_value(tc):
    return tc.pick([0.0, 1.0, -1.5, 0.1, 1e-9, 1e300, -0.0, 5e-324, -1e300, 1 / 3.0]) if tc.chance(0.4) else tc.float(-50.0, 50.0)


def gen_result(tc, nobj=2):
    n = tc.small(0, 5) if not tc.chance(0.01) else tc.int(6, 120)
    if tc.chance(0.2):
        nobj = tc.pick([1, 3, 5])
    pop = [[gen_value(tc) for _ in range(3)] for _ in range(n)]
    fit = [[gen_value(tc) for _ in range(nobj)] for _ in range(n)]
    return pop, fit, tc.pick([0, 64, 1e3, 512.5, 10 ** 15 + 1, 0.1 + 0.2])


JUNK_FILES = ["notes.txt", "500.hypervolume.pickle", "x500.pickle", "500.pickle.bak", "500", "500.pickl", "5 0.pickle", "-5.pickle",
              "5.5.pickle", ".pickle", "500.pareto_dominance_indicator.pickle", "500_pickle", "500-pickle", "1e3.pickle"]
JUNK_RUNS = ["backup", "2020-01-01", "2020-01-01.000000.000000__123", "2020-01-01.000000.000000__00000001", "x2020-01-01.000000.000000__0000001",
             "2020-01-01.000000.000000__0000001.old", "2020-1-1.000000.000000__0000001"]
ALGOS = ["NSGAII", "SPEA2", "HGS+SPEA2", "IMGA+NSGAII", "IBEA"]


def gen_tree(tc, root, problems, junk=True, numbers=None):
    """Stores a generated tree; returns {(problem, algo): {run dir name: {number: (pop, fit, cost)}}}."""
    want = {}
    k = 0
    for problem in tc.subset(problems, 0.6) or [problems[0]]:
        for algo in tc.subset(ALGOS, 0.4) or [ALGOS[0]]:
            runs = {}
            for _ in range(tc.small(1, 4) if not tc.chance(0.03) else tc.int(9, 26)):
                k += 1
                run_id = tc.pick([0, 1, 7, 1234567]) or tc.int(1000000, 9999999)
                case = SimulationCase(problem, algo, run_id, None, str(root), model.get_simulation_id(run_id, gen_date(tc, k)))
                stored = {}
                for _ in range(tc.small(0, 5) if not tc.chance(0.03) else tc.int(10, 24)):
                    num = tc.pick(numbers) if numbers else gen_number(tc)
                    pop, fit, cost = gen_result(tc)
                    Serializer(case).store(Result(pop, fit, cost=cost), str(num))
                    stored[num] = (pop, fit, cost)
                path = root / problem / algo / case.id
                if not stored:
                    path.mkdir(parents=True)
                runs[case.id] = stored
                if junk and tc.chance(0.4):
                    for name in tc.subset(JUNK_FILES, 0.3):
                        (path / name).write_bytes(b"not a result")
                    if tc.chance(0.3):
                        d = path / tc.pick(["77.pickle", "sub"])
                        if int(d.stem) not in stored if d.stem.isdigit() else True:
                            d.mkdir(exist_ok=True)
            want[(problem, algo)] = runs
            if junk and tc.chance(0.4):
                for name in tc.subset(JUNK_RUNS, 0.3):
                    d = root / problem / algo / name
                    d.mkdir()
                    if tc.bool():
                        Serializer(SimulationCase(problem, algo, 1, None, str(root), name)).store(Result([[1.0]], [[1.0, 1.0]], cost=1), "500")
                if tc.bool():
                    (root / problem / algo / "readme.txt").write_text("x")
        if junk and tc.chance(0.3):
            (root / problem / ("%s_notes" % problem)).write_text("x")
    return want
