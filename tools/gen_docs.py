#!/usr/bin/env python3
"""Writes properties.jsonl and MANIFEST.json from the table below (run by hand after editing it)."""
import ast
import json
import os

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
P = []


def prop(id, title, statement, over, text, why, files, mech, note, observe=()):
    P.append((dict(id=id, title=title, statement=statement, quantifier=dict(over=over, text=text), why_tests_cant=why,
                   anchors=dict(files=files, mechanism=[dict(name=n, where=w) for n, w in mech], observe_at=list(observe))), note))


prop("C01", "Pareto dominance and non-dominated layering are exact",
     "One objective vector dominates another exactly when it is no worse in every objective and better in at least one; "
     "filtering a solution set returns exactly the vectors no member of the set dominates, and layering assigns each "
     "individual once, to the layer the definition gives it. A random initial population has the requested size and lies inside the search box, and "
     "a combined objective evaluates every objective in order.",
     ["inputs"], "all finite sets of objective vectors with any number of objectives, ties and duplicates included",
     "the tests check a few hand-written fronts; the claim is over every vector set, including ties and duplicates",
     ["evotools/ea_utils.py", "metrics/metrics_utils.py"],
     [("dominates, split_fronts/nondominated sort, gen_population", "evotools/ea_utils.py"), ("filter_not_dominated", "metrics/metrics_utils.py")],
     "Random search against the O(n^2) definitions on tens of thousands of vector sets per run; sizes up to 24 vectors and 5 objectives.")

prop("C02", "The hypervolume of a solution set is exact in any number of objectives",
     "The computed hypervolume is the volume of the region dominated by the set and bounded by the reference point: points beyond the "
     "reference point, dominated points, duplicates and the order of the points change nothing, adding a point never lowers "
     "it, and computing it does not alter the set. The hypervolume quality metric uses the reference point (50,...,50).",
     ["inputs"], "all finite point sets and reference points, one to five objectives in the search",
     "no test computes a hypervolume of generated sets; the exactness claim covers all point configurations, ties included",
     ["algorithms/base/hv.py", "metrics/metrics.py"],
     [("HyperVolume.compute, hv_recursive, MultiList", "algorithms/base/hv.py"), ("hypervolume", "metrics/metrics.py")],
     "Compared with an independent slicing algorithm and metamorphic laws, to 1e-9 relative.")

prop("C03", "Quality indicators equal their definitions",
     "For every solution set and reference front, generational distance, inverse generational distance, average Hausdorff distance, epsilon, extent, "
     "spacing and non-domination ratio equal their defining formulas, do not depend on the order of the points, and leave the "
     "solution set and reference front unchanged.",
     ["inputs"], "all non-empty finite solution sets and reference fronts",
     "the tests never evaluate an indicator on generated sets; the definitions quantify over all of them",
     ["metrics/metrics.py", "metrics/metrics_utils.py", "metrics/epsilon.py"],
     [("indicator functions", "metrics/metrics_utils.py"), ("Epsilon", "metrics/epsilon.py"), ("metric dispatch", "metrics/metrics.py")],
     "Compared with formulas written independently and with order and translation laws, to 1e-9 relative.")

prop("C04", "Variation operators respect the box, the parents and their distributions",
     "Mutation, recombination and delegate sampling always return vectors inside the search box, never modify the "
     "parents, and perturb each coordinate with the configured probability following bounded polynomial mutation and bounded simulated binary crossover with the "
     "configured distribution index; rate zero changes nothing and an active rate takes effect in every optimizer. A swarm's particles keep a damped share of their last move and are drawn to their own best and to "
     "a leader; jumping genes put genes of one parent into the other, in order. Reduced precision truncates each coordinate to the configured number of mantissa bits, idempotently.",
     ["inputs", "configurations"], "all boxes, parents inside them, rates, distribution indices, precisions and random states",
     "tests run a few fixed populations; the claim is over every parent pair, box and random stream, and is distributional",
     ["algorithms/base/drivertools.py", "algorithms/NSGAIII/NSGAIII.py", "algorithms/HGS/tools.py", "algorithms/OMOPSO/OMOPSO.py", "algorithms/JGBL/JGBL.py"],
     [("mutate, crossover, average_indiv, cross-over/mutation wrappers, rank/tournament helpers, delegate cloud, mantissa rounding", "algorithms/base/drivertools.py")],
     "Box and immutability laws on thousands of generated parents; distributions by 1500-draw tests at 1e-9 significance against the published formulas.")

prop("C05", "Optimizers always hold a valid population and never raise on valid input",
     "After any number of generations every optimizer reports a population of the promised size (archive-based ones: non-empty and within "
     "capacity) whose members lie inside the search box and, where reduced precision is configured, are exactly representable in it. Generations "
     "complete on every problem, including plateaus, constant, negative and already optimal objectives and an announced budget that is reached or passed, without raising and without modifying the caller's initial population.",
     ["inputs", "histories", "configurations"], "all problems, initial populations, parameter settings and numbers of generations",
     "tests run default populations on two or three problems; degenerate populations and plateaus are never reached",
     ["algorithms/NSGAII/NSGAII.py", "algorithms/SPEA2/SPEA2.py", "algorithms/IBEA/IBEA.py", "algorithms/OMOPSO/OMOPSO.py", "algorithms/NSGAIII/NSGAIII.py",
      "algorithms/JGBL/JGBL.py", "algorithms/SMSEMOA/SMSEMOA.py", "algorithms/NSLS/NSLS.py"],
     [("step, population setter, finalized_population of each driver", "algorithms/*/"), ("load_population, mantissa bits", "algorithms/base/drivertools.py")],
     "Random problems and populations of up to 14 members, 1-6 generations, plus the bundled problems through the platform configuration.")

prop("C06", "Reported cost equals the number of evaluated individuals",
     "The cost an optimizer reports is the number of individuals it has evaluated so far; it never decreases, is not changed by asking for "
     "the population, and an individual whose objectives are already known from a shared archive costs nothing. The random-search baseline costs one "
     "evaluation per step and keeps exactly the non-dominated part of everything it saw.",
     ["histories", "inputs"], "all problems, populations, settings and interleavings of generations and population queries",
     "budgets are compared in no test with a count of objective calls",
     ["algorithms/base/drivertools.py", "algorithms/SPEA2/SPEA2.py", "algorithms/SMSEMOA/SMSEMOA.py", "algorithms/OMOPSO/OMOPSO.py", "algorithms/IBEA/IBEA.py",
      "algorithms/NSGAII/NSGAII.py", "algorithms/NSGAIII/NSGAIII.py", "algorithms/NSLS/NSLS.py", "algorithms/JGBL/JGBL.py", "algorithms/BOGO/BOGO.py"],
     [("calculate_objectives / cost", "algorithms/*/")],
     "Every objective call is counted by the generated problem; cost must match after every generation.")

prop("C07", "Survivor selection keeps the better candidates in every optimizer",
     "In every generation each optimizer keeps the survivors its published rule keeps from parents and offspring: whole better "
     "non-dominated layers before worse ones, then its own secondary criterion (crowding, indicator fitness, smallest hypervolume contribution, strength and density, reference-point distance); nothing "
     "is lost, invented or duplicated. Archives handed out as results are mutually non-dominated where promised and consist of solutions that were actually evaluated, and parents are chosen with preference for better individuals.",
     ["inputs", "histories"], "all candidate multisets that arise on generated problems over several generations",
     "selection is only exercised end to end by tests, never compared with its definition",
     ["algorithms/NSGAII/NSGAII.py", "algorithms/SPEA2/SPEA2.py", "algorithms/IBEA/IBEA.py", "algorithms/OMOPSO/OMOPSO.py", "algorithms/NSGAIII/NSGAIII.py",
      "algorithms/JGBL/JGBL.py", "algorithms/SMSEMOA/SMSEMOA.py", "algorithms/NSLS/NSLS.py"],
     [("environmental selection of each driver", "algorithms/*/"), ("hypervolume contributions", "algorithms/base/hv.py")],
     "Candidates of each generation are recorded at the objective functions and a reference selection written from the papers is compared, ties within 1e-9 free.")

prop("C08", "Budget, step and time bounded runs stop exactly where promised",
     "A budget run executes whole generations until the cost first reaches the budget and not one more; a step run executes exactly the "
     "requested number; a time run stops after the first generation that exceeds the timeout and reports each elapsed interval exactly "
     "once, in order, none past the timeout, with the progress of the last generation completed before it. Runs are resumable: a later run on the same optimizer continues where the previous one stopped, with consecutive generation numbers, and a failing generation surfaces as an error.",
     ["histories", "configurations", "fault_sequences"], "all cost and duration sequences, budgets, intervals, timeouts and failure points",
     "tests use a handful of fixed cost sequences; boundary coincidences and long generations are not sampled",
     ["algorithms/base/driver.py"], [("BudgetRun, StepsRun, TimeRun, StepCountingDriver", "algorithms/base/driver.py")],
     "Scripted optimizers on a fake clock against a reference scheduler; real optimizers for overshoot.")

prop("C09", "Island migration conserves individuals and follows the topology",
     "Between migrations every island evolves its own population; a migration moves individuals only along the edges of the topology, "
     "sends the configured number of migrants, picked with preference for better non-dominated layers, never changes the total number of individuals or any island's size, and creates none that no island held. Every topology links islands symmetrically and connects them all. The islands know the run's budget, the reported cost is the sum of "
     "all islands' evaluations, and the final population is the union of the islands' results, readable any number of times.",
     ["inputs", "histories", "configurations"], "all island counts, migrant numbers, epoch lengths, topologies, populations and sub-optimizers",
     "two tests count islands and migrants on a fixed setting; conservation over all settings and histories is out of their reach",
     ["algorithms/IMGA/IMGA.py", "algorithms/IMGA/topology.py"],
     [("migration, island creation, cost", "algorithms/IMGA/IMGA.py"), ("topologies", "algorithms/IMGA/topology.py")],
     "Scripted sub-optimizers make every migration observable and comparable with a reference model.")

prop("C10", "The hierarchical strategy grows, prunes and accounts for its tree as configured",
     "In every cycle of the sequential hierarchical strategy each active deme runs its configured number of generations with its level's parameters; demes whose "
     "relative hypervolume gain falls below their level's threshold stop, new demes are sprouted only by demes that stopped progressing (together with all their ancestors) above the last level, from a non-redundant delegate and mutations of it with the new deme's level's parameters, at most the configured number per cycle and alive children per deme, and redundant demes are trimmed. "
     "When no deme is active all dormant ones are revived with halved thresholds; the cost is the sum over demes of the level's cost factor times their evaluations, and the result is the union of all demes' results.",
     ["histories", "configurations", "inputs"], "all parameter settings, fitness landscapes and sequences of cycles",
     "one test runs a few steps and checks a counter; the tree's evolution is not compared with any model",
     ["algorithms/HGS/classic/ClassicHGS.py", "algorithms/HGS/tools.py", "algorithms/HGS/HGS.py"],
     [("Node, metaepoch, trimming, sprouting, revival", "algorithms/HGS/classic/ClassicHGS.py")],
     "A reference model of the tree is stepped alongside the code over scripted sub-optimizers.")

prop("C11", "The actor-based hierarchical strategy evolves the same kind of tree",
     "Run with actors, the hierarchical strategy obeys the same rules as the sequential one: per-level parameters and generation counts, stopping by relative hypervolume gain, "
     "sprouting by stopped demes from non-redundant delegates and their mutations within the sprouting limits, trimming of redundant demes, and revival with halved thresholds. The final population is the union of all demes' results; the cost never decreases and grows in every cycle by the largest factor-weighted work of a single deme, as demes run in parallel.",
     ["schedules", "histories", "configurations"], "all parameter settings, sequences of cycles and orders in which the actors' messages arrive",
     "no test covers the distributed variant's tree evolution",
     ["algorithms/HGS/distributed/DistributedHGS.py", "algorithms/HGS/distributed/actors.py", "algorithms/HGS/distributed/hgs_tasks.py", "algorithms/HGS/distributed/node_tasks.py"],
     [("supervisor tasks", "algorithms/HGS/distributed/hgs_tasks.py"), ("node tasks", "algorithms/HGS/distributed/node_tasks.py")],
     "Scripted sub-optimizers as actors of a simulated network: messages are copied and arrive in generated orders, keeping only the order between two actors.")

prop("C12", "Configuration layers combine predictably and simulations are independent",
     "An algorithm, or each level of a stack of algorithms, receives exactly the parameters its configuration layers define, the more specific layer (algorithm, sub-algorithms, problem, then initialisers in the same order) overriding the less specific one; "
     "combinations the platform cannot stack are declined as not viable, an initialiser that fails is never passed over, and every listed algorithm can be prepared for every listed problem. Preparing or running one simulation never changes the configuration, problem or initial population another one gets, and every repetition draws its own random numbers.",
     ["configurations", "histories"], "all configuration layers and stacks, and all sequences of simulations",
     "the smoke test prepares a few real combinations; overriding order and independence are never checked",
     ["simulation/factory.py", "simulation/run_config.py"], [("prepare, load_*_config, custom_init", "simulation/factory.py")],
     "Generated layers against a layered dictionary model; real stacks re-prepared after running others.")

prop("C13", "A command line selects exactly the jobs it describes",
     "A run command creates one job for each repetition of each selected problem and algorithm, where filters match listed names ignoring letter case and a missing filter selects everything; "
     "budgets are sorted, and time bounds, result directory and priority are passed on unchanged. Every job has its own result directory, whose name identifies its repetition number. Every other command produces exactly the report it names, with the given options, from the results directory given by -d (where options are accepted) or the default one.",
     ["inputs"], "all command lines of the documented grammar",
     "no test parses a command line",
     ["simulation/factory.py", "simulation/model.py", "evogil.py"], [("parse_*, create_simulation", "simulation/factory.py"), ("get_simulation_id", "simulation/model.py"), ("main_worker", "evogil.py")],
     "Generated command lines parsed with the program's own usage text against a product model.")

prop("C14", "Stored results are read back complete, unchanged and correctly grouped",
     "Every stored checkpoint is returned when results are loaded, under its own problem, algorithm, repetition and budget or time mark, with population, fitness values and cost unchanged; checkpoints come in "
     "increasing numeric order and repetitions are numbered by run directory order, 0 upwards. Unrelated files and directories are ignored, the summary counts the stored results, and loading changes nothing on disk. Results kept as JSON are converted to pickle files without changing a value or any other file.",
     ["inputs", "histories"], "all sets of stored runs, budgets and extra files",
     "no test stores more than one result; grouping over many runs and stray files is not sampled",
     ["simulation/serializer.py", "simulation/serialization.py", "simulation/model.py", "dir_walker.py"],
     [("store/load", "simulation/serializer.py"), ("extractors, each_result", "simulation/serialization.py")],
     "Round trip of generated result trees through a scratch directory against a dictionary model.")

prop("C15", "Checkpoints hold the optimizer's state at the right moment",
     "A budget simulation stores one checkpoint per requested budget, holding the population, its objective values and the cost at the first generation boundary at or past that budget; a time "
     "simulation stores one per elapsed interval up to the timeout, holding the state at the generation boundary that passes the mark. The optimizer knows the largest budget beforehand and is shut down exactly once, whether the run succeeds or fails.",
     ["histories", "configurations", "fault_sequences"], "all cost and duration sequences, budget lists, intervals and failure points",
     "tests run one fixed budget and do not compare the files with the optimizer's history",
     ["simulation/worker.py", "algorithms/base/driver.py"], [("BudgetWorker, TimeWorker", "simulation/worker.py")],
     "Scripted optimizers on a fake clock, stored files compared with the script.")

prop("C16", "A failing simulation does not disturb the rest of the batch",
     "When some simulations of a batch fail or are not viable, every other simulation still runs once and stores exactly the checkpoints it would store alone, and the batch completes; checkpoints a failing simulation stored before its "
     "failure remain readable. A failing deme of the actor-based strategy fails its simulation instead of leaving it waiting. The summary names exactly the simulations that failed and adds up the time of the others.",
     ["fault_sequences", "histories"], "all batches, failure points (construction, generation, collecting the result) and job orders",
     "no test makes a simulation fail",
     ["simulation/run_parallel.py", "simulation/worker.py"], [("run_parallel, log_summary", "simulation/run_parallel.py"), ("SimulationWorker.run", "simulation/worker.py")],
     "Batches with faults injected at every kind of point run through the real runner; runs of the actor-based strategy with failing demes share one simulated actor network.")

prop("C17", "Stored metric values always equal recomputed ones",
     "A metric value reported for a stored result equals the value computed from that result's objective values, whether freshly computed or read from the cache, and however often and in whichever order metrics are requested; results added or removed between analyses are taken "
     "into account, and a value cached for another reference front is never reported. The Pareto dominance indicator is the share of the joint non-dominated front of all algorithms (same problem, checkpoint and repetition) contributed by the result, and computing metrics never removes or alters a stored result.",
     ["histories", "inputs"], "all result trees and sequences of storing, removing and analysing",
     "no test analyses a result tree twice or adds results in between",
     ["simulation/metrics_processor.py", "metrics/metrics_utils.py", "metrics/metrics.py"],
     [("get_metric cache", "simulation/metrics_processor.py"), ("joint front cache and invalidation", "simulation/metrics_processor.py")],
     "Sequences of storing, analysing and re-analysing on a scratch tree against from-scratch computation.")

prop("C18", "Statistical summaries are correct for every sample",
     "For every non-empty sample the summary's mean, deviation, quartile fences, outlier shares and outlier-free mean equal their definitions, the reported central value is the sample mean and the bootstrap interval is ordered, finite and lies within the range of the sample; "
     "the interval's coverage follows the stated confidence. The sample is not modified.",
     ["inputs"], "all finite non-empty samples and bootstrap sizes",
     "no test calls the statistics code",
     ["statistic/stats_bootstrap.py"], [("bootstrap, yield_analysis", "statistic/stats_bootstrap.py")],
     "Generated samples against definitions; interval quantiles against a reference bootstrap distribution.")

prop("C19", "Rankings choose the right results and the right winners",
     "The result used for ranking an algorithm is the one with the largest checkpoint whose mean cost is within the allowance of that checkpoint; for each problem and metric the winner has the best mean in the metric's own direction, and algorithms within the metric's tolerance of it share "
     "the win. Global scores count two points for a clear win and one for a shared one, whatever the order results are read in.",
     ["inputs"], "all result trees, cost overshoots and metric values, ties included",
     "no test runs a ranking",
     ["statistic/ranking.py", "statistic/stats_bootstrap.py", "statistic/summary.py"],
     [("get_weak_winners, rank", "statistic/ranking.py"), ("find_acceptable_result_for_budget, validate_cost", "statistic/stats_bootstrap.py")],
     "Generated result sets ranked by the code and by a reference; printed reports are parsed.")

prop("C20", "Benchmark problems match their definitions and reference fronts",
     "Every bundled problem's objectives are pure, finite functions that equal their published formulas everywhere in the search box; its reference front consists of mutually "
     "non-dominated attainable vectors of the right dimension. No point of the search box has objectives that dominate a reference vector.",
     ["inputs"], "all points of each problem's search box and all reference vectors",
     "tests run optimizers on a few problems but never compare an objective with its formula",
     ["problems"], [("dims, fitnesses, pareto_front", "problems/*/problem.py")],
     "Random and structured points (on and near the Pareto set) against independently written formulas.")

prop("C21", "Plots and reports show exactly the analysed results",
     "For every results directory each plotting and reporting command completes, changes no stored result and shows exactly the stored data of the algorithms that have a plot style: "
     "pictures draws per problem and metric each algorithm's mean at every time mark, in increasing order and within the shown time range; the summary draws ln(1+|mean|) of each algorithm's "
     "acceptable result divided by the problem's largest such score plus 0.0001 (except for pdi); best_fronts draws the whole reference front and the objective vectors of the first repetition of the acceptable "
     "result; violin shows minimum, mean, median and maximum over the repetitions. The statistics report has one row per problem, algorithm, checkpoint and metric of the chosen results directory with the number of repetitions, "
     "mean, interval, deviation, outlier shares and outlier-free mean of exactly those repetitions.",
     ["inputs"], "all result trees, with algorithms that have no plot style, missing checkpoints and problems without acceptable results",
     "the smoke test only runs one tiny results directory through the commands and looks at no figure",
     ["plots/pictures.py", "plots/best_fronts.py", "plots/violin.py", "statistic/stats.py"],
     [("pictures_time, pictures_summary", "plots/pictures.py"), ("best_fronts", "plots/best_fronts.py"), ("violin", "plots/violin.py"), ("statistics", "statistic/stats.py")],
     "Figures are captured when they are saved and their lines, points and labels compared with values computed from the stored results by reference formulas; printed reports are parsed.")


prop("C22", "Demes nominate their best individuals",
     "Whenever a hierarchical strategy asks an optimizer for delegates to found new demes, it nominates the best it holds: "
     "exactly the non-dominated individuals of its result (NSGA-II, jumping genes, local search, indicator- and hypervolume-based; layer members "
     "that no longer fit into the population included), its archive (strength Pareto), its swarm (particle swarm) or the best individual of every niche (reference points). "
     "Somebody is always nominated, every nominee was evaluated and lies in the search box, asking changes neither the deme's population nor its result nor its cost, and the population, "
     "cost and step number the optimizer reports to the strategy are its own.",
     ["inputs", "histories"], "all optimizers under both hierarchical strategies, problems, populations, parameters and numbers of epochs",
     "the tests run a hierarchical strategy on one problem and look only at whether it finishes",
     ["algorithms/NSGAII/message.py", "algorithms/SPEA2/message.py", "algorithms/IBEA/message.py", "algorithms/SMSEMOA/message.py", "algorithms/OMOPSO/message.py",
      "algorithms/NSGAIII/message.py", "algorithms/NSLS/message.py", "algorithms/JGBL/message.py", "algorithms/HGS/distributed/message.py", "algorithms/base/model.py"],
     [("nominate_delegates, get_population of every message adapter", "algorithms/*/message.py"), ("DefaultHGSMessageAdapter", "algorithms/HGS/distributed/message.py"),
      ("PopulationMessageAdapter.emit_result", "algorithms/base/model.py")],
     "Optimizers are prepared through the platform's own stacking and compared with definitions of dominance and of penalised distance on generated problems.")


def main():
    with open(os.path.join(ROOT, "properties.jsonl"), "w") as f:
        for p, _ in P:
            assert len(p["title"]) <= 80, p["title"]
            p = json.loads(json.dumps(p))
            if not p["anchors"]["observe_at"]:
                del p["anchors"]["observe_at"]
            f.write(json.dumps(p, ensure_ascii=False) + "\n")
    checks, na = [], []
    for p, note in P:
        i = p["id"]
        if os.path.exists(os.path.join(ROOT, "checks", i.lower() + ".py")):
            checks.append({
                "property": i, "quick_cmd": "bash run.sh %s" % i, "thorough_cmd": "bash run.sh %s --tier thorough" % i,
                "evidence_file": "evidence/%s.json" % i,
                "technique": "property-based testing with generated inputs and histories against a reference model (own choice-sequence engine, shrinking)",
                "level": "exploration", "level_note": note + " Absence of violations is not proved."})
        else:
            na.append({"property": i, "reason": "the check for this property is not built yet"})
    m = {"version": 1, "setup_cmd": "true", "checks": checks, "not_applicable": na,
         "notes": "Run from /verif. VERIF_SEED selects the cases, VERIF_WORKERS the number of processes (8)."}
    with open(os.path.join(ROOT, "MANIFEST.json"), "w") as f:
        json.dump(m, f, indent=1, ensure_ascii=False)
        f.write("\n")


def design():
    """Refreshes the two generated tables of DESIGN.md (tests; planted bugs)."""
    path = os.path.join(ROOT, "DESIGN.md")
    with open(path) as f:
        text = f.read()

    def put(name, rows):
        nonlocal text
        a, b = "<!-- %s -->\n" % name, "<!-- end of %s -->\n" % name
        if a in text:
            i, j = text.index(a) + len(a), text.index(b)
            text = text[:i] + "\n".join(rows) + "\n" + text[j:]

    rows = ["| check | test | cases quick / thorough | what it decides |", "|---|---|---|---|"]
    for p, _ in P:
        with open(os.path.join(ROOT, "checks", p["id"].lower() + ".py")) as f:
            tree = ast.parse(f.read())
        for n in tree.body:
            for d in getattr(n, "decorator_list", []):
                if isinstance(d, ast.Call) and ast.unparse(d.func).endswith("suite.test"):
                    kw = {k.arg: k.value for k in d.keywords}
                    args = [a.value for a in d.args]
                    quick = args[0] if args else kw["quick"].value
                    thorough = args[1] if len(args) > 1 else kw["thorough"].value if "thorough" in kw else quick * 8
                    rule = kw["rule"].value if "rule" in kw else ""
                    rows.append("| %s | `%s` | %d / %d | %s |" % (p["id"], n.name, quick, thorough, rule))
    put("tests", rows)
    res = os.path.join(ROOT, "tools", "seed_catches.json")
    catches = {}
    if os.path.exists(res):
        with open(res) as f:
            catches = json.load(f)
    rows = ["| planted bug | what it breaks | needs | caught by |", "|---|---|---|---|"]
    for i in sorted(os.listdir(os.path.join(ROOT, "seeded"))):
        with open(os.path.join(ROOT, "seeded", i, "meta.json")) as f:
            m = json.load(f)
        by = catches.get(i)
        rows.append("| %s | %s | %s | %s |" % (i, m["what_it_breaks"], m["needs"], "not measured" if by is None else
                                               ", ".join("%s `%s`" % (m["property"], t) for t in by) or "MISSED"))
    put("seeds", rows)
    with open(path, "w") as f:
        f.write(text)


main()
design()
