"""Scripted problems and algorithms that the platform can look up by name."""
import sys
import types

from algorithms.base.driver import Driver
from simulation import run_config


def install_problem(tc, name, dims, fitnesses, pareto_front):
    """Makes `problems.<name>.problem` importable for the duration of the case."""
    pkg = types.ModuleType("problems." + name)
    mod = types.ModuleType("problems.%s.problem" % name)
    mod.dims = dims
    mod.fitnesses = fitnesses
    mod.pareto_front = pareto_front
    mod.name = name
    mod.parallel = types.SimpleNamespace()
    pkg.problem = mod
    sys.modules[pkg.__name__] = pkg
    sys.modules[mod.__name__] = mod

    def undo():
        sys.modules.pop(pkg.__name__, None)
        sys.modules.pop(mod.__name__, None)

    tc.defer(undo)
    return mod


def install_algorithm(tc, name, cls, adapters=()):
    """Makes `name` resolvable as an algorithm; adapters: {meta-algorithm name: adapter factory}."""
    mod = types.ModuleType("verif_fake_%s" % name)
    setattr(mod, name, cls)
    sys.modules[mod.__name__] = mod
    run_config.custom_paths[name] = (mod.__name__, name)
    pkg = types.ModuleType("algorithms." + name)
    msg = types.ModuleType("algorithms.%s.message" % name)
    for meta, adapter in dict(adapters).items():
        setattr(msg, "%s%sMessageAdapter" % (name, meta), adapter)
    pkg.message = msg
    sys.modules[pkg.__name__] = pkg
    sys.modules[msg.__name__] = msg

    def undo():
        for m in (mod, pkg, msg):
            sys.modules.pop(m.__name__, None)
        run_config.custom_paths.pop(name, None)

    tc.defer(undo)


class Boom(Exception):
    pass


class FakeDriver(Driver):
    """Generation g costs costs[g]; its final population is a function of g only."""

    def __init__(self, population, dims, fitnesses, costs=(1,), pops=None, plan=None, durations=(1.0,), clock=None, sink=None, **kw):
        super().__init__(**{k: v for k, v in kw.items() if k == "message_adapter_factory"})
        self.kw = dict(kw, population=population, dims=dims, fitnesses=fitnesses)
        self.costs, self.pops, self.plan = costs, pops, plan or {}
        self.durations, self.clock = durations, clock
        self.g = 0
        self.closed = 0
        if sink is not None:
            sink.append(self)
        if self.plan.get("ctor"):
            raise Boom("constructor")

    def step(self):
        if self.plan.get("step") == self.g:
            raise Boom("step")
        if self.clock is not None:
            self.clock.now += self.durations[self.g % len(self.durations)]
        self.cost += self.costs[self.g % len(self.costs)]
        self.g += 1

    def finalized_population(self):
        if self.plan.get("finalize") is not None and self.g >= self.plan["finalize"]:
            raise Boom("finalize")
        return self.pops(self.g)

    def shutdown(self):
        self.closed += 1
