"""C30: the population keeps the size asked for and its agents are independent of each other."""
from pbt import boot, scen, algos
from pbt.engine import Outcome
import json, os
import numpy as np
PID = "C30"
RULE = ("generated scenarios (all variable kinds, parameters, modes, long runs, large populations) for every optimizer; oracle: every generation recorded by the run has exactly pop_size agents (data/popsize.json lists the classes whose method works with "
        "another fixed number: the same in every generation, and the three that adapt it: at least one), each agent is complete (a solution of the problem's size, a target), and the final population holds no agent, solution or target twice as the same object, "
        "none of them being that of the returned best either (not claimed for the four methods that settle copies of an agent by reference); non-trivial = two or more generations of which the last differs from the first")
DATA = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "data", "popsize.json")


def units(tier):
    n = 20 if tier == "quick" else 1000
    return [{"name": a, "n": n} for a in algos.all_classes()]


def strategy(unit):
    return scen.scenario(unit["name"], epochs=(1, 20), pops=(0, 16))


def varies(name):
    return os.environ.get("C30_ALL") is None and json.load(open(DATA)).get(name) or {}


def check(unit, case):
    o = Outcome()
    site = case["algo"]
    r = scen.Run(case)
    if r.error is not None:
        o.label("error")
        return o
    v = varies(site)
    opt = r.opt
    hist = opt.history.list_population
    sizes = [len(p) for p in hist] + [len(opt.pop)]
    want = case["pop"]
    if min(sizes) < 1:
        o.bad(site, "empty_population", "sizes %s" % sizes[:20])
    if v.get("size") == "constant":
        if len(set(sizes)) > 1:
            o.bad(site, "population_size", "pop_size=%d, sizes per generation %s" % (want, sizes[:20]))
    elif "size" in v:
        pass
    elif any(n != want for n in sizes):
        o.bad(site, "population_size", "pop_size=%d, sizes per generation %s" % (want, sizes[:20]))
    for g, p in enumerate(list(hist) + [opt.pop]):
        bad = [a for a in p if a is None or a.target is None or a.solution is None or np.shape(a.solution) != (opt.problem.n_dims,) or np.ndim(a.target.fitness) != 0]
        if bad:
            o.bad(site, "incomplete_agent", "generation %d: %s" % (g, bad[0]))
            break
    objs = {}
    pop = list(opt.pop) + [r.best]
    for what, get in () if v.get("shared") else (("agent", lambda a: a), ("solution", lambda a: a.solution), ("target", lambda a: a.target)):
        ids = [id(get(a)) for a in pop]
        if len(set(ids)) < len(ids):
            i = next(k for k in range(len(ids)) if ids[k] in ids[:k])
            o.bad(site, "shared_" + what, "agents %d and %s are one %s" % (ids.index(ids[i]), i if i < len(pop) - 1 else "returned best", what))
            break
    else:
        for i in range(len(pop) if not v.get("shared") else 0):
            for j in range(i):
                if np.shares_memory(pop[i].solution, pop[j].solution):
                    o.bad(site, "shared_memory", "agents %d and %d" % (j, i))
                    break
            else:
                continue
            break
    a, b = hist[0] if hist else [], opt.pop
    o.nontrivial = len(hist) >= 2 and any(not np.array_equal(x.solution, y.solution) for x, y in zip(a, b))
    o.label(case["mode"], "g%d" % min(5, len(hist)))
    o.info = {"sizes": sizes[:5]}
    return o
