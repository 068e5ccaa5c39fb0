"""C32: methods that keep the better solution never lose ground."""
from pbt import boot, scen, algos
from pbt.engine import Outcome
import json, os
import numpy as np
PID = "C32"
RULE = ("generated scenarios (all variable kinds, all objective kinds, parameters, both directions, single/swarm mode, 2-30 generations, large populations) for every optimizer that replaces solutions by better ones only (data/elitist.json: 'steady' = every slot, or the "
        "best pop_size of old and new; 'elitist' = the best member only); oracle over the recorded populations: the k-th best fitness of a generation is never worse than the k-th best of the generation before, for every k ('steady') or for k = 1 ('elitist'); "
        "non-trivial = at least three generations over which the population improved")
DATA = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "data", "elitist.json")


def kinds():
    if os.environ.get("C32_ALL"):
        return {a: "steady" for a in algos.all_classes()}
    have = algos.all_classes()
    return {a: k for a, k in json.load(open(DATA)).items() if a in have}


def units(tier):
    n = 16 if tier == "quick" else 800
    return [{"name": a, "n": n, "kind": k} for a, k in kinds().items()]


def strategy(unit):
    return scen.scenario(unit["name"], epochs=(2, 30), pops=(0, 16), modes=("single", "swarm"), obj=scen.objective(kinds=["sphere", "linear", "rastrigin", "noise", "step", "ridge", "corner"]))


def check(unit, case):
    o = Outcome()
    site = case["algo"]
    r = scen.Run(case)
    if r.error is not None:
        o.label("error")
        return o
    hist = r.opt.history.list_population
    sign = 1.0 if case["minmax"] == "min" else -1.0
    f = [np.sort(np.array([sign * a.target.fitness for a in p], dtype=float)) for p in hist]
    for g in range(1, len(f)):
        a, b = f[g - 1], f[g]
        if len(a) == 0 or len(b) == 0:
            continue
        if b[0] > a[0]:
            o.bad(site, "best_lost", "generation %d: the best of the population went from %r to %r" % (g + 1, sign * a[0], sign * b[0]))
            break
        n = min(len(a), len(b))
        if unit["kind"] == "steady" and np.any(b[:n] > a[:n]):
            k = int(np.argmax(b[:n] > a[:n]))
            o.bad(site, "ground_lost", "generation %d: the best number %d of %d went from %r to %r" % (g + 1, k + 1, n, sign * a[k], sign * b[k]))
            break
    o.nontrivial = len(f) >= 3 and bool(np.any(f[-1][:1] < f[0][:1])) and len(f[-1]) > 0
    o.label(case["mode"], case["minmax"], "g%d" % min(5, len(f)))
    o.info = {"generations": len(f)}
    return o
