"""C23: every valid configuration runs to completion."""
from pbt import scen, algos
from pbt.engine import Outcome
from hypothesis import strategies as st
import numpy as np
PID = "C23"
TIMEOUT_IS_VIOLATION = True
RULE = ("Hypothesis-generated solves (optimizer, admissible parameters, pop size from the smallest accepted, bounds/variables incl. 1-D, degenerate, tiny, huge, mixed types, "
        "finite objectives incl. flat/step/noise/scaled/multi, min/max, single|swarm, seed), and four runs with 30-150 dimensions (float, integer, binary, permutation, mixed; thorough: sixty of up to 400) and three runs of 500-1500 generations (thorough: twenty of up to 3000) per class; non-trivial = constructed and solved, or crashed; rejected constructors are trivial")


def units(tier):
    quick = tier == "quick"
    return scen.algo_units(60 if quick else 1500) + [{"name": a + ":long", "algo": a, "n": 3 if quick else 20, "long": 1500 if quick else 3000, "seconds": 120 if quick else 400} for a in algos.all_classes()] + [
        {"name": a + ":wide", "algo": a, "n": 4 if quick else 60, "wide": 150 if quick else 400, "seconds": 60} for a in algos.all_classes()]


@st.composite
def wide_bounds(draw, top):
    """Many dimensions: more than individuals, factorials and norms that grow with the dimension."""
    n = draw(st.integers(30, top))
    def box(m):
        lo, w = draw(st.sampled_from([-10.0, 0.0, -1.0, 5.0, -100.0])), draw(st.sampled_from([15.0, 1.0, 200.0]))
        return {"t": "float", "name": "x", "lb": [lo] * m, "ub": [lo + w] * m}
    kind = draw(st.sampled_from(["float", "float", "mixed", "int", "bin", "perm"]))
    if kind == "float":
        return [box(n)]
    if kind == "int":
        return [{"t": "int", "name": "x", "lb": [-5] * n, "ub": [draw(st.integers(-4, 20))] * n}]
    if kind == "bin":
        return [{"t": draw(st.sampled_from(["bin", "bool"])), "name": "x", "n": n}]
    if kind == "perm":
        return [{"t": "perm", "name": "x", "n": n}]
    return [box(n // 3), {"t": "int", "name": "i", "lb": [0] * (n // 3), "ub": [7] * (n // 3)}, {"t": "bin", "name": "b", "n": n // 3}]


def strategy(unit):
    if "wide" in unit:
        return scen.scenario(unit["algo"], bounds=wide_bounds(unit["wide"]), epochs=(1, 20), pops=(0, 30), tail=False)
    if "long" in unit:      # covariances, step sizes, temperatures and archives after hundreds or thousands of generations
        return scen.scenario(unit["algo"], bounds=scen.bounds_strategy(scen.ALLTYPES), params=False, epochs=(unit["long"] // 3, unit["long"]), pops=(0, 6), tail=False)
    return scen.scenario(unit["name"], bounds=scen.bounds_strategy(scen.ALLTYPES), epochs=(1, 14))


def check(unit, case):
    o = Outcome()
    r = scen.Run(case, save_population=case["epoch"] < 200)
    o.nontrivial = True
    site = case["algo"]
    o.label(*(["long"] if case["epoch"] >= 200 else []))
    o.label("min" if case["minmax"] == "min" else "max", case["mode"], "mixed" if len(case["bounds"]) > 1 or case["bounds"][0]["t"] != "float" else "float")
    o.info = {"evals": len(r.calls)}
    if r.error is not None:
        if isinstance(r.error, scen.TooMany):
            o.bad(site, "unbounded", str(r.error))
        else:
            o.bad(site, "crash_" + type(r.error).__name__, "%s: %s" % (r.sig(), r.error))
        return o
    h = r.opt.history
    if h.epoch != case["epoch"] or len(h.list_global_best_fit) != case["epoch"]:
        o.bad(site, "generations", "%s generations recorded, %d requested" % (h.epoch, case["epoch"]))
    pop = r.opt.pop
    if not pop:
        o.bad(site, "empty_pop")
    elif any(a.solution is None or a.target is None or np.shape(a.solution) != (r.lb.size,) for a in pop):
        o.bad(site, "incomplete_agent")
    elif any(not p for p in h.list_population):
        o.bad(site, "empty_saved_pop")
    if not (np.all(np.isfinite(r.best.solution)) and np.isfinite(r.best.target.fitness)):
        o.bad(site, "nonfinite_best", "%s -> %s" % (r.best.solution, r.best.target.fitness))
    return o
