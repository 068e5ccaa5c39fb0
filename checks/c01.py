"""C01: reported fitness/objectives are the objective at the reported solution."""
from pbt import scen
from pbt.engine import Outcome
import numpy as np
PID = "C01"
RULE = ("generated solves of every optimizer class; oracle: recompute the (deterministic) objective at the solution of every reported agent and compare objectives exactly and fitness "
        "with an independent weighted sum; non-trivial = the run finished and reported at least 2 distinct solutions")


def units(tier):
    return scen.algo_units(45 if tier == "quick" else 1200)


def strategy(unit):
    return scen.scenario(unit["name"])


def mismatch(a, obj):
    if a.target is None or a.solution is None:
        return "agent without %s" % ("target" if a.target is None else "solution")
    want = obj.raw(a.solution)
    got = np.asarray(a.target.objectives, dtype=float)
    if not scen.same(got, want):
        return "objectives %s but objective(solution) = %s at %s" % (got, want, a.solution)
    w = obj.spec.get("w")
    w = np.ones(len(want)) if w is None else np.asarray(w, dtype=float)
    f = float(np.sum(w * want))
    tol = 1e-9 * float(np.sum(np.abs(w * want)))
    if not (abs(a.target.fitness - f) <= tol or (np.isnan(f) and np.isnan(a.target.fitness))):
        return "fitness %r but weighted objective = %r" % (a.target.fitness, f)
    return None


def check(unit, case):
    o = Outcome()
    site = case["algo"]
    r = scen.Run(case)
    if r.error is not None:
        o.label("crashed")
        return o
    h = r.opt.history
    seen = set()
    groups = [("best", [r.best]), ("g_best_attr", [r.opt.g_best]), ("global_best", h.list_global_best), ("current_best", h.list_current_best),
              ("global_worst", h.list_global_worst), ("current_worst", h.list_current_worst), ("pop", r.opt.pop)] + \
             [("saved_pop", p) for p in h.list_population]
    memo = {}
    for kind, agents in groups:
        for i, a in enumerate(agents):
            if a.solution is not None and a.target is not None:
                key = (np.asarray(a.solution, dtype=float).tobytes(), np.asarray(a.target.objectives, dtype=float).tobytes(), float(a.target.fitness))
                m = memo.get(key, 0)
                if m == 0:
                    m = memo[key] = mismatch(a, r.obj)
                seen.add(key[0])
            else:
                m = mismatch(a, r.obj)
            if m:
                o.bad(site, kind, "%s[%d]: %s" % (kind, i, m))
                break
    o.nontrivial = len(seen) >= 2
    o.info = {"distinct_solutions": len(seen), "evals": len(r.calls)}
    o.label(case["minmax"], case["mode"], "multi" if len(case["obj"]["parts"]) > 1 else "single-obj")
    # one violation kind per case and group
    return o
