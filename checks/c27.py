"""C27: maximizing an objective takes the same course as minimizing its negative."""
from pbt import boot, scen, algos
from pbt.engine import Outcome
from hypothesis import strategies as st
import json, os
import numpy as np
PID = "C27"
RULE = ("generated scenarios (boxes and mixed variables, 1-3 weighted objectives, parameters, single/swarm mode, 2-40 generations) for every optimizer that uses objective values only to compare solutions (data/symmetric.json); the objective has a "
        "tiny evaluation-counter term, so that no two evaluations tie; oracle: the run that minimizes f and the run that maximizes -f with the same seed evaluate the same sequence of solutions and return the same one "
        "(classes marked 'close' add a direction-less epsilon to differences of objective values: there the first two generations of a run over a box must agree to 1e-5 of the box); "
        "non-trivial = both runs finished with >= 20 evaluations over >= 3 distinct solutions")
DATA = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "data", "symmetric.json")


def units(tier):
    n = 16 if tier == "quick" else 700
    if os.environ.get("C27_ALL"):
        return [dict({"name": a, "n": n}, **({"close": True} if os.environ["C27_ALL"] == "close" else {})) for a in algos.all_classes()]
    have = algos.all_classes()
    return [dict({"name": a, "n": n}, **({"close": True} if k == "close" else {})) for a, k in json.load(open(DATA)).items() if a in have]


@st.composite
def strategy_(draw, a, close):
    b = scen.float_box(1, 6, False).map(lambda v: [v]) if close else st.one_of(scen.float_box(1, 6, False).map(lambda v: [v]), scen.float_box(1, 6, False).map(lambda v: [v]), scen.mixed_vars(["float", "int", "bin", "perm"]))
    c = draw(scen.scenario(a, bounds=b, obj=scen.objective(kinds=["sphere", "linear", "rastrigin"] if close else ["sphere", "linear", "rastrigin", "noise", "ridge", "corner"], scales=(1.0, 1.0, 1.0, -1.0, 100.0), offs=(0.0, 0.0, -50.0, 1000.0)), epochs=(2, 5) if close else (2, 40), pops=(0, 16), dicts=False, tail=not close))
    if c["obj"].get("w") is not None:        # positive weights: the counter term must not cancel
        c["obj"]["w"] = [w if w > 0 else 0.5 for w in c["obj"]["w"]]
    c["minmax"] = "min"
    return c


def strategy(unit):
    return strategy_(unit["name"], bool(unit.get("close")))


class Signed:
    """sign * (f(x) + 1e-7 * low-discrepancy value of the evaluation counter) in every component: no ties"""

    def __init__(self, inner, sign):
        self.inner, self.sign, self.k = inner, sign, 0

    def __call__(self, x):
        self.k += 1
        t = 1e-7 * ((self.k * 0.6180339887498949) % 1.0)
        return [self.sign * (v + t) for v in self.inner.raw(x)]


def one(case, sign):
    c = dict(case, minmax="min" if sign > 0 else "max")
    p = scen.make_problem(c, scen.call_limit(c), False)
    p[1].fn = Signed(p[1].fn, sign)
    return scen.Run(c, problem=p)


def check(unit, case):
    o = Outcome()
    site = case["algo"]
    a = one(case, 1.0)
    b = one(case, -1.0)
    if a.error is not None or b.error is not None:
        if (a.error is None) != (b.error is None):
            o.bad(site, "one_direction_fails", "min: %s, max: %s" % (a.sig(), b.sig()))
        o.label("error")
        return o
    n = min(len(a.calls), len(b.calls))
    if unit.get("close"):
        tol = 1e-5 * (a.ub - a.lb)
        m = min(n, 3 * case["pop"])
        w = case["obj"].get("w")
        v = np.sort([float(np.dot(t, w if w is not None else np.ones(len(t)))) for _, t in a.calls[:m]])
        if m < 2 or np.min(np.diff(v)) < 3e-8 or v[-1] - v[0] < 1e-3:
            o.label("near-tie")            # an epsilon may turn the order of two agents round
            return o
        d = next((i for i in range(m) if not np.all(np.abs(a.calls[i][0] - b.calls[i][0]) <= tol)), None)
        if d is not None:
            o.bad(site, "course_differs", "evaluation %s of %d / %d differs between min f and max -f: %s / %s" % (d, len(a.calls), len(b.calls), a.calls[d][0], b.calls[d][0]))
        o.nontrivial = m > case["pop"]
        o.info = {"evals": n}
        o.label(case["mode"], "close")
        return o
    d = next((i for i in range(n) if not np.array_equal(a.calls[i][0], b.calls[i][0], equal_nan=True)), None)
    if d is not None or len(a.calls) != len(b.calls):
        o.bad(site, "course_differs", "evaluation %s of %d / %d differs between min f and max -f (best %r / %r)" % (d, len(a.calls), len(b.calls), a.best.target.fitness, b.best.target.fitness))
    elif not scen.same(a.best.solution, b.best.solution) or a.best.target.fitness != -b.best.target.fitness:
        o.bad(site, "result_differs", "%r / %r" % (a.best.target.fitness, b.best.target.fitness))
    elif not scen.same(a.opt.history.list_global_best_fit, -np.array(b.opt.history.list_global_best_fit)):
        o.bad(site, "history_differs", "global best fitness per generation")
    o.nontrivial = n >= 20 and len({x.tobytes() for x, _ in a.calls[:60]}) >= 3
    o.info = {"evals": n}
    o.label(case["mode"], "weighted" if len(case["obj"]["parts"]) > 1 else "single-objective")
    return o
