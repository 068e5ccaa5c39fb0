"""C33: the units in which the variables are measured do not matter."""
from pbt import boot, scen, algos
from pbt.engine import Outcome
from hypothesis import strategies as st
import json, os
import numpy as np
PID = "C33"
RULE = ("generated scenarios (boxes of 1-6 real variables, all objective kinds, parameters, both directions, single/swarm mode, 2-30 generations) for every optimizer whose moves are proportional to the box or to differences of solutions (data/units.json: 'each' = "
        "every variable may have a unit of its own, 'same' = one unit for all of them); the second run measures the variables in units 2^k times smaller or larger (k = -12..12, exact in floating point: bounds multiplied, objective of the same point); oracle: both runs "
        "evaluate the same points in the same order, up to that factor, and return the same one; non-trivial = both runs finished with >= 20 evaluations over >= 3 distinct solutions inside the box")
DATA = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "data", "units.json")


def units(tier):
    n = 10 if tier == "quick" else 500
    have = algos.all_classes()
    if os.environ.get("C33_ALL"):
        return [{"name": a, "n": n, "kind": os.environ["C33_ALL"]} for a in have]
    return [{"name": a, "n": n, "kind": k} for a, k in json.load(open(DATA)).items() if a in have]


@st.composite
def strategy_(draw, a, kind):
    b = scen.float_box(1, 6, False).map(lambda v: [v])
    c = draw(scen.scenario(a, bounds=b, epochs=(2, 30), pops=(0, 16), dicts=False))
    n = len(c["bounds"][0]["lb"])
    wide = 12
    k = draw(st.integers(1, wide)) * draw(st.sampled_from([1, -1]))
    c["units"] = draw(st.lists(st.integers(-wide, wide), min_size=n, max_size=n)) if kind.startswith("each") and n > 1 and draw(st.booleans()) else [k] * n
    return c


def strategy(unit):
    return strategy_(unit["name"], unit["kind"])


def check(unit, case):
    o = Outcome()
    site = case["algo"]
    m = 2.0 ** np.array(case["units"], dtype=float)
    v = case["bounds"][0]
    other = dict(case, bounds=[dict(v, lb=[float(x) for x in np.array(v["lb"]) * m], ub=[float(x) for x in np.array(v["ub"]) * m])])
    a, b = scen.Run(case), scen.Run(other)
    if a.error is not None or b.error is not None:
        if (a.error is None) != (b.error is None):
            o.bad(site, "one_unit_fails", "units 2^%s: %s / %s" % (case["units"], a.sig(), b.sig()))
        o.label("error")
        return o
    n = min(len(a.calls), len(b.calls))
    d = next((i for i in range(n) if not np.array_equal(a.calls[i][0] * m, b.calls[i][0], equal_nan=True)), None)
    if d is not None or len(a.calls) != len(b.calls):
        o.bad(site, "course_differs", "evaluation %s of %d / %d differs when the variables are measured in units 2^%s: %s" % (d, len(a.calls), len(b.calls), case["units"], None if d is None else (a.calls[d][0].tolist(), b.calls[d][0].tolist())))
    elif not scen.same(a.best.solution * m, b.best.solution):
        o.bad(site, "result_differs", "%r / %r" % (a.best.target.fitness, b.best.target.fitness))
    lb, ub = np.array(v["lb"]), np.array(v["ub"])
    o.nontrivial = n >= 20 and len({x.tobytes() for x, _ in a.calls[-60:] if np.any((x > lb) & (x < ub))}) >= 3
    o.info = {"evals": n}
    o.label(case["mode"], case["minmax"], "each" if len(set(case["units"])) > 1 else "same")
    return o
