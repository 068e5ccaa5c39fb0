"""C29: to comparison-based optimizers only the order of the objective values matters."""
from pbt import boot, scen, algos
from pbt.engine import Outcome
from hypothesis import strategies as st
import json, math, os
import numpy as np
PID = "C29"
RULE = ("generated scenarios (boxes and mixed variables, parameters, both directions, single/swarm mode, 2-40 generations) for every optimizer whose moves depend on objective values only through comparisons (data/ranked.json); objective values are "
        "multiples of 2^-30 made distinct by an evaluation-counter term; the second run sees them through a strictly increasing function that is exact in floating point (shift, power-of-two factor, stretched steps, both); oracle: both runs evaluate "
        "the same sequence of solutions and return the same one (classes marked 'scaled' use ratios of objective values: power-of-two factors only); non-trivial = both runs finished with >= 20 evaluations over >= 3 distinct solutions")
DATA = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "data", "ranked.json")
KINDS = ["shift", "factor", "stretch", "squeeze", "both"]


def units(tier):
    n = 10 if tier == "quick" else 500
    if os.environ.get("C29_ALL"):
        new = [a for a in algos.all_classes() if os.environ["C29_ALL"] != "scaled" or json.load(open(DATA)).get(a) != "ranked"]
        return [dict({"name": a, "n": n}, **({"scaled": True} if os.environ["C29_ALL"] == "scaled" else {})) for a in new]
    have = algos.all_classes()
    return [dict({"name": a, "n": n}, **({"scaled": True} if k == "scaled" else {})) for a, k in json.load(open(DATA)).items() if a in have]


@st.composite
def strategy_(draw, a, scaled):
    b = st.one_of(scen.float_box(1, 6, False).map(lambda v: [v]), scen.float_box(1, 6, False).map(lambda v: [v]), scen.mixed_vars(["float", "int", "bin", "perm"]))
    o = scen.objective(multi=False, kinds=["sphere", "linear", "rastrigin", "noise", "ridge", "corner", "plateau", "step"], scales=(1.0, 1.0, -1.0), offs=(0.0, 0.0, -50.0, 100.0))
    c = draw(scen.scenario(a, bounds=b, obj=o, epochs=(2, 40), pops=(0, 16), dicts=False))
    k = draw(st.sampled_from(["factor"] if scaled else KINDS))
    c["g"] = {"kind": k, "e": draw(st.integers(1, 12)) * draw(st.sampled_from([1, -1])), "c": draw(st.sampled_from([-1000.0, -3.0, 40.0, 512.0]))}
    return c


def strategy(unit):
    return strategy_(unit["name"], bool(unit.get("scaled")))


def increasing(g):
    k, f, c = g["kind"], 2.0 ** g["e"], g["c"]
    if k == "shift":
        return lambda v: v + c
    if k == "factor":
        return lambda v: v * f
    if k == "stretch":
        return lambda v: v + 256.0 * math.floor(v)
    if k == "squeeze":
        return lambda v: (v - math.floor(v)) / 1024.0 + math.floor(v)
    return lambda v: v * f + c


class Ranked:
    """g of the objective rounded to multiples of 2^-14, plus a counter term in multiples of 2^-28: no two evaluations tie, every g is exact and strictly increasing"""

    def __init__(self, inner, g):
        self.inner, self.g, self.k = inner, g, 0

    def __call__(self, x):
        self.k += 1
        v = round(float(self.inner.raw(x)[0]) * 2 ** 14) / 2.0 ** 14 + ((self.k * 7919) % 16381) / 2.0 ** 28
        return self.g(v)


def one(case, g):
    p = scen.make_problem(case, scen.call_limit(case), False)
    p[1].fn = Ranked(p[1].fn, g)
    return scen.Run(case, problem=p)


def check(unit, case):
    o = Outcome()
    site = case["algo"]
    a = one(case, lambda v: v)
    b = one(case, increasing(case["g"]))
    if a.error is not None or b.error is not None:
        if (a.error is None) != (b.error is None):
            o.bad(site, "one_scale_fails", "%s: plain %s, transformed %s" % (case["g"], a.sig(), b.sig()))
        o.label("error")
        return o
    n = min(len(a.calls), len(b.calls))
    d = next((i for i in range(n) if not np.array_equal(a.calls[i][0], b.calls[i][0], equal_nan=True)), None)
    if d is not None or len(a.calls) != len(b.calls):
        o.bad(site, "course_differs", "evaluation %s of %d / %d differs between f and the strictly increasing transformation %s of f (best %r / %r)" % (d, len(a.calls), len(b.calls), case["g"], a.best.target.fitness, b.best.target.fitness))
    elif not scen.same(a.best.solution, b.best.solution):
        o.bad(site, "result_differs", "%r / %r" % (a.best.target.fitness, b.best.target.fitness))
    o.nontrivial = n >= 20 and len({x.tobytes() for x, _ in a.calls[:60]}) >= 3
    o.info = {"evals": n}
    o.label(case["mode"], case["g"]["kind"], case["minmax"])
    return o
