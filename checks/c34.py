"""C34: an optimizer optimizes: it does better than sampling at random."""
from pbt import boot, scen, algos
from pbt.engine import Outcome
from hypothesis import strategies as st
import json, math, os
import numpy as np
PID = "C34"
RUNS = 8
RULE = ("generated smooth problems (2-6 real variables, optimum anywhere inside the box, uneven curvature, asymmetric boxes of uneven widths around the origin, both directions, single/swarm mode, population 20-30, 30-50 generations, default parameters) for every optimizer "
        "in data/better.json; each case is eight runs with different seeds and optima; oracle: the result is closer to the optimum than the best of as many points drawn uniformly from the box in at least half of the eight runs (the listed methods manage 95% or "
        "more of them, so that this fails once in about a million cases by chance), and the median over the eight runs of log10(random sampling's distance / its distance) reaches the floor recorded for the "
        "method (a third of the lowest median of some thirty calibration cases); non-trivial = all eight runs finished")
DATA = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "data", "better.json")


def units(tier):
    n = 3 if tier == "quick" else 40
    have = algos.all_classes()
    return [{"name": "%s:%s" % (a, d), "algo": a, "minmax": d, "n": n} for d in ("min", "max") for a in (have if os.environ.get("C34_ALL") else sorted(set(json.load(open(DATA))) & set(have)))]


@st.composite
def box(draw):
    """Uneven widths, the origin somewhere inside (several published moves are relative to the origin)."""
    n = draw(st.integers(2, 6))
    w = [float(draw(st.integers(1, 80))) for _ in range(n)]
    lb = [-round(x * draw(st.integers(0, 16)) / 16, 3) for x in w]
    return {"t": "float", "name": "x", "lb": lb, "ub": [a + x for a, x in zip(lb, w)]}


@st.composite
def strategy_(draw, a, minmax):
    mp = algos.min_pop(a)
    return {"algo": a, "epoch": draw(st.integers(30, 50)), "pop": max(mp, draw(st.integers(20, 30))), "params": {}, "bounds": [draw(box())],
            "minmax": minmax, "mode": draw(st.sampled_from(["single", "swarm"])), "as_dict": draw(st.booleans()), "seed": draw(st.integers(0, 2 ** 31)), "shape": draw(st.integers(0, 2 ** 31))}


def strategy(unit):
    return strategy_(unit["algo"], unit["minmax"])


class Bowl:
    def __init__(self, lb, w, c, k, sign):
        self.lb, self.w, self.c, self.k, self.sign = lb, w, c, k, sign

    def gap(self, x):
        return np.sum(self.k * ((np.asarray(x, dtype=float) - self.lb) / self.w - self.c) ** 2, axis=-1)

    def raw(self, x):
        return np.array([self.sign * float(self.gap(x))])

    def __call__(self, x):
        return self.sign * float(self.gap(x))


def check(unit, case):
    o = Outcome()
    site = case["algo"]
    g = np.random.default_rng(case["shape"])
    wins, seen = 0, []
    for i in range(RUNS):
        c = dict(case, seed=(case["seed"] + 7919 * i) % 2 ** 32, obj={"parts": [{"k": "sphere", "c": 0.5, "s": 1.0, "o": 0.0}], "ret": "float"})
        problem, rec, lb, ub = scen.make_problem(c, scen.call_limit(c), False)
        lb, ub = np.asarray(lb, dtype=float), np.asarray(ub, dtype=float)
        n = len(lb)
        f = Bowl(lb, ub - lb, g.uniform(0.1, 0.9, n), g.uniform(0.5, 2.0, n), 1.0 if case["minmax"] == "min" else -1.0)
        rec.fn = f
        r = scen.Run(c, problem=(problem, rec, lb, ub))
        if r.error is not None:
            o.label("error")
            return o
        mine = float(f.gap(r.best.solution))
        rand = float(np.min(f.gap(lb + (ub - lb) * g.random((len(r.calls), n)))))
        wins += mine < rand
        seen.append((mine, rand))
    if os.environ.get("C34_WINS"):
        with open(os.environ["C34_WINS"], "a") as h:
            h.write("%s %d %s\n" % (site, wins, " ".join("%.3f" % math.log10((r + 1e-12) / (m + 1e-12)) for m, r in seen)))
    else:
        floor = json.load(open(DATA)).get(site, 0)
        med = float(np.median([math.log10((r + 1e-12) / (m + 1e-12)) for m, r in seen]))
        if 2 * wins >= RUNS and med < floor:
            o.bad(site, "hardly_better_than_chance", "median log10(random/own squared distance) of 8 runs is %.2f, below this method's floor %.2f" % (med, floor))
    if not os.environ.get("C34_WINS") and 2 * wins < RUNS:
        o.bad(site, "no_better_than_chance", "closer to the optimum than random sampling with as many evaluations in %d of %d runs (%s)" % (wins, RUNS, ", ".join("%.2g/%.2g" % t for t in seen)))
    o.nontrivial = True
    o.label(case["mode"], case["minmax"])
    o.info = {"wins": wins}
    return o
