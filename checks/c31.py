"""C31: a run keeps searching until its last generation, and the seed decides where."""
from pbt import boot, scen, algos
from pbt.engine import Outcome
from hypothesis import strategies as st
import json, os
import numpy as np
PID = "C31"
RULE = ("generated scenarios (continuous objectives without ties over boxes, parameters near and far from their defaults, single/swarm mode, 3-60 generations) for every optimizer; oracle: every generation of the run evaluates at least one candidate "
        "(classes marked 'may-rest' in data/progress.json, whose generations are random trials or acceptance steps that may pass without one: at least one generation of every ten; the tabu search, whose neighbourhood can be exhausted, is not judged), a run with another seed (any other, one bit apart, a round number apart) evaluates other candidates from its "
        "initial population on, and so do two runs without a seed (points on the bounds, where overshooting moves end, do not count); non-trivial = at least three generations")
DATA = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "data", "progress.json")


def units(tier):
    n = 12 if tier == "quick" else 600
    return [{"name": a, "n": n} for a in algos.all_classes()]


@st.composite
def strategy_(draw, a):
    o = scen.objective(multi=False, kinds=["sphere", "linear", "rastrigin", "ridge"], scales=(1.0, 1.0, -1.0, 100.0), offs=(0.0, 0.0, -50.0, 100.0))
    b = scen.float_box(1, 6, False).map(lambda v: [v])
    c = draw(scen.scenario(a, bounds=b, obj=o, epochs=(3, 30), pops=(0, 12)))
    s = c["seed"]
    c["seed2"] = draw(st.one_of(st.integers(0, 2 ** 32 - 1), st.integers(0, 31).map(lambda k: s ^ (1 << k)), st.sampled_from([10, 100, 1000, 10000, 1000000]).map(lambda k: s + k), st.sampled_from([0, 1, 42])).filter(lambda v: v != s))
    c["none"] = draw(st.booleans())
    return c


def strategy(unit):
    return strategy_(unit["name"])


class Untied:
    """the objective plus 1e-7 times a low-discrepancy term of the evaluation counter"""

    def __init__(self, inner):
        self.inner, self.k = inner, 0

    def __call__(self, x):
        self.k += 1
        return float(self.inner.raw(x)[0]) + 1e-7 * ((self.k * 0.6180339887498949) % 1.0)


def one(case, **kw):
    opt = scen.build(case)
    p = scen.make_problem(case, scen.call_limit(case), False)
    rec, obs = p[1], []
    rec.fn = Untied(rec.fn)
    step0 = type(opt).track_optimize_step

    def step(*a, **k):
        obs.append(rec.count)
        return step0(opt, *a, **k)
    opt.track_optimize_step = step
    r = scen.Run(case, opt=opt, problem=p, **kw)
    r.obs = obs
    return r


def check(unit, case):
    o = Outcome()
    site = case["algo"]
    a = one(case)
    if a.error is not None:
        o.label("error")
        return o
    d = np.diff([0] + a.obs)
    rests = [g + 1 for g in range(1, len(d)) if d[g] == 0]
    rare = os.environ.get("C31_ALL") is None and json.load(open(DATA)).get(site)
    if rare == "exhaustible":       # tabu search: every neighbour may be tabu or the current point itself (large steps in a small box)
        pass
    elif rare:
        if any(all(x == 0 for x in d[g:g + 10]) for g in range(1, max(1, len(d) - 9))):
            o.bad(site, "stalled", "ten generations in a row without an evaluation, pop_size %d: evaluations per generation %s" % (case["pop"], d[:40].tolist()))
    elif rests:
        o.bad(site, "stalled", "no evaluation in %d of %d generations (%s...), pop_size %d" % (len(rests), len(d), rests[:5], case["pop"]))
    one_more = dict(case, seed=None if case["none"] else case["seed2"])
    b = one(one_more)
    c = one(one_more) if case["none"] else a
    if b.error is None and c.error is None:
        where = "without a seed" if case["none"] else "with the seeds %d and %d" % (case["seed"], case["seed2"])
        for what, xs, ys in (("initial population", b.calls[:case["pop"]], c.calls[:case["pop"]]), ("candidates after the initial population", b.calls[2 * case["pop"]:], c.calls[2 * case["pop"]:])):
            if xs and len(xs) == len(ys) and all(np.array_equal(x[0], y[0]) for x, y in zip(xs, ys)):
                inside = sum(int(np.sum((x[0] > b.lb) & (x[0] < b.ub))) for x in xs)
                several = len({x[0].tobytes() for x in xs})
                # a move that overshoots ends on the bounds with every seed, a degenerate one (a product with a zero) in one point
                if inside * 4 >= len(xs) * len(b.lb) and several >= max(3, len(xs) // 4):
                    o.bad(site, "same_course", "two runs %s evaluate the same %s (%d)" % (where, what, len(xs)))
                    break
    o.nontrivial = len(d) >= 3
    o.label(case["mode"], "unseeded" if case["none"] else "reseeded")
    o.info = {"evals": len(a.calls), "generations": len(d)}
    return o
