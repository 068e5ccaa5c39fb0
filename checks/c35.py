"""C35: a user's own variable types, problem constraints and repair rules are honoured."""
from pbt import boot, scen, algos
from pbt.engine import Outcome
from hypothesis import strategies as st
import numpy as np
from mealpy import Problem
from mealpy.utils.space import BaseVar
PID = "C35"
RULE = ("for every optimizer: generated user-defined variable types (a lattice with its own generate/encode/decode/correct, alone or next to library variables), Problem subclasses with their own correct_solution (sorted, budgeted or tied coordinates) and "
        "Optimizer subclasses with their own amend_solution (a lattice), 1-6 dimensions, both directions, single/swarm/thread mode, tuned parameters, up to 60 generations; oracle: every solution given to the objective and every reported one (returned best, "
        "recorded bests, final population) satisfies the user's rule - with an own amend_solution those that the problem generated itself excepted - and a reported solution decodes through the user's decode to a member of the user's domain; non-trivial = "
        "ten or more candidates judged")


class Lattice(BaseVar):
    """levels lo, lo+step, ..., lo+m*step in every coordinate; the decoded value is the tuple of level numbers"""

    def __init__(self, lo, step, m, n, name):
        super().__init__(name)
        self.lo, self.step, self.m, self.n_vars = lo, step, m, n
        self.lb, self.ub = np.full(n, lo, dtype=float), np.full(n, lo + m * step, dtype=float)

    def generate(self):
        return [int(k) for k in self.generator.integers(0, self.m + 1, self.n_vars)]

    def encode(self, x):
        return np.array([self.lo + self.step * k for k in x], dtype=float)

    def decode(self, x):
        return [("level", int(k)) for k in np.round((np.asarray(self.correct(x)) - self.lo) / self.step)]

    def correct(self, x):
        k = np.clip(np.round((np.asarray(x, dtype=float) - self.lo) / self.step), 0, self.m)
        return self.lo + self.step * k

    def holds(self, x):
        k = (np.asarray(x, dtype=float) - self.lo) / self.step
        return bool(np.all(k == np.round(k)) and np.all(k >= 0) and np.all(k <= self.m))


class Ruled(Problem):
    """a problem with a condition of its own"""

    def __init__(self, bounds, minmax, rec, rule, **kw):
        self.rec, self.rule, self.made = rec, rule, set()
        super().__init__(bounds, minmax, **kw)

    def obj_func(self, x):
        return self.rec(x)

    def correct_solution(self, x):
        return self.bend(super().correct_solution(x))

    def generate_solution(self, encoded=True):
        x = super().generate_solution(encoded)
        if encoded:
            x = self.bend(np.asarray(x, dtype=float))
            self.made.add(x.tobytes())
        return x

    def bend(self, x):
        if self.rule == "sorted":
            return np.sort(x)
        if self.rule == "tied":
            return np.full(len(x), x[0])
        if self.rule == "budget":
            u = x - self.lb
            cap = 0.5 * np.sum(self.ub - self.lb)
            return x if np.sum(u) <= cap else self.lb + u * (cap / np.sum(u))
        return x

    def holds(self, x):
        if self.rule == "sorted":
            return bool(np.all(np.diff(x) >= 0))
        if self.rule == "tied":
            return bool(np.all(x == x[0]))
        if self.rule == "budget":
            return bool(np.sum(x - self.lb) <= 0.5 * np.sum(self.ub - self.lb) * (1 + 1e-9))
        return True


def units(tier):
    n = 14 if tier == "quick" else 500
    return [{"name": a, "n": n} for a in algos.all_classes()]


@st.composite
def strategy_(draw, a):
    c = draw(scen.scenario(a, bounds=st.just([]), modes=("single", "swarm", "thread", "single", "swarm"), obj=scen.objective(multi=False), epochs=(1, draw(st.sampled_from([8, 20, 60]))), pops=(0, 14)))
    c["kind"] = draw(st.sampled_from(["variable", "variable", "sorted", "tied", "budget", "amend"]))
    step = draw(st.sampled_from([0.125, 0.5, 1.0, 4.0]))
    lat = lambda n, name: {"lo": draw(st.integers(-8, 8)) * step, "step": step, "m": draw(st.sampled_from([1, 2, 5, 16, 64])), "n": n, "name": name}
    if c["kind"] == "variable":
        c["lattice"] = [lat(draw(st.integers(1, 3)), "v%d" % i) for i in range(draw(st.integers(1, 3)))]
        c["more"] = draw(st.lists(scen.one_var("w", scen.DETTYPES), max_size=1)) if draw(st.booleans()) else []
    else:
        c["lattice"] = [lat(draw(st.integers(2 if c["kind"] != "amend" else 1, 6)), "v")]
        c["more"] = []
    c["as_dict"] = False
    return c


def strategy(unit):
    return strategy_(unit["name"])


def check(unit, case):
    o = Outcome()
    site = case["algo"]
    kind = case["kind"]
    own = [Lattice(v["lo"], v["step"], v["m"], v["n"], v["name"]) for v in case["lattice"]]
    if kind == "variable":
        bounds = own + [scen.make_var(v) for v in case["more"]]
    else:
        bounds = [scen.FloatVar(lb=tuple(own[0].lb), ub=tuple(own[0].ub), name="v")]
    lb, ub = np.concatenate([b.lb for b in bounds]).astype(float), np.concatenate([b.ub for b in bounds]).astype(float)
    rec = scen.Recorder(scen.Obj(case["obj"], lb, ub), scen.call_limit(case))
    problem = Ruled(bounds, case["minmax"], rec, kind, log_to=None, save_population=True)
    opt = scen.build(case)
    if kind == "amend":
        lat = own[0]
        opt.__class__ = type("Own" + type(opt).__name__, (type(opt),), {"amend_solution": lambda self, x: lat.correct(np.clip(x, self.problem.lb, self.problem.ub))})
    r = scen.Run(case, opt=opt, problem=(problem, rec, lb, ub), **({"n_workers": 2} if case["mode"] == "thread" else {}))
    if r.error is not None:
        o.label("error")
        return o

    def holds(x):
        x = np.asarray(x, dtype=float)
        if kind == "variable":
            at = 0
            for v in own:
                if not v.holds(x[at:at + v.n_vars]):
                    return False
                at += v.n_vars
            return True
        if kind == "amend":
            return own[0].holds(x) or x.tobytes() in problem.made
        return problem.holds(x)
    for i, (x, _) in enumerate(r.calls):
        if not holds(x):
            o.bad(site, "rule_broken", "%s: evaluation %d of %d is %s (rule %s)" % (kind, i, len(r.calls), np.asarray(x).tolist(), case["lattice"]))
            break
    h = r.opt.history
    said = [("returned best", r.best)] + [("global best %d" % i, a) for i, a in enumerate(h.list_global_best)] + [("current best %d" % i, a) for i, a in enumerate(h.list_current_best)] + [("agent %d" % i, a) for i, a in enumerate(r.opt.pop)]
    for what, a in said:
        if not holds(a.solution):
            o.bad(site, "rule_broken_in_report", "%s: %s is %s" % (kind, what, np.asarray(a.solution).tolist()))
            break
    if kind == "variable":
        d = problem.decode_solution(r.best.solution)
        at = 0
        for v in own:
            want = [("level", int(round((z - v.lo) / v.step))) for z in r.best.solution[at:at + v.n_vars]]
            at += v.n_vars
            got = d.get(v.name)
            if ([got] if v.n_vars == 1 else list(got)) != want:
                o.bad(site, "own_decode", "%s decodes to %s, expected %s" % (v.name, got, want))
                break
    o.nontrivial = len(r.calls) >= 10
    o.label(kind, case["mode"], case["minmax"])
    o.info = {"evals": len(r.calls)}
    return o
