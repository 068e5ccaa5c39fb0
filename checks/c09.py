"""C09: starting solutions are honoured."""
from pbt import boot, scen
from pbt.engine import Outcome
from hypothesis import strategies as st
import numpy as np
PID = "C09"
RULE = ("generated feasible starting solutions (list/tuple/array outer x list/tuple/array rows) for every optimizer class in single/swarm/thread mode, both directions, plus wrong counts/lengths/ragged/non-sequences; "
        "oracle: they are the first pop_size recorded objective arguments, in order (as a set in thread mode), the result (with an objective that often has its optimum at a starting point, anywhere in the list) is at least as good as the best of them, the caller's container is unchanged, and wrong "
        "shapes raise ValueError with no evaluation; non-trivial = finished or correctly rejected")


def units(tier):
    return scen.algo_units(22 if tier == "quick" else 600)


@st.composite
def strategy_(draw, a):
    c = draw(scen.scenario(a, modes=("single", "swarm", "single", "swarm", "thread"), epochs=(1, 4), bounds=scen.bounds_strategy(scen.DETTYPES), params=False))
    if c["mode"] == "thread":
        c["epoch"] = 1
    c["outer"] = draw(st.sampled_from(["list", "tuple", "array"]))
    c["inner"] = draw(st.sampled_from(["list", "tuple", "array"]))
    c["where"] = draw(st.sampled_from(["random", "clustered", "corner", "same"]))
    c["g"] = draw(st.integers(0, 10 ** 6))
    c["star"] = draw(st.sampled_from([None, 0.0, 0.5, 1.0, 1.0, 0.9]))
    c["wrong"] = draw(st.sampled_from([None, None, None, None, "fewer", "more", "short", "long", "ragged", "flat", "scalar", "empty"]))
    return c


def strategy(unit):
    return strategy_(unit["name"])


def contain(rows, outer, inner):
    if outer == "array":
        return np.array(rows)
    f = {"list": lambda r: [float(x) for x in r], "tuple": lambda r: tuple(float(x) for x in r), "array": lambda r: np.array(r)}[inner]
    rows = [f(r) for r in rows]
    return rows if outer == "list" else tuple(rows)


class Star:
    def __init__(self, at, sign):
        self.at, self.sign = np.array(at, dtype=float), sign

    def raw(self, x):
        return np.array([self(x)])

    def __call__(self, x):
        return self.sign * float(np.sum((np.asarray(x, dtype=float) - self.at) ** 2))


def check(unit, case):
    o = Outcome()
    site = case["algo"]
    if case.get("star") is not None:
        case = dict(case, obj={"parts": [{"k": "sphere", "c": 0.5, "s": 1.0, "o": 0.0}], "ret": "float"})
    opt = scen.build(case)
    prob = scen.make_problem(case, scen.call_limit(case))
    probe = scen.Problem([scen.make_var(s) for s in case["bounds"]], log_to=None)
    lb, ub = prob[2], prob[3]
    n, d = opt.pop_size, len(lb)
    g = np.random.default_rng(case["g"])
    w = {"random": lambda: g.random(d), "clustered": lambda: 0.4 + 0.01 * g.random(d), "corner": lambda: g.integers(0, 2, d).astype(float), "same": lambda: np.full(d, 0.25)}[case["where"]]
    rows = [np.array(probe.correct_solution(lb + w() * (ub - lb)), dtype=float) for _ in range(n)]
    wrong = case["wrong"]
    if wrong:
        if wrong == "fewer":
            rows = rows[:-1]
        elif wrong == "more":
            rows = rows + [rows[0]]
        elif wrong == "short":
            rows = [r[:-1] for r in rows]
        elif wrong == "long":
            rows = [np.append(r, r[0]) for r in rows]
        start = contain(rows, case["outer"], case["inner"])
        if wrong == "ragged":
            start = [[float(x) for x in r] for r in rows]
            start[-1] = start[-1] + [0.0]
        elif wrong == "flat":
            start = [float(r[0]) for r in rows]
        elif wrong == "scalar":
            start = 3.0
        elif wrong == "empty":
            start = []
        kw = {"n_workers": 2} if case["mode"] == "thread" else {}
        r = scen.Run(case, opt=opt, problem=prob, start=start, **kw)
        if not isinstance(r.error, ValueError):
            o.bad(site, "wrong_accepted", "%s: %s" % (wrong, "accepted" if r.error is None else "%s: %s" % (r.sig(), r.error)))
        elif prob[1].count:
            o.bad(site, "wrong_evaluated", "%s: %d evaluations before the ValueError" % (wrong, prob[1].count))
        o.nontrivial = True
        o.label("wrong:" + wrong)
        return o
    if case.get("star") is not None:        # one of the starting points is the optimum: nothing else can make up for losing it
        prob[1].fn = Star(rows[min(n - 1, int(case["star"] * n))], 1.0 if case["minmax"] == "min" else -1.0)
    start = contain(rows, case["outer"], case["inner"])
    keep = [r.copy() for r in rows]
    kw = {"n_workers": 3} if case["mode"] == "thread" else {}
    r = scen.Run(case, opt=opt, problem=prob, start=start, **kw)
    if r.error is not None:
        plain = scen.Run(case, **kw)
        if plain.error is not None:
            o.label("crashed")       # fails without starting solutions too: C23
            return o
        o.bad(site, "crash", "%s of %s, mode %s: %s %s" % (case["outer"], case["inner"], case["mode"], r.sig(), r.error))
        return o
    # SLO pairs every agent with its opposite point, which is evaluated right after it
    step = 2 if site in ("SLO.ModifiedSLO", "SLO.ImprovedSLO") else 1
    got = [np.asarray(x, dtype=float) for x, v in r.calls[:n * step]][::step]
    if case["mode"] == "thread":
        got = sorted(x.tolist() for x in got)
        want = sorted(x.tolist() for x in keep)
    else:
        got, want = [x.tolist() for x in got], [x.tolist() for x in keep]
    if got != want:
        i = next((i for i, (a, b) in enumerate(zip(got, want)) if a != b), min(len(got), len(want)))
        o.bad(site, "not_first_evaluated", "mode %s: evaluation %d is %s, expected %s" % (case["mode"], i, got[i] if i < len(got) else None, want[i] if i < len(want) else None))
    fits = [r.obj.fitness(x) if case.get("star") is None else prob[1].fn(x) for x in keep]
    f = float(r.best.target.fitness)
    b = max(fits) if case["minmax"] == "max" else min(fits)
    if (f < b if case["minmax"] == "max" else f > b) and not scen.close(f, b):
        o.bad(site, "worse_than_start", "%s: best given %r, result %r" % (case["minmax"], b, f))
    now = [np.asarray(x, dtype=float) for x in start]
    if len(now) != n or any(not scen.same(a, b) for a, b in zip(now, keep)):
        o.bad(site, "caller_data_modified", "")
    o.nontrivial = True
    o.label(case["mode"], case["outer"] + "/" + case["inner"], case["where"], case["minmax"], "star" if case.get("star") is not None else "any")
    o.info = {"pop": n, "evals": len(r.calls)}
    return o
