"""C04: same seed, same run."""
from pbt import boot, scen, algos
from pbt.engine import Outcome
from hypothesis import strategies as st
import numpy as np
import random
from pbt import sibling
PID = "C04"
RULE = ("generated pairs of solves of every optimizer class: the reference run in a fresh optimizer, the second one in a fresh optimizer or in one that already solved 0-2 other generated problems, or with another solve running inside one of the objective's calls "
        "(other dimension, direction, mode, termination), with different states of the process-global generators, clock and agent counter; oracle: equal sequence of objective arguments, equal result, "
        "untouched global generators; every third case also runs in a second interpreter with another hash seed and must give the same candidates, decoded values and result; non-trivial = both runs finished with >= 5 evaluations")


def units(tier):
    return scen.algo_units(30 if tier == "quick" else 900)


@st.composite
def strategy_(draw, a):
    c = draw(scen.scenario(a, bounds=scen.bounds_strategy(scen.ALLTYPES), epochs=(1, 8)))
    c["reuse"] = draw(st.integers(0, 2))
    c["pre"] = [draw(scen.scenario(a, bounds=scen.bounds_strategy(scen.ALLTYPES, exotic=False), params=False, epochs=(1, 4), dicts=False, tail=False)) for _ in range(c["reuse"])]
    c["same_problem"] = draw(st.booleans())
    c["g"] = draw(st.integers(0, 10 ** 6))
    c["nest"] = draw(st.one_of(st.none(), st.none(), st.integers(0, 60)))
    c["inner"] = draw(scen.scenario(a, bounds=scen.bounds_strategy(scen.ALLTYPES, exotic=False), params=False, modes=("single", "swarm"), epochs=(1, 4), dicts=False, tail=False)) if c["nest"] is not None else None
    c["sibling"] = draw(st.integers(0, 2)) == 0
    return c


def strategy(unit):
    return strategy_(unit["name"])


def tick(start, step):
    s = {"t": float(start)}

    def f():
        s["t"] += step
        return s["t"]
    return f


def check(unit, case):
    o = Outcome()
    site = case["algo"]
    boot.Clock.fake = tick(1000, 0.25)
    a = scen.Run(case)
    if a.error is not None:
        o.label("crashed")
        return o
    opt = scen.build(case)
    from mealpy.utils.agent import Agent
    Agent.ID += case["g"] % 97
    boot.Clock.fake = tick(case["g"] * 7.0, 1.75)
    for p in case["pre"]:
        r = scen.Run(dict(p, algo=case["algo"]), opt=opt)
        if r.error is not None:
            o.label("pre-crashed")
    np.random.seed(case["g"])
    random.seed(case["g"])
    s1, s2 = np.random.get_state(), random.getstate()
    problem = None
    if case["same_problem"] and not case.get("as_dict"):
        problem = (a.problem, a.rec, a.lb, a.ub)      # the very same problem object again
        a.rec.count = 0
    if case.get("nest") is not None:        # the objective runs an optimization of its own at one of its calls
        if problem is None:
            problem = scen.make_problem(case, scen.call_limit(case))
        rec, seen = problem[1], []

        def hook(x, v):
            if len(seen) == case["nest"]:
                seen.append(None)
                try:
                    scen.Run(dict(case["inner"], algo=case["algo"]))
                except scen.Reject:     # the defaults do not suit so few generations
                    pass
            seen.append(None)
        rec.hook = hook
    b = scen.Run(case, opt=opt, problem=problem)
    if case.get("nest") is not None:
        rec.hook = None
    t1, t2 = np.random.get_state(), random.getstate()
    boot.Clock.fake = None
    if s2 != t2 or s1[2] != t1[2] or not np.array_equal(s1[1], t1[1]):
        o.bad(site, "touches_global_rng", "process-global random state changed by solve()")
    tag = "nested" if case.get("nest") is not None else "reused" if case["pre"] else "fresh"
    if b.error is not None:
        o.bad(site, tag + "_crash", "same configuration ran before: %s %s" % (b.sig(), b.error))
        return o
    n = min(len(a.calls), len(b.calls))
    d = next((i for i in range(n) if not scen.same(a.calls[i][0], b.calls[i][0])), None)
    if d is not None or len(a.calls) != len(b.calls):
        o.bad(site, tag + "_differs", "evaluation sequences differ at %s (of %d / %d)" % (d, len(a.calls), len(b.calls)))
    elif not scen.same(a.best.solution, b.best.solution) or not scen.same(a.best.target.objectives, b.best.target.objectives):
        o.bad(site, tag + "_result_differs", "%s vs %s" % (a.best, b.best))
    elif not scen.same(a.opt.history.list_global_best_fit, b.opt.history.list_global_best_fit):
        o.bad(site, tag + "_history_differs", "")
    if case.get("sibling") and not o.violations:
        a.problem_object = a.opt.problem
        mine, other = sibling.digest(a), sibling.Client.run({k: v for k, v in case.items() if k not in ("pre", "g", "reuse", "same_problem", "sibling", "nest", "inner")})
        if other is None:
            o.label("sibling-lost")
        elif mine != other:
            o.bad(site, "process_differs", "the same run in another process (other hash seed): [evaluations, candidates, decoded values, result] %s / %s" % (mine, other))
        o.label("two-processes")
    o.nontrivial = n >= 5
    o.info = {"evals": n, "pre": len(case["pre"])}
    o.label(tag, case["mode"])
    return o
