"""C12: fitness is the weighted sum of the objectives."""
from pbt import boot
from pbt.engine import Outcome
from hypothesis import strategies as st
from mealpy import Problem, FloatVar
from mealpy.utils.target import Target
from mealpy.utils.agent import Agent
import math
import numpy as np
PID = "C12"
RULE = ("generated objective vectors (python/numpy scalars, lists, tuples, arrays of any small size and shape) and weights (None or any container), through Target, Problem.get_target and a solve; oracle: exact rational "
        "dot product with tolerance 1e-9 of the absolute sum, order-preserving objectives, n_objs validation, rejection of unsupported values, copy-then-mutate independence of targets and agents; "
        "non-trivial = >= 2 objectives, or a rejection or a copy judged")

val = st.one_of(st.integers(-1000, 1000), st.floats(-1e6, 1e6), st.integers(-10 ** 12, 10 ** 12), st.sampled_from([0, -0.0, 1e-12, 1e15]))
wval = st.one_of(st.sampled_from([0, 1, 1.0, 0.5, -1, 2, 1e-3, 1e3]), st.floats(-100, 100))


def units(tier):
    n = 1500 if tier == "quick" else 30000
    return [{"name": x, "n": n if x != "solve" else n // 5} for x in ("target", "problem", "solve", "agent")]


@st.composite
def strategy_(draw, name):
    n = draw(st.sampled_from([1, 1, 2, 2, 3, 5, 8]))
    c = {"objs": [draw(val) for _ in range(n)],
         "form": draw(st.sampled_from(["list", "tuple", "array", "array2d", "column"] + (["scalar", "npscalar", "npint", "bool"] if n == 1 else []))),
         "w": draw(st.one_of(st.none(), st.lists(wval, min_size=n, max_size=n))),
         "wform": draw(st.sampled_from(["list", "tuple", "array"])),
         "wrong": draw(st.sampled_from([None, None, None, None, "short", "long", "bad"])),
         "bad": draw(st.sampled_from(["text", "none", "dict", "set", "gen"])),
         "minmax": draw(st.sampled_from(["min", "max"])), "seed": draw(st.integers(0, 999))}
    return c


def strategy(unit):
    return strategy_(unit["name"])


def objs_of(case):
    v, f = case["objs"], case["form"]
    return {"list": lambda: list(v), "tuple": lambda: tuple(v), "array": lambda: np.array(v, dtype=float), "array2d": lambda: np.array([v], dtype=float), "column": lambda: np.array(v, dtype=float).reshape(-1, 1),
            "scalar": lambda: v[0], "npscalar": lambda: np.float64(v[0]), "npint": lambda: np.int64(int(v[0])), "bool": lambda: bool(v[0])}[f]()


def weights_of(case, w=None):
    w = case["w"] if w is None else w
    return None if w is None else {"list": list, "tuple": tuple, "array": np.array}[case["wform"]](w)


def numbers(case):
    if case["form"] == "npint":
        return [int(case["objs"][0])]
    if case["form"] == "bool":
        return [int(bool(case["objs"][0]))]
    return case["objs"]


def expect(objs, w):
    w = [1.0] * len(objs) if w is None else w
    terms = [float(a) * float(b) for a, b in zip(objs, w)]
    return math.fsum(terms), 1e-9 * math.fsum(abs(t) for t in terms)


BAD = {"text": lambda: "12", "none": lambda: None, "dict": lambda: {1: 2}, "set": lambda: {1, 2}, "gen": lambda: (i for i in range(2))}


def judge(o, site, t, objs, w, what):
    f, tol = expect(objs, w)
    got = np.asarray(t.objectives, dtype=float)
    if got.shape != (len(objs),) or any(float(a) != float(b) for a, b in zip(got, objs)):
        o.bad(site, "objectives", "%s: objectives %s, the function returned %s" % (what, t.objectives, objs))
    if np.ndim(t.fitness) != 0 or not abs(float(t.fitness) - f) <= tol:
        o.bad(site, "fitness", "%s: fitness %r, weighted sum %r of %s with weights %s" % (what, t.fitness, f, objs, w))


def check(unit, case):
    o = Outcome()
    site = unit["name"]
    objs, raw = numbers(case), objs_of(case)
    o.nontrivial = len(objs) >= 2 or case["wrong"] is not None or site == "agent"
    o.label(case["form"], "w" if case["w"] is not None else "now", str(case["wrong"]))
    o.info = {"objs": [float(x) for x in objs], "w": case["w"]}
    keep = np.array(raw, dtype=float, copy=True)
    if site == "target":
        if case["wrong"] == "bad":
            try:
                Target(BAD[case["bad"]]())
                o.bad(site, "bad_accepted", case["bad"])
            except ValueError:
                pass
            except Exception as e:
                o.bad(site, "bad_accepted", "%s: %r instead of ValueError" % (case["bad"], e))
            return o
        wraw = weights_of(case)
        t = Target(raw, wraw)
        judge(o, site, t, objs, case["w"], "Target")
        c = t.copy()
        judge(o, site, c, objs, case["w"], "copy")
        c.set_objectives([x + 1 for x in objs])
        c.calculate_fitness(c.weights)
        judge(o, site, c, [float(x) + 1 for x in objs], case["w"], "copy after set_objectives")
        judge(o, site, t, objs, case["w"], "original after changing the copy")
        if isinstance(t.objectives, np.ndarray):
            k = t.copy()
            k.objectives[...] = -7.5e9 if k.objectives.dtype.kind == "f" else -7
            judge(o, site, t, objs, case["w"], "original after writing into the copy's objectives")
        if isinstance(raw, np.ndarray):
            raw[...] = 123.0
            judge(o, site, t, objs, case["w"], "target after the caller reused its array")
        elif isinstance(raw, (list, tuple)) and not np.array_equal(np.array(raw, dtype=float), keep):
            o.bad(site, "input_modified", "")
        return o
    if site == "agent":
        g = np.random.default_rng(case["seed"])
        sol = g.random(3)
        a = Agent(solution=sol.copy(), target=Target(raw, weights_of(case)), velocity=g.random(3))
        a.update(extra=5, local=None)
        b = a.copy()
        judge(o, site, b.target, objs, case["w"], "copied agent")
        if not np.array_equal(b.solution, sol) or b.extra != 5 or b.local is not None or not np.array_equal(b.velocity, a.velocity):
            o.bad(site, "copy_content", "attributes differ after copy")
        if b.id == a.id:
            o.bad(site, "id", "copy shares the id %s" % a.id)
        b.solution[...] = 9.0
        b.target.set_objectives([0.25] * len(objs))
        b.target.calculate_fitness(b.target.weights)
        b.update(extra=6)
        if not np.array_equal(a.solution, sol) or a.extra != 5:
            o.bad(site, "copy_shared", "changing the copy changed the original")
        judge(o, site, a.target, objs, case["w"], "original after changing the copy")
        e = Agent(solution=None)
        if e.copy().solution is not None or e.copy().target is not None:
            o.bad(site, "copy_empty", "")
        return o
    wrong = case["wrong"]
    w = case["w"]
    if wrong in ("short", "long"):
        w = (w or [1.0] * len(objs))
        w = w[:-1] if wrong == "short" else list(w) + [1.0]
        if len(w) == 0:
            return o
    seen = []

    def fun(x):
        seen.append(1)
        return BAD[case["bad"]]() if wrong == "bad" else raw
    kw = {} if w is None else {"obj_weights": weights_of(case, w)}

    class P(Problem):
        def obj_func(self, x):
            return fun(x)
    p = P([FloatVar(lb=[-1.] * 2, ub=[1.] * 2)], case["minmax"], log_to=None, **kw)
    if site == "problem":
        x = np.array([0.5, -0.25])
        if wrong == "bad":
            for f in (lambda: p.get_target(x), lambda: p.n_objs):
                try:
                    f()
                    o.bad(site, "bad_accepted", case["bad"])
                except ValueError:
                    pass
                except Exception as e:
                    o.bad(site, "bad_accepted", "%s: %r instead of ValueError" % (case["bad"], e))
            return o
        if wrong in ("short", "long"):
            try:
                n = p.n_objs
                o.bad(site, "weights_length", "%d weights, %d objectives: n_objs = %r" % (len(w), len(objs), n))
            except ValueError:
                pass
            return o
        judge(o, site, p.get_target(x), objs, w, "Problem.get_target")
        n = p.n_objs
        if n != len(objs):
            o.bad(site, "n_objs", "%r for %d objectives" % (n, len(objs)))
        judge(o, site, p.get_target(x), objs, w, "Problem.get_target after n_objs")
        if p.n_objs != n:
            o.bad(site, "n_objs", "changes on the second query")
        return o
    if wrong:
        return o
    from mealpy import PSO
    best = PSO.OriginalPSO(epoch=2, pop_size=5).solve(p, seed=case["seed"])
    judge(o, site, best.target, objs, w, "solve")
    return o
