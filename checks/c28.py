"""C28: a run depends on the problem, not on how the problem is written down."""
from pbt import boot, scen, algos
from pbt.engine import Outcome
from hypothesis import strategies as st
from mealpy import Problem, FloatVar, IntegerVar, Termination
import numpy as np
PID = "C28"
RULE = ("generated scenarios for every optimizer, each run twice with the same seed in different notations (Problem subclass or dictionary; bounds as a single variable, list or tuple; box sides as lists, tuples, arrays or scalars; objective returned as float, "
        "numpy scalar, int-valued number, list, tuple, 1-D or 2-D array; several weighted objectives or the one weighted sum; explicit all-one weights or none; names; saved populations or not; a termination that cannot bind; optimizer arguments by position "
        "or keyword; unused worker count); objective values and weights are dyadic so that every summation order is exact; oracle: equal evaluation sequence, equal result and equal fitness history; non-trivial = notations differ in >= 2 aspects and both runs "
        "finished with >= 5 evaluations")


def units(tier):
    return scen.algo_units(14 if tier == "quick" else 500)


NOTATION = {"problem": ["object", "dict"], "bounds": ["single", "list", "tuple"], "sides": ["list", "tuple", "array", "scalar"], "ret": ["float", "np", "list", "tuple", "array", "array2", "buffer"], "scalarize": [False, True],
            "ones": [False, True], "pname": [None, "my problem"], "vname": ["x", "delta"], "save": [False, True], "term": [None, "dict", "object"], "args": ["kw", "pos"], "workers": [None, 3], "extra": [False, True], "minimize": [False]}


@st.composite
def strategy_(draw, a):
    c = draw(scen.scenario(a, bounds=scen.bounds_strategy(exotic=False), epochs=(1, 7), pops=(0, 10), dicts=False))
    c["nt"] = [{k: draw(st.sampled_from(v)) for k, v in sorted(NOTATION.items())} for _ in range(2)]
    return c


def strategy(unit):
    return strategy_(unit["name"])


class Dyadic:
    """the scenario's objective, values rounded to multiples of 2^-20 (so that weighted sums are exact)"""

    def __init__(self, inner, spec, nt, serial):
        self.inner, self.nt = inner, nt
        self.buf = np.zeros(1 if nt["scalarize"] else len(spec["parts"])) if serial else None
        w = spec.get("w")
        n = len(spec["parts"])
        self.w = [1.0] * n if w is None else list(w)

    def __call__(self, x):
        v = [round(float(np.clip(t, -1e8, 1e8)) * 2 ** 20) / 2.0 ** 20 for t in self.inner.raw(x)]
        if self.nt["scalarize"]:
            v = [sum(a * b for a, b in zip(self.w, v))]
        r = self.nt["ret"]
        if len(v) == 1 and r in ("float", "np"):
            return v[0] if r == "float" else np.float64(v[0])
        if r == "buffer" and self.buf is not None:            # the caller's own array, used again at every call
            self.buf[:] = v
            return self.buf
        return tuple(v) if r == "tuple" else np.array(v) if r == "array" else np.array([v]) if r == "array2" else v


def variables(case, nt):
    out = []
    for s in case["bounds"]:
        s = dict(s, name=nt["vname"] + s.get("name", "v"))
        if s["t"] in ("float", "int"):
            f = {"list": list, "tuple": tuple, "array": np.array, "scalar": lambda v: v[0] if len(v) == 1 else list(v)}[nt["sides"]]
            cls = FloatVar if s["t"] == "float" else IntegerVar
            out.append(cls(lb=f(s["lb"]), ub=f(s["ub"]), name=s["name"]))
        else:
            out.append(scen.make_var(s))
    return out


def one(case, nt):
    vs = variables(case, nt)
    probe = Problem(variables(case, nt), log_to=None)
    rec = scen.Recorder(Dyadic(scen.Obj(case["obj"], probe.lb, probe.ub), case["obj"], nt, case["mode"] in ("single", "swarm")), scen.call_limit(case))
    b = vs[0] if len(vs) == 1 and nt["bounds"] == "single" else tuple(vs) if nt["bounds"] == "tuple" else vs
    kw = dict(log_to=None, save_population=nt["save"])
    if nt["scalarize"]:
        if nt["ones"]:
            kw["obj_weights"] = [1.0]
    elif case["obj"].get("w") is not None:
        kw["obj_weights"] = list(case["obj"]["w"]) if not nt["ones"] else np.array(case["obj"]["w"])
    elif nt["ones"]:
        kw["obj_weights"] = [1.0] * len(case["obj"]["parts"])
    if nt["pname"]:
        kw["name"] = nt["pname"]
    if nt["extra"]:
        kw["data"] = {"rows": [1, 2, 3]}
    if nt["problem"] == "dict":
        p = dict(bounds=b, minmax=case["minmax"], obj_func=rec, **kw)
    else:
        p = scen.RecProblem(b, case["minmax"], rec, **kw)
    if nt["args"] == "pos":
        cls = algos.all_classes()[case["algo"]]
        try:
            opt = cls(case["epoch"], case["pop"], **case.get("params", {}))
        except ValueError as e:
            raise scen.Reject(str(e))
        if opt.epoch != case["epoch"] or opt.pop_size != case["pop"]:
            opt = scen.build(case)
    else:
        opt = scen.build(case)
    kw = {}
    if nt["term"]:
        kw["termination"] = {"max_epoch": 90000} if nt["term"] == "dict" else Termination(max_epoch=90000, log_to=None)
    if nt["workers"]:
        kw["n_workers"] = nt["workers"]
    return scen.Run(case, opt=opt, problem=(p, rec, probe.lb, probe.ub), **kw)


def check(unit, case):
    o = Outcome()
    site = case["algo"]
    n1, n2 = case["nt"]
    a, b = one(case, n1), one(case, n2)
    diff = [k for k in sorted(NOTATION) if n1[k] != n2[k]]
    if a.error is not None or b.error is not None:
        if (a.error is None) != (b.error is None):
            o.bad(site, "one_notation_fails", "%s: %s / %s" % (diff, a.sig(), b.sig()))
        o.label("error")
        return o
    n = min(len(a.calls), len(b.calls))
    d = next((i for i in range(n) if not scen.same(a.calls[i][0], b.calls[i][0])), None)
    if d is not None or len(a.calls) != len(b.calls):
        o.bad(site, "course_differs", "evaluation %s of %d / %d; notations differ in %s" % (d, len(a.calls), len(b.calls), diff))
    elif not scen.same(a.best.solution, b.best.solution) or not scen.same(a.best.target.fitness, b.best.target.fitness):
        o.bad(site, "result_differs", "%r / %r; notations differ in %s" % (a.best.target.fitness, b.best.target.fitness, diff))
    elif not scen.same(a.opt.history.list_global_best_fit, b.opt.history.list_global_best_fit) or not scen.same(a.opt.history.list_current_best_fit, b.opt.history.list_current_best_fit):
        o.bad(site, "history_differs", "notations differ in %s" % diff)
    o.nontrivial = n >= 5 and len(diff) >= 2
    o.info = {"evals": n, "aspects": len(diff)}
    o.label(case["mode"], *[k for k in diff if k in ("problem", "scalarize", "ret", "save", "term")])
    return o
