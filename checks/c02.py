"""C02: the objective only sees feasible points, and reported solutions are feasible."""
from pbt import scen
from pbt.engine import Outcome
import numpy as np
PID = "C02"
RULE = ("generated solves of every optimizer class over float/int/bool/binary/permutation/string/categorical/sequence/transfer variables; oracle: every recorded objective argument and every "
        "reported solution is a finite 1-D vector of n_dims inside the bounds computed from the declaration, and its decoded form is a member of each variable's domain; "
        "non-trivial = finished with >= 10 evaluations")


def units(tier):
    return scen.algo_units(50 if tier == "quick" else 1200)


def strategy(unit):
    return scen.scenario(unit["name"], bounds=scen.bounds_strategy(scen.ALLTYPES))


def ref_box(vs):
    """Bounds from the declaration, independent of the variables' own lb/ub (eps 1e-4 slack below the open upper end)."""
    lo, hi = [], []
    for v in vs:
        t = v["t"]
        if t == "float":
            lo += list(v["lb"]); hi += list(v["ub"])
        elif t == "int":
            lo += [x - 0.5 for x in v["lb"]]; hi += [x + 0.5 for x in v["ub"]]
        elif t in ("bool", "bin"):
            lo += [0] * v["n"]; hi += [2] * v["n"]
        elif t == "perm":
            lo += [0] * v["n"]; hi += [v["n"]] * v["n"]
        elif t in ("str", "cat"):
            lo += [0] * len(v["k"]); hi += list(v["k"])
        elif t == "seq":
            lo += [0]; hi += [v["k"]]
        elif t == "tbin":
            lo += [-6.] * v["n"]; hi += [6.] * v["n"]
        else:
            lo += [-8.] * v["n"]; hi += [8.] * v["n"]
    return np.array(lo, dtype=float), np.array(hi, dtype=float)


def member(v, val):
    """Is the decoded value a member of the declared domain?"""
    t = v["t"]
    n = scen.var_size(v)
    vals = [val] if n == 1 else list(val)
    if len(vals) != n:
        return False
    if t == "float":
        return all(l <= x <= u for x, l, u in zip(vals, v["lb"], v["ub"]))
    if t == "int":
        return all(float(x) == int(x) and l <= x <= u for x, l, u in zip(vals, v["lb"], v["ub"]))
    if t in ("bin", "tbin"):
        return all(x in (0, 1) for x in vals)
    if t in ("bool", "tbool"):
        return all(x in (True, False) for x in vals)
    if t == "perm":
        return sorted(int(x) for x in vals) == list(range(v["n"]))
    if t == "str":
        return all(x in ["s%d" % i for i in range(k)] for x, k in zip(vals, v["k"]))
    if t == "cat":
        return all(any(x is y or (type(x) == type(y) and x == y) for y in [None, 1, "a", 2.5, "b", 7][:k]) for x, k in zip(vals, v["k"]))
    if t == "seq":
        return tuple(vals[0]) in ((1,), (2, 3), (4, 5, 6), (7, 8))[:v["k"]]
    return False


def check(unit, case):
    o = Outcome()
    site = case["algo"]
    r = scen.Run(case)
    lo, hi = ref_box(case["bounds"])
    n = len(lo)

    def infeasible(x):
        x = np.asarray(x)
        if x.ndim != 1 or x.shape[0] != n:
            return "shape"
        if not np.all(np.isfinite(np.asarray(x, dtype=float))):
            return "nonfinite"
        if not (np.all(x >= lo) and np.all(x <= hi)):
            return "bounds"
        return None
    plain = all(v["t"] == "float" for v in case["bounds"])
    vs = [scen.make_var(v) for v in case["bounds"]]

    def undecodable(x):
        pos = 0
        for spec, var in zip(case["bounds"], vs):
            k = scen.var_size(spec)
            try:
                d = var.decode(np.array(x[pos:pos + k], dtype=float))
                d = d[0] if k == 1 else d
            except Exception as e:
                return "%s %r" % (spec["t"], e)
            if not member(spec, d):
                return "%s decodes to %r" % (spec["t"], d)
            pos += k
        return None
    done = set()

    def judge(kind, i, x, full=True):
        m = infeasible(x)
        k = kind + "_" + m if m else None
        if m is None and full and not plain:
            m = undecodable(x)
            k = kind + "_domain" if m else None
        if m and k not in done:
            done.add(k)
            o.bad(site, k, "%s[%d] = %s (%s), box [%s, %s]" % (kind, i, x, m, lo, hi))
    for i, (x, v) in enumerate(r.calls):
        judge("eval", i, x, full=(i % 7 == 0))
    if r.error is not None:
        o.label("crashed")
        return o
    h = r.opt.history
    judge("best", 0, r.best.solution)
    for kind, agents in [("hist", list(h.list_global_best) + list(h.list_current_best) + list(h.list_global_worst) + list(h.list_current_worst)), ("pop", r.opt.pop)] + [("saved", p) for p in h.list_population]:
        for i, a in enumerate(agents):
            judge(kind, i, a.solution, full=(i == 0))
    o.nontrivial = len(r.calls) >= 10
    o.label("float" if plain else "mixed", *{v["t"] for v in case["bounds"]})
    o.info = {"evals": len(r.calls), "box": [lo.tolist(), hi.tolist()]}
    return o
