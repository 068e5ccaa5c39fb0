"""C06: runs stop exactly when the first stopping condition is met."""
from pbt import boot, scen, algos
from pbt.engine import Outcome
from hypothesis import strategies as st
from mealpy import Termination
import numpy as np
PID = "C06"
RULE = ("generated combinations of max_epoch/max_fe/max_time/max_early_stop(+epsilon), as dict or (possibly reused) Termination object, on generated solves under a controlled clock that advances only with the "
        "objective; oracle: an unlimited run with the same seed gives, per generation, evaluations, elapsed time and best fitness, from which the stopping generation is computed; the limited run must stop exactly "
        "there and be a prefix of the unlimited one; invalid declarations must raise ValueError; non-trivial = a condition stopped the run early, two conditions were given, or an invalid declaration was judged")


def units(tier):
    q = tier == "quick"
    names = list(algos.all_classes())
    pick = names[::7] if q else names
    u = [{"name": n, "n": 30 if q else 300} for n in pick]
    u.append({"name": "declarations", "n": 400 if q else 4000})
    return u


@st.composite
def strategy_(draw, a):
    c = draw(scen.scenario(a, bounds=scen.bounds_strategy(exotic=False), epochs=(1, 16), pops=(0, 4), params=False,
                           obj=scen.objective(multi=False, kinds=["sphere", "step", "const", "plateau", "noise", "rastrigin"], scales=(1.0, -1.0, 1e-3, 100.0), offs=(0.0, -50.0))))
    t = {}
    keys = draw(st.lists(st.sampled_from(["max_epoch", "max_fe", "max_time", "max_early_stop"]), min_size=1, max_size=3, unique=True))
    if "max_epoch" in keys:
        t["max_epoch"] = draw(st.integers(1, 20))
    if "max_fe" in keys:
        t["max_fe"] = draw(st.integers(10, 40 * c["pop"]))
    if "max_time" in keys:
        t["max_time"] = draw(st.integers(1, 200)) / 8.0
    if "max_early_stop" in keys:
        t["max_early_stop"] = draw(st.integers(1, 6))
        if draw(st.booleans()):
            t["epsilon"] = draw(st.sampled_from([0.0, 1e-10, 1e-3, 0.1, 5.0]))
    c["term"] = t
    c["form"] = draw(st.sampled_from(["dict", "object", "object", "nested"]))
    c["reuse"] = draw(st.integers(0, 2))
    c["dt"] = draw(st.sampled_from([0.0, 0.125, 0.125, 0.25, 1.0]))
    c["t0"] = draw(st.sampled_from([0, 0, 5, 1000000]))
    c["exact"] = draw(st.integers(0, 20))     # move max_fe / max_time onto an exact generation boundary of the reference run
    return c


@st.composite
def decl(draw):
    key = draw(st.sampled_from(["max_epoch", "max_fe", "max_time", "max_early_stop"]))
    val = draw(st.one_of(st.integers(-5, 12), st.integers(-10, 2 * 10 ** 9), st.floats(allow_nan=True), st.sampled_from(["5", "a", None, [3], (1, 2), {"a": 1}]),
                         st.sampled_from([0, 1, 9, 10, 10000000, 10000001, 1000000000, 1000000001, 1000000, 1000001, 100000, 100001, 0.1, 0.0999])))
    return {"key": key, "val": val, "form": draw(st.sampled_from(["dict", "object"])), "other": draw(st.sampled_from([None, None, "max_epoch"])), "weird": draw(st.sampled_from([None, None, None, None, 5, "x", [1]]))}


def strategy(unit):
    return decl() if unit["name"] == "declarations" else strategy_(unit["name"])


RANGE = {"max_epoch": (1, 10000000), "max_fe": (10, 1000000000), "max_time": (0.1, 1000000), "max_early_stop": (1, 100000)}


def check_decl(unit, case):
    o = Outcome()
    kw = {case["key"]: case["val"]}
    if case["other"] and case["other"] != case["key"]:
        kw[case["other"]] = 2
    v = case["val"]
    num = isinstance(v, (int, float)) and not isinstance(v, bool)
    lo, hi = RANGE[case["key"]]
    if v is None:
        ok = len(kw) > 1
    else:
        ok = num and lo <= v <= hi
    opt = algos.all_classes()["PSO.OriginalPSO"](epoch=2, pop_size=5)
    prob = scen.RecProblem([scen.FloatVar(lb=[-1.], ub=[1.])], "min", scen.Recorder(lambda x: float(x[0])), log_to=None)
    o.nontrivial = True
    term = None
    try:
        if case["weird"] is not None:
            ok = False
            opt.solve(prob, termination=case["weird"], seed=1)
        elif case["form"] == "dict":
            term = dict(kw)
            opt.solve(prob, termination=term, seed=1)
        else:
            opt.solve(prob, termination=Termination(**kw), seed=1)
        res = "accepted"
    except ValueError:
        res = "ValueError"
    except Exception as e:
        res = repr(e)
    o.label("valid" if ok else "invalid", res.split("(")[0])
    if ok and res != "accepted":
        o.bad("declaration", "valid_rejected", "%s: %s" % (kw, res))
    if not ok and res != "ValueError":
        o.bad("declaration", "invalid_accepted", "%s (given as termination: %s): %s" % (kw, case["weird"], res))
    if not ok and prob.rec.count:
        o.bad("declaration", "evaluated_before_rejection", "%d evaluations" % prob.rec.count)
    if not o.violations and not ok:
        opt.solve(prob, seed=1)                      # still usable
        if opt.history.epoch != 2:
            o.bad("declaration", "unusable_after_rejection", "")
    return o


class Ticker:
    def __init__(self, t0, dt, rec):
        self.t0, self.dt, self.rec = t0, dt, rec

    def __call__(self):
        return self.t0 + self.dt * self.rec.count


def observed_run(case, termination=None, opt=None, later=0.0):
    """-> Run plus, per generation, evaluations so far, and the initial best."""
    if opt is None:
        opt = scen.build(case)
    prob = scen.make_problem(case, 10 ** 9)
    rec = prob[1]
    rec.keep = False
    obs, first = [], {}
    step0 = type(opt).track_optimize_step
    aft0 = type(opt).after_initialization

    def step(*a, **k):
        r = step0(opt, *a, **k)
        obs.append(rec.count)
        return r

    def aft(*a, **k):
        r = aft0(opt, *a, **k)
        first["best"] = float(opt.g_best.target.fitness)
        return r
    opt.track_optimize_step, opt.after_initialization = step, aft
    boot.Clock.fake = Ticker(case["t0"] + later, case["dt"], rec)
    kw = {"termination": termination} if termination is not None else {}
    r = scen.Run(case, opt=opt, problem=prob, **kw)
    boot.Clock.fake = None
    r.obs, r.first = obs, first.get("best")
    return r


def check(unit, case):
    if unit["name"] == "declarations":
        return check_decl(unit, case)
    o = Outcome()
    site = "termination"
    ref = observed_run(case)
    if ref.error is not None:
        o.label("crashed")
        return o
    E = case["epoch"]
    gb = [float(x) for x in ref.opt.history.list_global_best_fit]
    if len(gb) != E or len(ref.obs) != E:
        o.bad(site, "epochs", "%s: %d generations without termination, epoch=%d" % (case["algo"], len(gb), E))
        return o
    t = dict(case["term"])
    if case["exact"] and case["exact"] <= E:
        n = ref.obs[case["exact"] - 1]
        if "max_fe" in t and n >= 10:
            t["max_fe"] = n
        if "max_time" in t and n * case["dt"] >= 0.1:
            t["max_time"] = n * case["dt"]
    eps = t.get("epsilon", 1e-10)
    series = [ref.first] + gb
    stop, why = E, set()
    flat = 0
    for g in range(1, E + 1):
        d = abs(series[g - 1] - series[g])
        flat = flat + 1 if d <= eps else 0
        hit = set()
        if "max_epoch" in t and g >= t["max_epoch"]:
            hit.add("(MG)")
        if "max_fe" in t and ref.obs[g - 1] >= t["max_fe"]:
            hit.add("(FE)")
        if "max_time" in t and (case["t0"] + case["dt"] * ref.obs[g - 1]) - case["t0"] >= t["max_time"]:
            hit.add("(TB)")
        if "max_early_stop" in t and flat >= t["max_early_stop"]:
            hit.add("(ES)")
        if hit:
            stop, why = g, hit
            break
    arg = dict(t)
    if case["form"] == "nested":
        term = Termination(termination=dict(t))
    elif case["form"] == "object":
        term = Termination(**t)
    else:
        term = arg
    opt = None
    for k in range(case["reuse"] + 1):
        r = observed_run(case, term, opt if k % 2 else None, 64.0 * k)     # same termination again, with a new or the same optimizer
        if r.error is not None:
            o.bad(site, "crash", "%s use %d: %s %s" % (t, k + 1, r.sig(), r.error))
            return o
        opt = r.opt
        got = len(r.opt.history.list_global_best_fit)
        if got != stop or len(r.obs) != stop or r.opt.history.epoch != stop:
            o.bad(site, "stop", "%s %s (%s, use %d): stopped after %d generations, expected %d (%s); evaluations %s, elapsed per evaluation %s, best %s" % (
                case["algo"], t, case["form"], k + 1, got, stop, sorted(why), ref.obs[:8], case["dt"], [round(x, 6) for x in series[:8]]))
            return o
        if not scen.same(r.opt.history.list_global_best_fit, gb[:stop]):
            o.bad(site, "prefix", "%s: a stopping condition changed the course of the run" % case["algo"])
            return o
        if why and not any(w in r.opt.termination.message for w in why):
            o.bad(site, "message", "%r, but the condition met is %s" % (r.opt.termination.message, sorted(why)))
    if arg != t:
        o.bad(site, "dict_modified", "%s -> %s" % (t, arg))
    o.nontrivial = bool(stop < E or len(t) > 1)
    o.label(*(sorted(why) or ["epoch"]), case["form"], "reuse%d" % case["reuse"])
    o.info = {"term": t, "stop": stop, "epoch": E, "why": sorted(why)}
    return o
