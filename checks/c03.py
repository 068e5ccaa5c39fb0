"""C03: best-so-far is monotone, direction-aware and never loses a recorded best."""
from pbt import scen
from pbt.engine import Outcome
import numpy as np
PID = "C03"
RULE = ("generated solves of every optimizer class with saved populations; oracle: a direction-aware running best over the initial population (captured when the first generation starts) and every saved "
        "population is compared with the recorded global/current best/worst series and the returned agent; non-trivial = >= 2 generations and the best improved or the landscape has ties/noise")


def units(tier):
    return scen.algo_units(45 if tier == "quick" else 1200)


def strategy(unit):
    return scen.scenario(unit["name"], epochs=(1, 10), obj=scen.objective(scales=(1.0, 1.0, -1.0, 1e-3, 1e3)))


def check(unit, case):
    o = Outcome()
    site = case["algo"]
    opt = scen.build(case)
    first = {}
    orig = opt.evolve

    def evolve(epoch):
        if "pop" not in first:
            first["pop"] = [a.target.fitness for a in opt.pop]
        return orig(epoch)
    opt.evolve = evolve
    r = scen.Run(case, opt=opt)
    if r.error is not None:
        o.label("crashed")
        return o
    h = opt.history
    mx = case["minmax"] == "max"
    better = (lambda a, b: a > b) if mx else (lambda a, b: a < b)
    pick = max if mx else min
    worst = min if mx else max
    gb = [float(x) for x in h.list_global_best_fit]
    cb = [float(x) for x in h.list_current_best_fit]
    pops = [[float(a.target.fitness) for a in p] for p in h.list_population]
    if any(np.isnan(v) for v in gb + cb + [f for p in pops for f in p]):
        o.label("nan")
        return o
    for i in range(1, len(gb)):
        if better(gb[i - 1], gb[i]):
            o.bad(site, "global_best_worsens", "generation %d: %r -> %r (%s)" % (i + 1, gb[i - 1], gb[i], case["minmax"]))
            break
    if any(not p for p in pops) or not first["pop"]:
        o.bad(site, "empty_population", "a recorded generation has no members")
        return o
    init = pick(float(v) for v in first["pop"])
    if better(init, gb[0]):
        o.bad(site, "initial_best_lost", "initial best %r, global best after generation 1 %r (%s)" % (init, gb[0], case["minmax"]))
    run = init
    for i, p in enumerate(pops):
        b = pick(p)
        run = pick(run, b)
        if cb[i] != b:
            o.bad(site, "current_best", "generation %d: recorded current best %r, best of population %r (%s)" % (i + 1, cb[i], b, case["minmax"]))
            break
        if better(run, gb[i]):
            o.bad(site, "global_best_lost", "generation %d: recorded global best %r but %r was seen (%s)" % (i + 1, gb[i], run, case["minmax"]))
            break
        cw = float(h.list_current_worst[i].target.fitness)
        if cw != worst(p):
            o.bad(site, "current_worst", "generation %d: recorded current worst %r, worst of population %r (%s)" % (i + 1, cw, worst(p), case["minmax"]))
            break
    gw = [float(a.target.fitness) for a in h.list_global_worst]
    for i in range(1, len(gw)):
        if better(gw[i], gw[i - 1]):
            o.bad(site, "global_worst_improves", "generation %d: %r -> %r" % (i + 1, gw[i - 1], gw[i]))
            break
    for i, a in enumerate(h.list_global_worst):
        if i < len(pops) and better(a.target.fitness, worst(pops[i])):
            o.bad(site, "global_worst_lost", "generation %d" % (i + 1))
            break
    f = float(r.best.target.fitness)
    if f != gb[-1]:
        o.bad(site, "returned_not_last_global_best", "%r vs %r" % (f, gb[-1]))
    if better(pick(run, pick(float(a.target.fitness) for a in opt.pop)), f):
        o.bad(site, "returned_not_best", "returned %r, seen %r" % (f, run))
    improved = gb[-1] != init
    o.label(case["minmax"], "improved" if improved else "flat")
    o.nontrivial = len(gb) >= 2 and (improved or any(p["k"] in ("const", "step", "noise", "plateau") for p in case["obj"]["parts"]))
    o.info = {"global_best_fit": gb[:5], "evals": len(r.calls)}
    return o
