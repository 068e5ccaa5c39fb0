"""C08: the history is a complete and immutable record of the run."""
from pbt import boot, scen
from pbt.engine import Outcome
from hypothesis import strategies as st
import numpy as np
PID = "C08"
RULE = ("generated solves of every optimizer class observed generation by generation (snapshots taken when the generation is recorded); after the run the history is compared with the snapshots, then the returned "
        "best and the live population are overwritten and the optimizer solves another problem, and the history is compared again; non-trivial = finished with >= 2 generations")


def units(tier):
    return scen.algo_units(32 if tier == "quick" else 900)


@st.composite
def strategy_(draw, a):
    c = draw(scen.scenario(a, bounds=scen.bounds_strategy(scen.ALLTYPES), epochs=(1, 9)))
    c["save"] = draw(st.sampled_from([True, True, True, False]))
    c["term"] = draw(st.sampled_from([None, None, {"max_epoch": 2}, {"max_fe": 60}, {"max_early_stop": 2}]))
    return c


def strategy(unit):
    return strategy_(unit["name"])


def snap(a):
    return (np.array(a.solution, dtype=float, copy=True), np.array(a.target.objectives, dtype=float, copy=True), float(a.target.fitness))


def eq(a, s):
    return scen.same(a.solution, s[0]) and scen.same(a.target.objectives, s[1]) and scen.same(a.target.fitness, s[2])


SERIES = ["list_global_best", "list_current_best", "list_global_worst", "list_current_worst"]
NUMS = ["list_global_best_fit", "list_current_best_fit", "list_diversity", "list_exploration", "list_exploitation", "list_epoch_time"]


def check(unit, case):
    o = Outcome()
    site = case["algo"]
    opt = scen.build(case)
    obs, done = [], []
    step0 = type(opt).track_optimize_step

    def step(*a, **k):
        r = step0(opt, *a, **k)
        h = opt.history
        if done:
            return r
        obs.append({"pop": [snap(x) for x in opt.pop], "last": {s: snap(getattr(h, s)[-1]) for s in SERIES},
                    "fit": (float(h.list_global_best_fit[-1]), float(h.list_current_best_fit[-1]))})
        return r
    opt.track_optimize_step = step
    kw = {"termination": dict(case["term"])} if case["term"] else {}
    r = scen.Run(case, save_population=case["save"], opt=opt, **kw)
    if r.error is not None:
        o.label("crashed")
        return o
    done.append(1)
    h = opt.history
    g = len(obs)
    for s in SERIES + NUMS + (["list_population"] if case["save"] else []):
        if len(getattr(h, s)) != g:
            o.bad(site, "length", "%s has %d entries, %d generations ran" % (s, len(getattr(h, s)), g))
            return o
    if not case["save"] and len(h.list_population):
        o.bad(site, "saved_unasked", "")
    if h.epoch != g:
        o.bad(site, "epoch", "%s recorded, %d ran" % (h.epoch, g))
    div = []
    for ob in obs:
        m = np.array([x[0] for x in ob["pop"]])
        div.append(float(np.mean(np.mean(np.abs(np.median(m, axis=0) - m), axis=0))))
    finite = bool(np.all(np.isfinite(div)))

    def compare(tag):
        for i, ob in enumerate(obs):
            for s in SERIES:
                if not eq(getattr(h, s)[i], ob["last"][s]):
                    o.bad(site, tag, "%s[%d] was %s when recorded, now %s" % (s, i, ob["last"][s], snap(getattr(h, s)[i])))
                    return
            if not scen.same(h.list_global_best_fit[i], ob["fit"][0]) or not scen.same(h.list_current_best_fit[i], ob["fit"][1]):
                o.bad(site, tag, "fitness series entry %d changed" % i)
                return
            if not scen.same(h.list_global_best[i].target.fitness, h.list_global_best_fit[i]) or not scen.same(h.list_current_best[i].target.fitness, h.list_current_best_fit[i]):
                o.bad(site, tag, "fitness series entry %d disagrees with the recorded agent" % i)
                return
            if case["save"]:
                p = h.list_population[i]
                if len(p) != len(ob["pop"]) or any(not eq(x, y) for x, y in zip(p, ob["pop"])):
                    o.bad(site, tag + "_population", "saved population %d is not the population at the end of that generation" % i)
                    return
    compare("changed_later")
    if finite:
        if not scen.close(h.list_diversity, div):
            o.bad(site, "diversity", "%s vs spread %s" % (h.list_diversity, div))
        s = np.array(h.list_exploration, dtype=float) + np.array(h.list_exploitation, dtype=float)
        ep = np.array(h.list_exploration, dtype=float)
        mx = max(div)
        want = 100.0 * np.array(div) / mx if mx > 0 else None
        if not scen.close(s, np.full(g, 100.0)) or not (np.all(ep >= -1e-9) and np.all(ep <= 100 + 1e-9)):
            o.bad(site, "exploration_exploitation", "exploration %s exploitation %s" % (h.list_exploration, h.list_exploitation))
        elif want is not None and not scen.close(ep, want):
            o.bad(site, "exploration_exploitation", "exploration %s, from diversity %s" % (ep, want))
    if any(t < 0 for t in h.list_epoch_time):
        o.bad(site, "epoch_time", "")
    if not o.violations:
        nums = {s: [float(x) for x in getattr(h, s)] for s in NUMS}
        # the caller scribbles over what it got, and the optimizer is used again
        for a in [r.best] + list(opt.pop) + ([opt.g_best] if opt.g_best is not None else []):
            try:
                a.solution[...] = 1e9 + 7
            except Exception:
                pass
            a.target = None
        compare("caller_mutation")
        if not o.violations:
            try:
                opt.solve(scen.make_problem(case, scen.call_limit(case))[0], seed=5)
            except Exception:
                pass
            if opt.history is h:
                o.bad(site, "next_run", "the next run writes into the same history object")
            else:
                compare("next_run")
            for s in NUMS:
                if not scen.same([float(x) for x in getattr(h, s)], nums[s]):
                    o.bad(site, "next_run", s)
    o.nontrivial = g >= 2
    o.label("gen>=2" if g >= 2 else "gen1", "saved" if case["save"] else "unsaved", case["minmax"])
    o.info = {"generations": g, "diversity": div[:3]}
    return o
