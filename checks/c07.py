"""C07: function-evaluation accounting is exact."""
from pbt import scen
from pbt.engine import Outcome
from hypothesis import strategies as st
PID = "C07"
RULE = ("generated solves of every optimizer class in single/swarm/thread mode (process mode with a cross-process counter in separate units), with/without termination, fresh and reused; oracle: a counting "
        "objective; the reported count is compared at the end of every generation and of the run; non-trivial = finished with >= 2 generations")


def units(tier):
    q = tier == "quick"
    u = scen.algo_units(30 if q else 600)
    names = [x["name"] for x in u]
    u += [{"name": "process:" + n, "algo": n, "process": True, "n": 1 if q else 10, "weight": 3} for n in (names[::4] if q else names)]
    return u


@st.composite
def strategy_(draw, unit):
    a = unit.get("algo", unit["name"])
    if unit.get("process"):
        c = draw(scen.scenario(a, modes=("process",), epochs=(1, 2), pops=(0, 4), bounds=scen.bounds_strategy(exotic=False), dicts=False, params=False, tail=False))
        c["nw"] = draw(st.integers(2, 4))
    else:
        c = draw(scen.scenario(a, modes=("single", "swarm", "single", "swarm", "thread"), epochs=(1, 7)))
        if c["mode"] == "thread":
            c["nw"] = draw(st.integers(2, 4))
            c["epoch"] = min(c["epoch"], 3)
    c["term"] = draw(st.sampled_from([None, None, {"max_epoch": 3}, {"max_fe": 100000}]))
    c["reuse"] = draw(st.booleans()) and not unit.get("process")
    return c


def strategy(unit):
    return strategy_(unit)


def check(unit, case):
    o = Outcome()
    site = case["algo"]
    opt = scen.build(case)
    kw = {}
    if case.get("nw"):
        kw["n_workers"] = case["nw"]
    if case["term"]:
        kw["termination"] = dict(case["term"])
    tag = "process" if case["mode"] == "process" else ""
    for rnd in range(2 if case["reuse"] else 1):
        prob = scen.make_problem(case, scen.call_limit(case))
        rec = prob[1]
        counter = None
        if case["mode"] == "process":
            import multiprocessing
            counter = scen.SHARED = multiprocessing.get_context("fork").Value("q", 0)
            rec.keep, rec.limit, rec.shared = False, None, True
        obs = []
        cls_step = type(opt).track_optimize_step

        def step(*a, **k):
            obs.append((opt.nfe_counter, counter.value if counter is not None else len(rec.calls)))
            return cls_step(opt, *a, **k)
        if counter is None:
            opt.track_optimize_step = step             # (an instance attribute would not pickle in process mode)
        r = scen.Run(case, opt=opt, problem=prob, **kw)
        if r.error is not None:
            o.label("crashed")
            return o
        real = counter.value if counter is not None else len(rec.calls)
        base = "reused" if rnd else "fresh"
        if opt.nfe_counter != real:
            o.bad(site, "count" + tag, "%s run, mode %s: reported %d evaluations, objective was called %d times" % (base, case["mode"], opt.nfe_counter, real))
        for i, (a, b) in enumerate(obs):
            if a != b:
                o.bad(site, "count_midrun" + tag, "%s run, generation %d, mode %s: reported %d, called %d" % (base, i + 1, case["mode"], a, b))
                break
        o.nontrivial = o.nontrivial or len(obs) >= 2 or case["mode"] == "process"
        o.info = {"evals": real, "mode": case["mode"]}
    o.label(case["mode"], "term" if case["term"] else "noterm", "reuse" if case["reuse"] else "fresh")
    return o
