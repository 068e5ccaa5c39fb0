"""C05: thread and process modes only parallelise evaluation."""
from pbt import boot, scen, algos
from pbt.engine import Outcome
from hypothesis import strategies as st
import hashlib, time
import numpy as np
PID = "C05"
RULE = ("generated solves of every optimizer class run in swarm mode and again in thread (or process) mode with 2..6 workers, the objective delaying its return by a generated function of the position so that "
        "evaluations finish out of submission order; oracle: same initial population, best-fitness history, evaluation count, final population and result (optimizers without parallel support: as single mode); "
        "non-trivial = both finished and the parallel path evaluated >= pop_size points")


def units(tier):
    q = tier == "quick"
    u = [dict(x, weight=2) for x in scen.algo_units(4 if q else 60)]
    names = [x["name"] for x in u]
    u += [{"name": "process:" + n, "algo": n, "process": True, "n": 1 if q else 6, "weight": 3} for n in names]
    return u


@st.composite
def strategy_(draw, unit):
    a = unit.get("algo", unit["name"])
    proc = bool(unit.get("process"))
    c = draw(scen.scenario(a, modes=("process",) if proc else ("thread",), epochs=(1, 2) if proc else (1, 3), pops=(0, 4),
                           bounds=scen.bounds_strategy(exotic=False), dicts=False, params=not proc, tail=not proc))
    c["nw"] = draw(st.integers(2, 3 if proc else 6))
    c["delay"] = 0 if proc else draw(st.sampled_from([0, 1, 2, 3]))
    c["salt"] = draw(st.integers(0, 99))
    c["start"] = draw(st.booleans())
    return c


def strategy(unit):
    return strategy_(unit)


class Delay:
    """Picklable hook: sleep 0..delay ms depending on the position only."""

    def __init__(self, ms, salt):
        self.ms, self.salt = ms, salt

    def __call__(self, x, v):
        if self.ms:
            h = hashlib.blake2b(np.asarray(x, dtype=float).tobytes() + bytes([self.salt]), digest_size=2).digest()
            time.sleep(self.ms * 1e-3 * (h[0] % 4) / 3.0)


def one(case, mode, delay):
    opt = scen.build(case)
    prob = scen.make_problem(case, scen.call_limit(case))
    rec = prob[1]
    rec.keep = False
    if delay:
        rec.hook = Delay(delay, case["salt"])
    first = {}
    orig = type(opt).before_main_loop

    def bml(*a, **k):
        first["pop"] = [(a.solution.copy(), float(a.target.fitness)) for a in opt.pop]
        del opt.before_main_loop                       # keep the optimizer picklable for process mode
        return opt.before_main_loop(*a, **k)
    kw = {}
    if mode in ("thread", "process"):
        kw["n_workers"] = case["nw"]
    if case["start"]:
        lb, ub = prob[2], prob[3]
        g = np.random.default_rng(case["salt"])
        probe = prob[0]
        kw["start"] = [probe.correct_solution(lb + g.random(len(lb)) * (ub - lb)) for _ in range(opt.pop_size)]
    if mode != "process":
        opt.before_main_loop = bml
    r = scen.Run(dict(case, mode=mode), opt=opt, problem=prob, **kw)
    r.first = first.get("pop")
    return r


def check(unit, case):
    o = Outcome()
    site = case["algo"]
    tag = "_process" if case["mode"] == "process" else ""
    ref_mode = "swarm" if scen.build(case).is_parallelizable else "single"
    a = one(case, ref_mode, 0)
    if a.error is not None:
        o.label("crashed")
        return o
    b = one(case, case["mode"], case["delay"])
    if b.error is not None:
        o.bad(site, "crash" + tag, "%s mode only: %s %s" % (case["mode"], b.sig(), b.error))
        return o
    if a.first is not None and b.first is not None:
        if len(a.first) != len(b.first) or any(not scen.same(x[0], y[0]) or x[1] != y[1] for x, y in zip(a.first, b.first)):
            o.bad(site, "initial_population" + tag, "differs from %s mode" % ref_mode)
    ha, hb = a.opt.history, b.opt.history
    if not scen.same(ha.list_global_best_fit, hb.list_global_best_fit) or not scen.same(ha.list_current_best_fit, hb.list_current_best_fit):
        o.bad(site, "history" + tag, "%s vs %s" % (ha.list_global_best_fit, hb.list_global_best_fit))
    if not scen.same(a.best.solution, b.best.solution) or not scen.same(a.best.target.objectives, b.best.target.objectives):
        o.bad(site, "result" + tag, "%s vs %s" % (a.best, b.best))
    if len(a.opt.pop) != len(b.opt.pop) or any(not scen.same(x.solution, y.solution) for x, y in zip(a.opt.pop, b.opt.pop)):
        o.bad(site, "final_population" + tag, "")
    if a.opt.nfe_counter != b.opt.nfe_counter:
        o.bad(site, "evaluations" + tag, "%d vs %d" % (a.opt.nfe_counter, b.opt.nfe_counter))
    o.nontrivial = b.opt.nfe_counter >= 5
    o.label(case["mode"], ref_mode, "delay%d" % case["delay"], "start" if case["start"] else "nostart")
    o.info = {"evals": b.opt.nfe_counter, "workers": case["nw"]}
    return o
