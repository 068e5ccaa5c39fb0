"""C17: saving and loading an optimizer preserves it."""
from pbt import boot, scen, algos
from pbt.engine import Outcome
from hypothesis import strategies as st
from mealpy.utils import io as mio
import numpy as np
import os, shutil, tempfile
PID = "C17"
RULE = ("every optimizer class after a generated history of use (unused, or 1-2 solves in single/swarm/thread mode on generated problems), saved once or twice under a generated file name and loaded back; oracle: equal class, "
        "name, parameters, best/worst agents, population, history and problem definition, equal later seeded runs of original, loaded and never-saved optimizer, original's state unchanged by saving, file at the documented "
        "path; non-trivial = the saved optimizer had solved at least one problem")

NAMES = ["m", "model", "pkl", ".pkl", "a.pkl", "a.pkl.b", "run.v1", "apkl", "x.pk", "A.PKL", "sub/m", "sub/m.pkl", "long name with spaces", "été"]


def units(tier):
    return scen.algo_units(6 if tier == "quick" else 120) + [{"name": "file_names", "n": 60 if tier == "quick" else 600}]


@st.composite
def strategy_(draw, a):
    c = draw(scen.scenario(a, bounds=scen.bounds_strategy(scen.ALLTYPES, exotic=False), epochs=(1, 4), pops=(0, 4)))
    c["pre"] = [draw(scen.scenario(a, bounds=scen.bounds_strategy(scen.ALLTYPES, exotic=False), params=False, epochs=(1, 3), pops=(0, 4), modes=("single", "single", "swarm"), tail=False)) for _ in range(draw(st.sampled_from([0, 1, 1, 2])))]
    c["fn"] = draw(st.sampled_from(NAMES))
    c["twice"] = draw(st.booleans())
    c["load_ext"] = draw(st.booleans())
    c["own"] = draw(st.booleans())
    c["save_pop"] = draw(st.booleans())
    c["custom"] = draw(st.sampled_from([None, None, "my optimizer"]))
    return c


@st.composite
def names_(draw):
    return {"fn": draw(st.one_of(st.none(), st.sampled_from(NAMES), st.text(alphabet="abkpl.P_-0", min_size=1, max_size=9))), "obj": draw(st.integers(0, 5)), "load_ext": draw(st.booleans())}


def strategy(unit):
    return names_() if unit["name"] == "file_names" else strategy_(unit["name"])


class Scratch:
    def __enter__(self):
        self.old = os.getcwd()
        self.d = tempfile.mkdtemp(prefix="verif_c17_")
        os.mkdir(os.path.join(self.d, "sub"))
        os.chdir(self.d)
        return self.d

    def __exit__(self, *a):
        os.chdir(self.old)
        shutil.rmtree(self.d, ignore_errors=True)


def expected_file(fn):
    return "model.pkl" if fn is None else fn if fn.endswith(".pkl") else fn + ".pkl"


def files(d):
    return sorted(os.path.relpath(os.path.join(r, f), d) for r, _, fs in os.walk(d) for f in fs)


def agent_state(a):
    return None if a is None else (np.array(a.solution, dtype=float).tolist(), None if a.target is None else (np.array(a.target.objectives, dtype=float).tolist(), float(a.target.fitness)))


def eq(a, b):
    if isinstance(a, float) or isinstance(b, float):
        return a == b or (a != a and b != b)
    if isinstance(a, (list, tuple)) and isinstance(b, (list, tuple)):
        return len(a) == len(b) and all(eq(x, y) for x, y in zip(a, b))
    if isinstance(a, dict) and isinstance(b, dict):
        return a.keys() == b.keys() and all(eq(a[k], b[k]) for k in a)
    return a == b


def num(v):
    return np.asarray(v, dtype=float).tolist()


def plain(v):
    """Parameter values: anything, compared by repr (numpy arrays included)."""
    return repr(v)


def view(opt):
    h = opt.history
    out = {"class": type(opt).__name__, "module": type(opt).__module__, "name": opt.name, "params": {k: plain(v) for k, v in opt.get_parameters().items()}, "str": str(opt),
           "epoch": opt.epoch, "pop_size": opt.pop_size, "nfe": opt.nfe_counter, "best": agent_state(opt.g_best), "worst": agent_state(opt.g_worst),
           "pop": None if opt.pop is None else [agent_state(a) for a in opt.pop]}
    if h is not None:
        out["history"] = {"epoch": h.epoch,
                          **{k: [agent_state(a) for a in getattr(h, k)] for k in ("list_global_best", "list_current_best", "list_global_worst", "list_current_worst")},
                          **{k: num(getattr(h, k)) for k in ("list_epoch_time", "list_global_best_fit", "list_current_best_fit", "list_diversity", "list_exploitation", "list_exploration")},
                          "list_population": [[agent_state(a) for a in p] for p in h.list_population]}
    else:
        out["history"] = None
    p = opt.problem
    if p is not None:
        out["problem"] = {"class": type(p).__name__, "name": p.name, "minmax": p.minmax, "lb": num(p.lb), "ub": num(p.ub), "n_dims": p.n_dims, "weights": None if p.obj_weights is None else num(p.obj_weights),
                          "log_to": p.log_to, "save_population": p.save_population, "vars": [(type(v).__name__, v.name, num(v.lb), num(v.ub)) for v in p.bounds],
                          "decode": [repr(p.decode_solution(p.lb.copy())), repr(p.decode_solution(p.ub.copy()))] if not any(type(v).__name__.startswith("Transfer") for v in p.bounds) else None}
    else:
        out["problem"] = None
    return out


def diff(a, b):
    return sorted(k for k in a if not eq(a[k], b.get(k)))


def check_names(case):
    o = Outcome()
    with Scratch() as d:
        obj = [{"a": 1}, [1, 2], algos.all_classes()["PSO.OriginalPSO"](epoch=3, pop_size=6), (None,), "s", 3][case["obj"]]
        want = expected_file(case["fn"])
        mio.save_model(obj, case["fn"])
        got = files(d)
        if got != [os.path.normpath(want)]:
            o.bad("save_model", "path", "save_model(%r) wrote %s, expected %s" % (case["fn"], got, want))
            return o
        back = mio.load_model(want if case["load_ext"] and case["fn"] is not None else case["fn"])
        if type(back) is not type(obj) or (back.get_parameters() != obj.get_parameters() if hasattr(obj, "get_parameters") else back != obj):
            o.bad("load_model", "content", "%r -> %r" % (obj, back))
        if files(d) != got:
            o.bad("load_model", "files", "loading changed the files")
    o.nontrivial = case["fn"] is None or not case["fn"].endswith(".pkl")
    o.label("none" if case["fn"] is None else "ext" if case["fn"].endswith(".pkl") else "noext")
    return o


def evals(r):
    return [(c[0].tobytes(), float(np.asarray(c[1], dtype=float).ravel()[0])) for c in r.calls]


def check(unit, case):
    if unit["name"] == "file_names":
        return check_names(case)
    o = Outcome()
    site = case["algo"]

    def used():
        opt = scen.build(case, **({"name": case["custom"]} if case["custom"] else {}))
        for p in case["pre"]:
            r = scen.Run(dict(p, algo=case["algo"]), opt=opt, save_population=case["save_pop"])
            if r.error is not None:
                o.label("pre-crashed")
        return opt
    boot.Clock.fake = lambda: 1000.0
    boot.reset_globals()
    opt = used()
    v0 = view(opt)
    with Scratch() as d:
        want = expected_file(case["fn"])
        try:
            mio.save_model(opt, case["fn"])
            if case["twice"]:
                mio.save_model(opt, case["fn"])
        except Exception as e:
            o.bad(site, "save_fails", repr(e))
            return o
        if files(d) != [os.path.normpath(want)]:
            o.bad(site, "path", "save_model(%r) wrote %s" % (case["fn"], files(d)))
            return o
        try:
            back = mio.load_model(want if case["load_ext"] else case["fn"])
        except Exception as e:
            o.bad(site, "load_fails", repr(e))
            return o
    v1, v2 = view(opt), view(back)
    if diff(v0, v1):
        o.bad(site, "saving_changes_original", diff(v0, v1))
    if type(back) is not type(opt):
        o.bad(site, "class", "%s" % type(back))
        return o
    if diff(v0, v2):
        k = diff(v0, v2)[0]
        o.bad(site, "loaded_differs", "%s: %s -> %s" % (diff(v0, v2), str(v0[k])[:200], str(v2[k])[:200]))
        return o
    if back.problem is not None and back.problem is opt.problem:
        o.bad(site, "shared", "loaded optimizer shares the problem object")
    o.nontrivial = bool(case["pre"]) and v0["history"] is not None
    o.label("used%d" % len(case["pre"]))
    # continuation: never saved / original / loaded
    def go(op):
        boot.reset_globals()
        if not (case["own"] and v0["problem"] is not None):
            return scen.Run(case, opt=op)
        p = op.problem                              # its own problem object again (for the loaded one: from the file)
        rec = p.rec if hasattr(p, "rec") else p.obj_func
        rec.limit, rec.count, rec.calls = 10 ** 6, 0, []
        return scen.Run(case, opt=op, problem=(p, rec, p.lb, p.ub))
    fresh, a, b = go(used()), go(opt), go(back)
    if fresh.error is not None:
        o.label("continuation-crashed")
        return o
    if a.error is not None or evals(a) != evals(fresh) or not eq(agent_state(a.best), agent_state(fresh.best)):
        o.bad(site, "original_differs_after_save", "%s evaluations vs %s without saving, error %s" % (len(a.calls), len(fresh.calls), a.error))
    if b.error is not None or evals(b) != evals(fresh) or not eq(agent_state(b.best), agent_state(fresh.best)):
        o.bad(site, "loaded_runs_differently", "%s evaluations vs %s, error %s" % (len(b.calls), len(fresh.calls), b.error))
    elif not scen.same(a.opt.history.list_global_best_fit, b.opt.history.list_global_best_fit) or a.opt.nfe_counter != b.opt.nfe_counter:
        o.bad(site, "loaded_history_differs", "")
    return o
