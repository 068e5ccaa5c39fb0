"""C21: the optimizer registry is complete and consistent."""
from pbt import boot, algos  # noqa
from pbt.engine import Outcome
from hypothesis import strategies as st
import mealpy
from mealpy.optimizer import Optimizer
from mealpy.utils.opt_info import OptInfo
import inspect, importlib, pkgutil
PID = "C21"
RULE = ("every class and module name, near-miss mutations of them and arbitrary strings, with verbose on and off, in generated call sequences; oracle: independent walk over the package's *_based modules; "
        "non-trivial = the looked-up name exists or differs from an existing one by one edit")


def units(tier):
    q = tier == "quick"
    return [{"name": "lookup%d" % i, "n": 40 if q else 900} for i in range(6)] + [{"name": "each_class%d" % i, "n": 60 if q else 300, "part": i} for i in range(6)] + \
           [{"name": "each_module%d" % i, "n": 40 if q else 200, "part": i} for i in range(6)] + [{"name": "listing", "n": 4}]


def modules():
    out = {}
    for q, c in algos.all_classes().items():
        out.setdefault(q.split(".")[0], {})[c.__name__] = c
    return out


CLS = sorted({c.__name__ for c in algos.all_classes().values()})
MODS = sorted(modules())
NAMES = CLS + MODS + ["Optimizer", "Problem", "FloatVar", "Tuner", "Multitask", "sys", "inspect", "optimizer", "utils", "swarm_based", "__builtins__", "current_module", "", "mealpy", "np", "Agent", "tuner", "space", "get_all_optimizers"]


@st.composite
def name_(draw):
    k = draw(st.integers(0, 5))
    if k == 0:
        return draw(st.sampled_from(CLS))
    if k == 1:
        return draw(st.sampled_from(MODS))
    if k == 2:
        return draw(st.sampled_from(NAMES))
    if k == 3:
        s = draw(st.sampled_from(NAMES))
        i = draw(st.integers(0, max(len(s), 1)))
        return draw(st.sampled_from([s[:i] + s[i + 1:], s[:i] + "x" + s[i:], s.lower(), s.upper(), s + " ", " " + s, "Original" + s, s.replace("Original", "")]))
    if k == 4:
        return draw(st.text(max_size=8))
    return draw(st.sampled_from(["__doc__", "__name__", "__init__", "Original", "PSO.OriginalPSO", "mealpy.PSO"]))


def strategy(unit):
    if unit["name"].startswith("lookup"):
        return st.fixed_dictionaries({"seq": st.lists(st.tuples(st.sampled_from(["class", "name"]), name_(), st.sampled_from([False, False, False, True])).map(list), min_size=1, max_size=4)})
    if unit["name"].startswith("each_class"):
        return st.fixed_dictionaries({"cls": st.sampled_from(sorted(algos.all_classes())[unit["part"]::6])})
    if unit["name"].startswith("each_module"):
        return st.fixed_dictionaries({"mod": st.sampled_from(MODS[unit["part"]::6]), "verbose": st.booleans()})
    return st.fixed_dictionaries({"verbose": st.booleans(), "mutate": st.booleans()})


def judge_class(o, name, verbose):
    want = [c for c in algos.all_classes().values() if c.__name__ == name]
    try:
        got = mealpy.get_optimizer_by_class(name, verbose=verbose)
    except Exception as e:
        o.bad("get_optimizer_by_class", "exception", "%r verbose=%s: %r" % (name, verbose, e))
        return
    if want and not (got is want[0] and len(want) == 1) or not want and got is not None:
        o.bad("get_optimizer_by_class", "result", "%r verbose=%s: %r, expected %r" % (name, verbose, got, want))


def judge_name(o, name, verbose):
    want = modules().get(name, {})
    try:
        got = mealpy.get_optimizer_by_name(name, verbose=verbose)
    except Exception as e:
        o.bad("get_optimizer_by_name", "exception", "%r verbose=%s: %r" % (name, verbose, e))
        return
    if (got or {}) != want:
        o.bad("get_optimizer_by_name", "result", "%r verbose=%s: %r, expected %r" % (name, verbose, sorted(got or {}), sorted(want)))
    elif want and not isinstance(got, dict):
        o.bad("get_optimizer_by_name", "type", "%r" % type(got))


def check(unit, case):
    o = Outcome()
    if "seq" in case:
        for kind, name, verbose in case["seq"]:
            (judge_class if kind == "class" else judge_name)(o, name, verbose)
            if name in CLS or name in MODS:
                o.nontrivial = True
                o.label("known")
            else:
                o.label("unknown")
        o.nontrivial = True
        return o
    if "mod" in case:
        judge_name(o, case["mod"], case["verbose"])
        if getattr(mealpy, case["mod"], None) is None or not inspect.ismodule(getattr(mealpy, case["mod"])):
            o.bad("package", "module_not_exported", case["mod"])
        o.nontrivial = True
        return o
    if "cls" in case:
        q = case["cls"]
        c = algos.all_classes()[q]
        judge_class(o, c.__name__, False)
        if getattr(getattr(mealpy, q.split(".")[0], None), c.__name__, None) is not c:
            o.bad("package", "class_not_exported", q)
        if not isinstance(c.OPT_INFO, OptInfo) or "OPT_INFO" not in c.__dict__:
            o.bad(q, "no_record", "OPT_INFO is %r" % (c.__dict__.get("OPT_INFO"),))
        try:
            op = c()
            s = str(op)
        except Exception as e:
            o.bad(q, "default_construction", repr(e))
            return o
        if not (s.startswith(c.__name__ + "(") and s.endswith(")")):
            o.bad(q, "string_form", s)
        for k, v in op.get_parameters().items():
            if "%s=%s" % (k, v) not in s:
                o.bad(q, "string_form", "%s=%s not shown in %s" % (k, v, s))
        if op.get_name() != c.__name__:
            o.bad(q, "name", op.get_name())
        if c(name="my name").get_name() != "my name":
            o.bad(q, "custom_name", c(name="my name").get_name())
        o.nontrivial = True
        return o
    got = mealpy.get_all_optimizers(verbose=case["verbose"])
    want = {c.__name__: c for c in algos.all_classes().values()}
    if got != want or len(want) != len(algos.all_classes()):
        o.bad("get_all_optimizers", "listing", "missing %s, extra %s" % (sorted(set(want) - set(got))[:9], sorted(set(got) - set(want))[:9]))
    if case["mutate"]:
        got.clear()                                    # the caller owns the returned dict
        if mealpy.get_all_optimizers(verbose=False) != want:
            o.bad("get_all_optimizers", "shared", "clearing the returned dict empties the registry")
    o.nontrivial = True
    return o
