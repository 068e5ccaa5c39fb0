"""C20: parameter grid enumerates, counts and indexes the same points."""
from pbt import boot  # noqa
from pbt.engine import Outcome
from hypothesis import strategies as st
from mealpy.tuner import ParameterGrid
import numpy as np
PID = "C20"
RULE = ("generated grids and lists of grids (0-4 parameters, 1-4 values of mixed types as list, tuple, range or array, empty dicts, repeated values) and malformed declarations; oracle: nested-loop reference enumeration against iteration "
        "(twice), len and every index 0..len+3; malformed ones must raise TypeError/ValueError; non-trivial = at least two points from at least two parameters or two sub-grids, or a malformed declaration")


def units(tier):
    q = tier == "quick"
    return [{"name": "grids%d" % i, "n": 400 if q else 8000} for i in range(4)] + [{"name": "malformed", "n": 300 if q else 5000}]


VAL = st.one_of(st.integers(-3, 3), st.sampled_from([0.5, None, "a", "b", True, False, (1, 2), "", 2.0]), st.floats(allow_nan=False, allow_infinity=True))
KEY = st.sampled_from(["epoch", "a", "b", "zeta", "A", "pop_size", "_x"])


@st.composite
def grid_(draw):
    keys = draw(st.lists(KEY, min_size=0, max_size=4, unique=True))
    out = []
    for k in keys:
        form = draw(st.sampled_from(["list", "list", "tuple", "array", "range"]))
        if form == "range":
            out.append([k, form, draw(st.integers(1, 4))])
        elif form == "array":
            out.append([k, form, draw(st.lists(st.integers(-5, 5), min_size=1, max_size=4))])
        else:
            out.append([k, form, draw(st.lists(VAL, min_size=1, max_size=4))])
    return out


@st.composite
def good(draw):
    n = draw(st.sampled_from([0, 1, 1, 1, 2, 3, 4]))
    return {"dict": n == 1 and draw(st.booleans()), "grids": [draw(grid_()) for _ in range(n)], "outer": draw(st.sampled_from(["list", "tuple"]))}


BAD = ["int", "none", "value_str", "value_scalar", "value_none", "value_set", "value_empty", "value_2d", "entry_list", "entry_none", "value_emptyarr", "value_dict", "entry_str"]


@st.composite
def bad(draw):
    return {"bad": draw(st.sampled_from(BAD)), "key": draw(KEY), "others": [draw(grid_()) for _ in range(draw(st.integers(0, 2)))], "pos": draw(st.integers(0, 2)), "single": draw(st.booleans())}


def strategy(unit):
    return bad() if unit["name"] == "malformed" else good()


def build(g):
    out = {}
    for k, form, v in g:
        out[k] = list(v) if form == "list" else tuple(v) if form == "tuple" else np.array(v) if form == "array" else range(v)
    return out


def ref(d):
    pts = [[]]
    for k, vals in d.items():
        pts = [p + [(k, v)] for p in pts for v in vals]
    return pts


def view(p):
    return [(k, type(v).__name__, repr(v)) for k, v in p.items()]


def check(unit, case):
    o = Outcome()
    if "bad" in case:
        b, k = case["bad"], case["key"]
        v = {"value_str": {k: "abc"}, "value_scalar": {k: 3}, "value_none": {k: None}, "value_set": {k: {1, 2}}, "value_empty": {k: []}, "value_2d": {k: np.ones((2, 2))}, "value_emptyarr": {k: np.array([])},
             "value_dict": {k: {1: 2}}, "entry_list": [k], "entry_none": None, "entry_str": k, "int": 5, "none": None}[b]
        if b in ("int", "none"):
            arg = v
        elif case["single"] and b.startswith("value"):
            arg = v
        else:
            arg = [build(g) for g in case["others"]]
            arg.insert(min(case["pos"], len(arg)), v)
        try:
            g = ParameterGrid(arg)
            o.bad("ParameterGrid", "malformed_accepted", "%s: %r gave %d points" % (b, arg, len(g)))
        except (TypeError, ValueError):
            pass
        except Exception as e:
            o.bad("ParameterGrid", "malformed_crash", "%s: %r" % (b, e))
        o.nontrivial = True
        o.label(b)
        return o
    ds = [build(g) for g in case["grids"]]
    arg = ds[0] if case["dict"] else ds if case["outer"] == "list" else tuple(ds)
    pg = ParameterGrid(arg)
    want = [[(k, type(v).__name__, repr(v)) for k, v in p] for d in ds for p in ref(d)]
    got = [view(p) for p in pg]
    if got != want:
        o.bad("ParameterGrid", "iteration", "%s: %s, expected %s" % (case["grids"], got[:4], want[:4]))
        return o
    if len(pg) != len(want):
        o.bad("ParameterGrid", "len", "%s: len %d, %d points" % (case["grids"], len(pg), len(want)))
    for i in range(len(want) + 4):
        try:
            p = view(pg[i])
        except IndexError:
            p = IndexError
        if i < len(want) and (p is IndexError or p != want[i]):
            o.bad("ParameterGrid", "index", "%s: [%d] = %s, expected %s" % (case["grids"], i, p, want[i]))
            break
        if i >= len(want) and p is not IndexError:
            o.bad("ParameterGrid", "index_beyond_end", "%s: [%d] of %d = %s" % (case["grids"], i, len(want), p))
            break
    if [view(p) for p in pg] != want:
        o.bad("ParameterGrid", "second_iteration", str(case["grids"]))
    x = next(iter(pg), None)
    if x:                                              # points are the caller's own dicts
        x[next(iter(x))] = "changed"
        if [view(p) for p in pg] != want:
            o.bad("ParameterGrid", "shared_point", str(case["grids"]))
    o.nontrivial = len(want) >= 2 and (len(ds) > 1 or len(ds[0]) > 1)
    o.label("grids%d" % len(ds), "points%d" % min(len(want), 10))
    o.info = {"points": len(want)}
    return o
