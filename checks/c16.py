"""C16: Validator accepts exactly the documented values."""
from pbt import boot
from pbt.engine import Outcome
from hypothesis import strategies as st
from mealpy.utils.validator import Validator, is_in_bound, is_str_in_list
import math
import numpy as np
PID = "C16"
RULE = ("generated (value, range) pairs for every Validator method: integers, floats, booleans, numpy scalars, complex, huge, NaN, infinite, strings, None, containers x open/closed/half-infinite ranges with the value "
        "often on a boundary; oracle: an interval-membership model (tuple = open, list = closed, infinite end = no limit; integers are truncated towards zero as the project's own tests fix it); rejected = ValueError "
        "naming the parameter; non-trivial = a range was given or the value has the wrong type")

INF = math.inf
nums = st.one_of(st.integers(-12, 12), st.integers(-48, 48).map(lambda k: k / 4.0), st.floats(-1e6, 1e6), st.sampled_from([0, -0.0, 1e-300, 10 ** 400, -10 ** 400, INF, -INF]))
KINDS = ["py", "py", "py", "np_int", "np_float", "bool", "nan", "complex", "str", "none", "list", "array", "npcomplex"]


def fin(v):
    return abs(v) <= 1e300


def units(tier):
    n = 1500 if tier == "quick" else 30000
    return [{"name": x, "n": n} for x in ("check_int", "check_float", "check_str", "check_bool", "check_tuple_int", "check_tuple_float", "check_list_tuple", "check_is_instance", "check_is_int_and_float", "is_in_bound")]


end = st.one_of(st.integers(-6, 6), st.integers(-24, 24).map(lambda k: k / 4.0))


@st.composite
def rng_(draw):
    a, b = draw(end), draw(end)
    a, b = min(a, b), max(a, b)
    return {"lo": draw(st.sampled_from([a, a, a, "-inf"])), "hi": draw(st.sampled_from([b, b, b, "inf"])), "open": draw(st.booleans())}


@st.composite
def value(draw):
    k = draw(st.sampled_from(KINDS))
    v = draw(nums)
    return {"k": k, "v": v if fin(v) else str(v), "s": draw(st.text(max_size=3))}


@st.composite
def pair(draw):
    v = draw(value())
    r = draw(st.one_of(st.none(), rng_(), rng_(), rng_()))
    if r is not None and draw(st.integers(0, 2)) == 0:
        e = r["lo"] if draw(st.booleans()) else r["hi"]
        v["v"] = e
    return {"v": v, "r": r}


S = {"check_int": pair(), "check_float": pair(), "check_is_int_and_float": st.fixed_dictionaries({"v": value(), "r": st.one_of(st.none(), rng_()), "r2": st.one_of(st.none(), rng_()), "plain": st.booleans()}),
     "is_in_bound": pair(),
     "check_str": st.fixed_dictionaries({"v": value(), "s": st.one_of(st.none(), st.lists(st.text(max_size=3), max_size=4)), "pick": st.integers(0, 8)}),
     "check_bool": st.fixed_dictionaries({"v": value(), "b": st.sampled_from([[True, False], [True], [False], None])}),
     "check_tuple_int": st.fixed_dictionaries({"vs": st.lists(value(), max_size=4), "ints": st.booleans(), "form": st.sampled_from(["tuple", "list", "array", "scalar", "set"]), "rs": st.one_of(st.none(), st.lists(rng_(), max_size=4)), "fit": st.booleans()}),
     "check_list_tuple": st.fixed_dictionaries({"vs": st.lists(st.integers(0, 5), max_size=3), "form": st.sampled_from(["tuple", "list", "array", "dict", "str", "none"])}),
     "check_is_instance": st.fixed_dictionaries({"v": value(), "c": st.sampled_from(["int", "str", "float", "pair"])})}
S["check_tuple_float"] = S["check_tuple_int"]


def strategy(unit):
    return S[unit["name"]]


def num(v):
    return float(v) if isinstance(v, str) and v in ("inf", "-inf") else int(v) if isinstance(v, str) else v


def real_value(c):
    k, v = c["k"], num(c["v"])
    if k == "py":
        return v
    if k == "np_int":
        return np.int64(int(v) if abs(v) < 2 ** 62 else 7)
    if k == "np_float":
        return np.float64(v if fin(v) or isinstance(v, float) else 5.5)
    if k == "bool":
        return bool(v)
    if k == "nan":
        return float("nan")
    if k == "complex":
        return complex(1, 2)
    if k == "npcomplex":
        return np.complex64(1 + 2j)
    if k == "str":
        return c["s"]
    if k == "none":
        return None
    if k == "list":
        return [v]
    return np.array([1.0, 2.0])


def bound(r):
    if r is None:
        return None
    b = [num(r["lo"]), num(r["hi"])]
    return tuple(b) if r["open"] else b


def is_real(v):
    return isinstance(v, (int, float, np.integer, np.floating)) and not isinstance(v, np.bool_)


def inside(v, r):
    """reference interval membership; None = unjudged"""
    if r is None:
        return True
    lo, hi = num(r["lo"]), num(r["hi"])
    if v != v:
        return None if (lo == -INF and hi == INF) else False
    a = lo == -INF or (v > lo if r["open"] else v >= lo)
    b = hi == INF or (v < hi if r["open"] else v <= hi)
    return bool(a and b)


def expect(o, site, fn, ok, want, desc, name="parm_x"):
    try:
        got = fn(name)
    except ValueError as e:
        if ok:
            o.bad(site, "valid_rejected", "%s: %s" % (desc, e))
        elif name not in str(e):
            o.bad(site, "message", "%s: the message %r does not name the parameter" % (desc, str(e)))
        return
    except Exception as e:
        o.bad(site, "other_exception", "%s: %r" % (desc, e))
        return
    if ok is False:
        o.bad(site, "invalid_accepted", "%s -> %r" % (desc, got))
    elif want is not None and not want(got):
        o.bad(site, "value_altered", "%s -> %r" % (desc, got))


def check(unit, case):
    o = Outcome()
    site = unit["name"]
    V = Validator(log_to=None)
    o.nontrivial = True
    if site in ("check_int", "check_float", "is_in_bound"):
        v, r, b = real_value(case["v"]), case["r"], bound(case["r"])
        o.label(case["v"]["k"], "none" if r is None else "open" if r["open"] else "closed")
        if site == "is_in_bound":
            if r is not None and is_real(v) and inside(v, r) is not None and bool(is_in_bound(v, b)) != inside(v, r):
                o.bad(site, "wrong", "%r in %r -> %r" % (v, b, is_in_bound(v, b)))
            o.nontrivial = r is not None and is_real(v)
            return o
        ok = is_real(v) and inside(v, r)
        if site == "check_int":
            if is_real(v) and (v != v or isinstance(v, (float, np.floating)) and abs(v) == INF):
                ok = False
            expect(o, site, lambda n: V.check_int(n, v, b), ok, lambda g: type(g) is int and g == int(v), "check_int(%r, %r)" % (v, b))
        else:
            if isinstance(v, int) and abs(v) > 1e308:
                ok = False
            expect(o, site, lambda n: V.check_float(n, v, b), ok, lambda g: type(g) is float and (g == v or g != g and v != v), "check_float(%r, %r)" % (v, b))
        return o
    if site == "check_is_int_and_float":
        v = real_value(case["v"])
        if case["plain"]:
            v = num(case["v"]["v"])
        r, r2 = case["r"], case["r2"]
        ok = bool(inside(v, r)) if type(v) is int else (inside(v, r2) if type(v) is float else False)
        if isinstance(v, (np.integer, np.floating)):
            ok = None
        expect(o, site, lambda n: V.check_is_int_and_float(n, v, bound(r), bound(r2)), ok, lambda g: type(g) is type(v) and (g == v or g != g), "check_is_int_and_float(%r, %r, %r)" % (v, bound(r), bound(r2)))
        o.label(type(v).__name__)
        return o
    if site == "check_str":
        v, s = real_value(case["v"]), case["s"]
        if s and case["pick"] < len(s):
            v = s[case["pick"]]
        ok = type(v) is str and (s is None or v in s)
        expect(o, site, lambda n: V.check_str(n, v, s), ok, lambda g: g == v and type(g) is str, "check_str(%r, %r)" % (v, s))
        if bool(is_str_in_list(v, s)) != (type(v) is str and s is not None and v in s):
            o.bad(site, "is_str_in_list", "%r in %r" % (v, s))
        return o
    if site == "check_bool":
        v, b = real_value(case["v"]), case["b"]
        if b is None:
            expect(o, site, lambda n: V.check_bool(n, v), type(v) is bool, lambda g: g is v, "check_bool(%r)" % (v,))
        else:
            expect(o, site, lambda n: V.check_bool(n, v, tuple(b)), type(v) is bool and v in b, lambda g: g is v, "check_bool(%r, %r)" % (v, b))
        return o
    if site in ("check_tuple_int", "check_tuple_float"):
        vs = [real_value(c) for c in case["vs"]]
        if case["ints"]:
            vs = [int(x) if is_real(x) and x == x and abs(x) < 1e300 else 3 for x in vs]
        rs = case["rs"]
        if rs is not None and case["fit"]:
            rs = (rs * 5)[:len(vs)]
            if len(rs) < len(vs):
                rs = None
        form = case["form"]
        if form == "array":
            try:
                val = np.array([float(x) if not case["ints"] else x for x in vs if is_real(x)])
            except OverflowError:
                return o
            vs = list(val)
            if rs is not None and case["fit"]:
                rs = rs[:len(vs)]
        elif form == "scalar":
            val = vs[0] if vs and not isinstance(vs[0], (list, np.ndarray)) else 3
        elif form == "set":
            val = {1, 2}
        else:
            val = tuple(vs) if form == "tuple" else list(vs)
        seq = form in ("tuple", "list", "array")
        good = (lambda x: isinstance(x, (int, np.integer)) and not isinstance(x, np.bool_)) if site == "check_tuple_int" else is_real
        ok = seq and len(vs) > 1 and all(good(x) for x in vs)
        if ok and rs is not None:
            ins = [inside(x, r) for x, r in zip(vs, rs)]
            ok = False if len(rs) != len(vs) or False in ins else (None if None in ins else True)
        bs = None if rs is None else [bound(r) for r in rs]
        expect(o, site, lambda n: getattr(V, site)(n, val, bs), ok, lambda g: g is val or list(g) == list(val), "%s(%r, %r)" % (site, val, bs))
        o.label(form, "ok" if ok else "rejected")
        return o
    if site == "check_list_tuple":
        vs, f = case["vs"], case["form"]
        val = {"tuple": tuple(vs), "list": list(vs), "array": np.array(vs), "dict": dict.fromkeys(vs), "str": "ab", "none": None}[f]
        expect(o, site, lambda n: V.check_list_tuple(n, val, "things"), f in ("tuple", "list") and len(vs) >= 1, lambda g: type(g) is list and g == list(vs), "check_list_tuple(%r)" % (val,))
        return o
    c = {"int": int, "str": str, "float": float, "pair": (int, str)}[case["c"]]
    v = real_value(case["v"])
    expect(o, site, lambda n: V.check_is_instance(n, v, c), isinstance(v, c), lambda g: g is v, "check_is_instance(%r, %r)" % (v, c))
    return o
