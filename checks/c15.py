"""C15: declared parameters are validated, visible and settable."""
from pbt import boot, scen, algos
from pbt.engine import Outcome, Reject
from hypothesis import strategies as st
import copy, json, math, os
import numpy as np
PID = "C15"
RULE = ("every optimizer class and every declared parameter: in-range values incl. boundaries (must be kept and shown), values just outside/far outside/of wrong type (must raise ValueError naming nothing silently changed), and generated "
        "set_parameters sequences (before/after solves, unknown names mixed in) followed by a seeded solve; oracle: recorded table of documented types/ranges (data/params.json) and a freshly constructed optimizer with the "
        "same values; non-trivial = a parameter differed from its default or an invalid value/name was judged")
TABLE = json.load(open(os.path.join(boot.VERIF, "data", "params.json")))


def units(tier):
    q = tier == "quick"
    return [{"name": a, "n": 50 if q else 900} for a in algos.all_classes() if a in TABLE]


def inside(draw, p):
    k, b = p["kind"], p["bound"]
    if k == "check_bool":
        return draw(st.booleans())
    if k == "check_str":
        return draw(st.sampled_from(b))
    if k == "check_is_int_and_float":
        return draw(st.one_of(st.integers(*b[0]), st.integers(1, 19).map(lambda i: b[1][0] + (b[1][1] - b[1][0]) * i / 20.)))
    if b is None:
        return p["default"]
    lo, hi = b
    lo = -1e6 if lo == -math.inf else lo
    hi = 1e6 if hi == math.inf else hi
    if k == "check_int":
        l, h = math.ceil(lo), math.floor(hi)
        if p["open"]:
            l, h = math.floor(lo) + 1, math.ceil(hi) - 1
        return draw(st.one_of(st.integers(l, h), st.sampled_from([l, h]), st.integers(max(l, int(p["default"]) - 5), min(h, int(p["default"]) + 5)) if max(l, int(p["default"]) - 5) <= min(h, int(p["default"]) + 5) else st.just(l)))
    i = draw(st.integers(1 if p["open"] else 0, 63 if p["open"] else 64))
    v = lo + (hi - lo) * i / 64.
    v = min(max(v, lo), hi)
    return draw(st.sampled_from([v, v, float(p["default"])] if not p["open"] else [v, v, lo + (hi - lo) * 1e-6]))


def outside(draw, p):
    k, b = p["kind"], p["bound"]
    wrong = ["abc", None, [1], {}, (1, 2), 1j]
    if k == "check_bool":
        return draw(st.sampled_from([1, 0, "True", None, [True], 2.0]))
    if k == "check_str":
        return draw(st.sampled_from(["", "zzz", 3, None, True, b[0].swapcase() if b[0].swapcase() not in b else "zz", b[0] + " ", [b[0]]]))
    if k == "check_is_int_and_float":
        return draw(st.sampled_from(["abc", None, b[0][0] - 1, b[0][1] + 1, b[1][1] + 0.01, b[1][0] - 0.01, [1]]))
    vals = list(wrong) + [float("nan")]
    if b is not None:
        lo, hi = b
        integer = k == "check_int"
        d = 1 if integer else max(1e-6, (hi - lo if hi - lo < math.inf else 1.0) * 1e-3)
        if lo > -math.inf:
            e = math.floor(lo) if integer else lo
            vals += [lo - d if not integer else math.ceil(lo) - 1, lo - 10 * d, -1e9 if lo > -1e9 else lo - 1, e if p["open"] else lo - d] * 2
        if hi < math.inf:
            vals += [hi + d if not integer else math.floor(hi) + 1, hi + 10 * d, hi * 2 + 1 if hi > 0 else hi + 1, (math.ceil(hi) if integer else hi) if p["open"] else hi + d] * 2
    v = draw(st.sampled_from(vals))
    return v


def enc(v):
    """JSON-able form of any value used here."""
    if isinstance(v, complex):
        return {"__": "complex"}
    if isinstance(v, tuple):
        return {"__": "tuple", "v": list(v)}
    if isinstance(v, float) and v != v:
        return {"__": "nan"}
    return v


def dec(v):
    if isinstance(v, dict) and "__" in v:
        return {"complex": 1j, "tuple": tuple(v.get("v", ())), "nan": float("nan")}[v["__"]]
    return v


@st.composite
def strategy_(draw, a):
    ps = TABLE[a]
    kind = draw(st.sampled_from(["keep", "keep", "reject", "reject", "set", "set", "set"]))
    if kind in ("keep", "reject"):
        k = draw(st.sampled_from(sorted(ps)))
        return {"kind": kind, "algo": a, "param": k, "value": enc((inside if kind == "keep" else outside)(draw, ps[k])), "form": draw(st.sampled_from(["plain", "plain", "numpy"]))}
    c = draw(scen.scenario(a, bounds=scen.bounds_strategy(scen.DETTYPES, exotic=False), epochs=(1, 4), pops=(0, 6), obj=scen.objective(multi=False)))
    c["kind"] = "set"
    sets = []
    for _ in range(draw(st.integers(1, 2))):
        d = {}
        for k in draw(st.lists(st.sampled_from(sorted(ps)), min_size=1, max_size=3, unique=True)):
            if k == "epoch":
                d[k] = draw(st.integers(1, 5))
            elif k == "pop_size":
                d[k] = algos.min_pop(a) + draw(st.integers(0, 8))
            else:
                s = algos.param_specs(a).get(k)
                v = draw(scen.param_value(s)) if s is not None else None
                if v is not None:
                    d[k] = v
        sets.append(d)
    c["sets"] = sets
    c["solve_first"] = draw(st.booleans())
    c["solve_between"] = draw(st.booleans())
    c["unknown"] = draw(st.sampled_from([None, None, "foo", "mode", "Epoch", "g_best", " epoch", "generator", ""]))
    return c


def strategy(unit):
    return strategy_(unit["name"])


def same(a, b):
    return type(a) is type(b) and (a == b or (isinstance(a, float) and a != a and b != b))


def equal(given, kept):
    """The value given, possibly as the numeric type of the parameter."""
    if isinstance(given, bool) or isinstance(given, str):
        return given is kept or (type(given) is type(kept) and given == kept)
    return isinstance(kept, (int, float, np.number)) and not isinstance(kept, bool) and float(kept) == float(given)


# c_min < c_max is documented by BCO itself: a single in-range value may be refused
RELATED = {("BCO.OriginalBCO", "c_min"), ("BCO.OriginalBCO", "c_max")}
# attributes that a run adapts and restores at the start of the next run (the reported parameter keeps the configured value)
ADAPTED = {("PO.OriginalPO", "pop_size"), ("DE.SAP_DE", "pop_size")}


def contradictory(a, vals):
    """a lower parameter above its upper twin: the optimizer may refuse it or swap the two (SSpiderO)"""
    full = {k: p["default"] for k, p in TABLE[a].items()}
    full.update(vals)
    for k in full:
        for lo, hi in (("min", "max"), ("low", "high")):
            if lo in k and k.replace(lo, hi) in full and k.replace(lo, hi) != k:
                x, y = full[k], full[k.replace(lo, hi)]
                if isinstance(x, (int, float)) and isinstance(y, (int, float)) and x > y:
                    return True
    return False


def edges(p):
    """(accepted, rejected) values at the boundaries of the documented range"""
    k, b = p["kind"], p["bound"]
    if k not in ("check_int", "check_float") or b is None:
        return [], []
    ok, no = [], []
    for x, s in ((b[0], -1), (b[1], 1)):
        if abs(x) == math.inf:
            continue
        if k == "check_int":
            e = math.ceil(x) if s < 0 else math.floor(x)
            if p["open"] and e == x:
                e -= s
            ok.append(e)
            no.append(e + s)
        else:
            d = max(1e-6, abs(x) * 1e-6)
            (no if p["open"] else ok).append(float(x))
            no.append(x + s * d)
    if p["open"] and k == "check_float" and len(ok) == 0 and b[0] > -math.inf and b[1] < math.inf:
        w = b[1] - b[0]
        ok += [b[0] + w * 1e-6, b[1] - w * 1e-6]
    return [v for v in ok if abs(v) <= 1e6], no


def judge_reject(o, a, k, v):
    ps = TABLE[a]
    try:
        op = algos.all_classes()[a](**{k: v})
        o.bad(a, "invalid_accepted", "%s=%r accepted (kept as %r), documented: %s %s" % (k, v, getattr(op, k, None), ps[k]["kind"], ps[k]["bound"]))
    except ValueError:
        pass
    except Exception as e:
        o.bad(a, "invalid_crashes", "%s=%r: %r instead of ValueError, documented: %s %s" % (k, v, e, ps[k]["kind"], ps[k]["bound"]))


def judge_keep(o, a, k, v, form):
    ps = TABLE[a]
    if form == "numpy" and type(v) in (int, float) and ps[k]["kind"] in ("check_int", "check_float"):
        given = np.int64(v) if type(v) is int else np.float64(v)
    else:
        given = v
    if contradictory(a, {k: v}):
        o.label("contradictory-parameters")
        return
    try:
        op = algos.all_classes()[a](**{k: given})
    except ValueError as e:
        if (a, k) in RELATED or k in ("epoch", "pop_size"):
            o.label("related-parameters")
            return
        o.bad(a, "valid_rejected", "%s=%r: %s, documented: %s %s" % (k, given, e, ps[k]["kind"], ps[k]["bound"]))
        return
    got = op.get_parameters()
    if set(got) != set(ps):
        o.bad(a, "names", "reported %s, declared %s" % (sorted(got), sorted(ps)))
        return
    for q in ps:
        want = v if q == k else ps[q]["default"]
        if not equal(want, got[q]):
            o.bad(a, "value", "%s=%r given, but %s is reported as %r" % (k, given, q, got[q]))
            return
        if not equal(want, getattr(op, q)) and (a, q) not in ADAPTED:
            o.bad(a, "attribute", "%s=%r given, but attribute %s is %r" % (k, given, q, getattr(op, q)))
            return
        if "%s=%s" % (q, got[q]) not in str(op):
            o.bad(a, "shown", "%s=%s is missing in %s" % (q, got[q], op))
            return
    o.nontrivial = o.nontrivial or v != ps[k]["default"]


def check(unit, case):
    o = Outcome()
    a = case["algo"]
    cls = algos.all_classes()[a]
    ps = TABLE[a]
    if case["kind"] in ("reject", "keep"):
        k, v = case["param"], dec(case["value"])
        o.label(case["kind"])
        if case["kind"] == "reject":
            o.nontrivial = True
            judge_reject(o, a, k, v)
        else:
            judge_keep(o, a, k, v, case["form"])
        ok, no = edges(ps[k])                  # and every boundary of the documented range
        for v in no:
            judge_reject(o, a, k, v)
        for v in ok:
            judge_keep(o, a, k, v, case["form"])
        return o
    # ---- set_parameters sequences
    o.label("set")
    base = dict(epoch=case["epoch"], pop_size=case["pop"], **case["params"])
    try:
        op = cls(**base)
    except ValueError:
        o.label("rejected")
        return o
    if case["solve_first"]:
        r = scen.Run(dict(case, seed=7), opt=op)
        if r.error is not None:
            o.label("crashed")
    cur = dict(base)
    for i, d in enumerate(case["sets"]):
        if case["unknown"] is not None and case["unknown"] not in ps:
            before, bstr = {k: v for k, v in op.get_parameters().items()}, str(op)
            attrs = {k: repr(getattr(op, k)) for k in before}
            try:
                op.set_parameters({**d, case["unknown"]: 3})
                o.bad(a, "unknown_accepted", "%r" % case["unknown"])
            except ValueError:
                pass
            except Exception as e:
                o.bad(a, "unknown_crashes", "%r: %r" % (case["unknown"], e))
            if op.get_parameters() != before or str(op) != bstr or {k: repr(getattr(op, k)) for k in before} != attrs:
                o.bad(a, "unknown_changes", "%s -> %s" % (before, op.get_parameters()))
            if o.violations:
                return o
        nxt = dict(cur, **d)
        if contradictory(a, nxt):
            o.label("contradictory-parameters")
            return o
        try:
            fresh = cls(**nxt)
        except ValueError:
            o.label("combination-rejected")
            return o
        try:
            op.set_parameters(dict(d))
        except Exception as e:
            o.bad(a, "set_fails", "set_parameters(%s) on %s: %r" % (d, cur, e))
            return o
        cur = nxt
        if {k: float(v) if isinstance(v, (int, float)) else v for k, v in op.get_parameters().items()} != {k: float(v) if isinstance(v, (int, float)) else v for k, v in fresh.get_parameters().items()}:
            o.bad(a, "set_values", "after set_parameters(%s): %s, constructed: %s" % (d, op.get_parameters(), fresh.get_parameters()))
            return o
        for k in cur:
            if (a, k) not in ADAPTED and not equal(getattr(fresh, k), getattr(op, k)):
                o.bad(a, "set_attribute", "after set_parameters(%s) attribute %s is %r, constructed: %r" % (d, k, getattr(op, k), getattr(fresh, k)))
                return o
        if i == 0 and case["solve_between"]:
            scen.Run(dict(case, seed=9, epoch=cur["epoch"]), opt=op)
    c2 = dict(case, epoch=cur["epoch"], pop=cur["pop_size"])
    boot.reset_globals()
    x = scen.Run(c2, opt=cls(**cur))
    if x.error is not None:
        o.label("crashed")
        return o
    boot.reset_globals()
    y = scen.Run(c2, opt=op)
    if y.error is not None:
        o.bad(a, "set_then_crash", "set %s after %s: %s %s" % (case["sets"], base, y.sig(), y.error))
        return o
    n = min(len(x.calls), len(y.calls))
    i = next((i for i in range(n) if not scen.same(x.calls[i][0], y.calls[i][0])), None)
    if i is not None or len(x.calls) != len(y.calls) or not scen.same(x.best.solution, y.best.solution):
        o.bad(a, "set_then_differs", "constructed with %s vs. set on %s: evaluation %s of %d/%d differs" % (cur, base, i, len(x.calls), len(y.calls)))
    o.nontrivial = cur != base
    return o


