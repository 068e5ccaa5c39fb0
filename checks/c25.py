"""C25: transfer functions, chaotic maps and fuzzy weights stay in their ranges; label encoding is a bijection."""
from pbt import boot, varspec  # noqa
from pbt.engine import Outcome
from hypothesis import strategies as st
from mealpy.utils import transfer
from mealpy.utils.chaotic import ChaoticMap
from mealpy.utils.fuzzy import FuzzySystem
from mealpy.utils.space import LabelEncoder
import math
import numpy as np
PID = "C25"
RULE = ("generated real inputs (ordinary, tiny, huge, subnormal; scalars and arrays of any shape) for the 8 transfer functions; generated starting points (uniform, interval ends, break points and their float neighbours) and parameters of the "
        "10 chaotic maps iterated up to 200 times; generated (iteration, maximum) pairs for both fuzzy pyramids; generated mixed-type label collections; oracles: range, limit, symmetry, monotonicity and elementwise laws, invariant intervals, "
        "continuity/monotonicity/bounds of the weights, bijection with 0..n-1 and order independence of the label code, agreement with the published formulas; non-trivial = at least two distinct inputs compared")
V = ["vstf_%02d" % i for i in range(1, 5)]
S = ["sstf_%02d" % i for i in range(1, 5)]
# map -> (interval kept, parameter ranges for which the map is defined on that interval)
MAPS = {"bernoulli_map": ((0., 1.), {"a": (0.05, 0.95)}), "logistic_map": ((0., 1.), {"a": (0.0, 4.0)}), "chebyshev_map": ((-1., 1.), {"a": (1.0, 8.0)}),
        "circle_map": ((0., 1.), {"a": (0.0, 2.0), "b": (0.0, 1.0)}), "cubic_map": ((0., 1.), {"q": (0.0, 2.59)}), "icmic_map": ((0., 1.), {"a": (0.1, 10.)}),
        "piecewise_map": ((0., 1.), {"a": (0.05, 0.45)}), "singer_map": ((0., 1.), {"a": (0.9, 1.07)}), "sinusoidal_map": ((0., 1.), {"a": (0.0, 2.3)}), "tent_map": ((0., 1.), {})}
EPS = 1e-9


def units(tier):
    n = 250 if tier == "quick" else 6000
    return [{"name": f, "n": n} for f in V + S + list(MAPS)] + [{"name": "fuzzy-%s" % t, "n": n} for t in ("increase", "decrease")] + [{"name": "labels%d" % i, "n": 2 * n} for i in range(2)]


real = st.one_of(st.floats(-10, 10, allow_nan=False), st.floats(allow_nan=False, allow_infinity=False), st.sampled_from([0.0, 1e-300, -1e-300, 5e-324, 1e-8, 1.0, -1.0, 700., -800., 1e5, -1e5, 1e154, 1e200, -1e308]), st.integers(-50, 50).map(float))
label = st.one_of(st.integers(-5, 12), st.floats(-3, 3, allow_nan=False), st.text("abAB01 _", max_size=3), st.none(), st.booleans(), st.tuples(st.integers(0, 2), st.integers(0, 2)), st.sampled_from(["1", "None", 10 ** 20, -0.5, b"x"]))


@st.composite
def strategy_(draw, unit):
    n = unit["name"]
    if n in V or n in S:
        return {"x": draw(st.lists(real, min_size=1, max_size=8)), "shape": draw(st.sampled_from(["1d", "2d", "col", "0d"]))}
    if n in MAPS:
        lo, hi = MAPS[n][0]
        brk = sorted({lo, hi, 0.0, 0.5, 0.7, 0.4, 0.6, 0.25, 0.75, 1 / 3.})
        x = draw(st.one_of(st.floats(lo, hi), st.floats(lo, hi), st.sampled_from(brk), st.tuples(st.sampled_from(brk), st.sampled_from([-1, 1])).map(lambda t: min(hi, max(lo, float(np.nextafter(t[0], t[1] * 9)))))))
        pr = {k: draw(st.one_of(st.floats(*b), st.sampled_from(list(b)))) for k, b in MAPS[n][1].items() if draw(st.booleans())}
        if pr and draw(st.booleans()):                     # the break point of the given parameter
            a = pr.get("a")
            if a is not None and lo <= a <= hi:
                x = draw(st.sampled_from([a, 1 - a]))
        return {"x": x, "params": pr, "n": draw(st.sampled_from([1, 1, 5, 50, 200]))}
    if n.startswith("fuzzy"):
        m = draw(st.integers(1, 400))
        return {"max": m, "at": draw(st.lists(st.integers(0, m), min_size=1, max_size=6)), "over": draw(st.integers(0, 50))}
    ls = draw(st.lists(label, min_size=1, max_size=10))
    return {"labels": [enc(l) for l in ls], "order": draw(st.permutations(list(range(len(ls))))), "form": draw(st.sampled_from(["list", "tuple"])), "query": draw(st.lists(st.integers(0, 30), max_size=5)), "again": [enc(l) for l in draw(st.lists(label, min_size=1, max_size=4))]}


def enc(l):
    return ["t", list(l)] if isinstance(l, tuple) else ["b", l.decode()] if isinstance(l, bytes) else ["f", l.hex()] if isinstance(l, float) else ["v", l]


def dec(e):
    return tuple(e[1]) if e[0] == "t" else e[1].encode() if e[0] == "b" else float.fromhex(e[1]) if e[0] == "f" else e[1]


def strategy(unit):
    return strategy_(unit)


def check(unit, case):
    o = Outcome()
    n = unit["name"]
    if n in V or n in S:
        return transfer_fn(o, n, case)
    if n in MAPS:
        return chaotic(o, n, case)
    if n.startswith("fuzzy"):
        return fuzzy(o, n, case)
    return labels(o, n, case)


def transfer_fn(o, n, c):
    f = getattr(transfer, n)
    xs = np.array(c["x"], dtype=float)
    keep = xs.copy()
    arr = xs if c["shape"] == "1d" else xs.reshape(1, -1) if c["shape"] == "2d" else xs.reshape(-1, 1) if c["shape"] == "col" else np.array(xs[0])
    y = f(arr)
    if not np.array_equal(xs, keep):
        o.bad(n, "input_modified")
    if np.shape(y) != np.shape(arr):
        o.bad(n, "shape", "%s -> %s" % (np.shape(arr), np.shape(y)))
        return o
    ys = np.asarray(y, float).ravel()
    xs = np.asarray(arr, float).ravel()
    if not np.all(np.isfinite(ys)) or ys.min() < 0 or ys.max() > 1:
        o.bad(n, "range", "%s -> %s" % (xs.tolist(), ys.tolist()))
        return o
    for x, v in zip(xs, ys):
        ref = varspec.tf_reference(n, float(x))
        if abs(ref - v) > 1e-10:
            o.bad(n, "formula", "f(%r)=%r, the published function gives %r" % (x, v, ref))
        s = float(f(x))
        if abs(s - v) > 1e-14:
            o.bad(n, "elementwise", "f(%r)=%r alone, %r in an array" % (x, s, v))
        if x == int(x) and abs(x) < 1e6 and abs(float(f(int(x))) - s) > 1e-14:
            o.bad(n, "integer_input", x)
    pos = sorted(set(np.abs(xs).tolist()))
    if n in V:
        if float(f(0.0)) != 0.0:
            o.bad(n, "zero", f(0.0))
        for x, v in zip(xs, ys):
            if abs(float(f(-x)) - v) > 1e-14:
                o.bad(n, "even", "f(%r)=%r f(%r)=%r" % (x, v, -x, float(f(-x))))
            if 1e-12 < abs(x) and v <= 0:
                o.bad(n, "positive", x)
            if abs(x) > 1e9 and v < 1 - 1e-6:
                o.bad(n, "limit", "f(%r)=%r" % (x, v))
        q = pos
    else:
        if abs(float(f(0.0)) - 0.5) > 1e-15:
            o.bad(n, "half", f(0.0))
        for x, v in zip(xs, ys):
            if abs(v + float(f(-x)) - 1) > 1e-12:
                o.bad(n, "complement", x)
            if abs(x) > 1e3 and abs(v - (1 if x > 0 else 0)) > 1e-9:
                o.bad(n, "limit", "f(%r)=%r" % (x, v))
        q = sorted(set(xs.tolist()))
    fs = [float(f(x)) for x in q]
    for i in range(len(q) - 1):
        if fs[i + 1] < fs[i] - 1e-14:
            o.bad(n, "monotone", "f(%r)=%r f(%r)=%r" % (q[i], fs[i], q[i + 1], fs[i + 1]))
        elif abs(q[i]) < 2 and abs(q[i + 1]) < 2 and q[i + 1] - q[i] > 1e-6 and not fs[i + 1] > fs[i]:
            o.bad(n, "increasing", "f(%r)=f(%r)=%r" % (q[i], q[i + 1], fs[i]))
    o.nontrivial = len(q) >= 2
    return o


def published(n, x, p):
    """The maps as published, None within rounding of a jump or where the map is too steep to compare."""
    pi = math.pi
    if n == "bernoulli_map":
        b = 1 - p.get("a", 0.5)
        return None if abs(x - b) < 1e-12 else x / b if x < b else 1 - (1 - x) / (1 - b)
    if n == "logistic_map":
        return p.get("a", 4.0) * (x - x * x)
    if n == "chebyshev_map":
        return math.cos(p.get("a", 4.0) * math.acos(x))
    if n == "circle_map":
        y = x + p.get("b", 0.2) - p.get("a", 0.5) / (2 * pi) * math.sin(2 * pi * x)
        return None if abs(y - round(y)) < 1e-9 else y - math.floor(y)
    if n == "cubic_map":
        return p.get("q", 2.59) * (x - x ** 3)
    if n == "icmic_map":
        a = p.get("a", 0.7)
        return None if abs(x) * 1e5 < a else abs(math.sin(a / x))
    if n == "piecewise_map":
        a = p.get("a", 0.4)
        z = min(x, 1 - x)                 # symmetric about 1/2
        return None if min(abs(z - a), abs(z - 0.5)) < 1e-12 else z / a if z < a else (z - a) / (0.5 - a)
    if n == "singer_map":
        return p.get("a", 1.07) * x * (7.86 + x * (-23.31 + x * (28.75 - 13.302875 * x)))
    if n == "sinusoidal_map":
        return p.get("a", 2.3) * x ** 2 * math.sin(pi * x)
    return None if abs(x - 0.7) < 1e-12 else x / 0.7 if x < 0.7 else (1 - x) / 0.3


def fuzzy_reference(up, p):
    """Centroid of the rule base: memberships low/medium/high of the course p in [0, 1], output levels 25/50/75."""
    lo, me, hi = max(0., 1 - 2 * p), 1 - abs(2 * p - 1), max(0., 2 * p - 1)
    def centre(l, m, h):
        return (25 * l + 50 * m + 75 * h) / (l + m + h) if l + m + h > 0 else 50.
    if up:
        return centre(lo, max(me, lo), hi), centre(hi, max(lo, me, hi), 0), centre(max(me, hi), lo, 0)
    return centre(hi, max(me, hi), lo), centre(hi, max(lo, me, hi), 0), centre(max(lo, me), hi, 0)


def chaotic(o, n, c):
    f = getattr(ChaoticMap, n)
    (lo, hi), _ = MAPS[n]
    x = c["x"]
    seen = {x}
    for i in range(c["n"]):
        y = f(x, **c["params"])
        if np.ndim(y) != 0 or not math.isfinite(float(y)):
            o.bad(n, "not_finite", "f(%r, %s)=%r" % (x, c["params"], y))
            return o
        y = float(y)
        slack = 0.02 if n == "singer_map" and x > 0.9975 else EPS      # the singer polynomial dips to -0.0031 in the last bit of [0, 1], which its own orbit never reaches
        if y < lo - slack or y > hi + EPS:
            o.bad(n, "leaves_interval", "f(%r, %s)=%r" % (x, c["params"], y))
            return o
        ref = published(n, x, c["params"])
        if ref is not None and abs(ref - y) > 1e-9:
            o.bad(n, "formula", "f(%r, %s)=%r, the published map gives %r" % (x, c["params"], y, ref))
            return o
        if f(x, **c["params"]) != y:
            o.bad(n, "not_a_function", x)
        seen.add(y)
        x = min(hi, max(lo, y))
    o.nontrivial = len(seen) >= 2
    return o


def fuzzy(o, n, c):
    t = n.split("-")[1]
    fs = FuzzySystem(t)
    m = c["max"]
    W = lambda i: tuple(float(w) for w in fs.get_fuzzy_weights(i, m))
    up = 1 if t == "increase" else -1
    for i in sorted(set(c["at"])):
        w = W(i)
        if len(w) != 3 or not all(math.isfinite(v) for v in w) or min(w) < 25 - EPS or max(w) > 75 + EPS:
            o.bad(n, "range", "%d/%d -> %s" % (i, m, w))
            return o
        ref = fuzzy_reference(up > 0, i / m)
        if max(abs(a - b) for a, b in zip(ref, w)) > 1e-9:
            o.bad(n, "rule_base", "%d/%d -> %s, the rule base gives %s" % (i, m, w, ref))
        if i < m:
            w2 = W(i + 1)
            if up * (w2[0] - w[0]) < -EPS:
                o.bad(n, "alpha_order", "%d/%d -> %s, next %s" % (i, m, w, w2))
            if up * (w2[2] - w[2]) > EPS:
                o.bad(n, "delta_order", "%d/%d -> %s, next %s" % (i, m, w, w2))
            # a step of 1/m changes a weight by at most 50/m times the slope of the rule base (<= 4), the start of the decreasing pyramid included
            if m >= 10 and max(abs(a - b) for a, b in zip(w, w2)) > 200. / m + EPS:
                o.bad(n, "jump", "%d/%d -> %s, next %s" % (i, m, w, w2))
        heavy = i * 2 >= m if up > 0 else i * 2 <= m
        if heavy and not (w[0] >= w[1] - EPS and w[1] >= w[2] - EPS):
            o.bad(n, "pyramid_order", "%d/%d -> %s" % (i, m, w))
    w = W(m + c["over"])
    if not all(math.isfinite(v) and v >= 0 for v in w):
        o.bad(n, "beyond_maximum", w)
    o.nontrivial = m >= 2
    return o


def eq(a, b):
    return type(a) is type(b) and a == b or a == b


def labels(o, n, c):
    ls = [dec(e) for e in c["labels"]]
    distinct = []
    for l in ls:
        if not any(l == d for d in distinct):
            distinct.append(l)
    k = len(distinct)
    give = list(ls) if c["form"] == "list" else tuple(ls)
    e = LabelEncoder()
    for m in ("transform", "inverse_transform"):
        try:
            getattr(e, m)(give)
            o.bad("LabelEncoder", "unfitted_accepted", m)
        except ValueError:
            pass
    if e.fit(give) is not e:
        o.bad("LabelEncoder", "fit_result")
    code = e.transform(distinct)
    if sorted(code) != list(range(k)):
        o.bad("LabelEncoder", "not_a_bijection", "%r -> %s" % (distinct, code))
        return o
    back = e.inverse_transform(code)
    if len(back) != k or not all(b == d for b, d in zip(back, distinct)):
        o.bad("LabelEncoder", "inverse", "%r -> %r" % (distinct, back))
    if e.transform(give) != [code[[d == l for d in distinct].index(True)] for l in ls]:
        o.bad("LabelEncoder", "transform", ls)
    if list(e.inverse_transform(list(range(k)))) != [distinct[code.index(i)] for i in range(k)]:
        o.bad("LabelEncoder", "inverse_all")
    perm = [ls[i] for i in c["order"]]
    e2 = LabelEncoder()
    if e2.fit_transform(perm) != [e.transform([l])[0] for l in perm]:
        o.bad("LabelEncoder", "depends_on_order", "%r vs %r" % (ls, perm))
    for l in distinct[:2]:
        if not isinstance(l, tuple) and e.transform(l) != e.transform([l]):
            o.bad("LabelEncoder", "scalar_label", l)
    for q in c["query"]:
        r = e.inverse_transform([q])
        if len(r) != 1 or (q >= k and r[0] != "unknown") or (q < k and not r[0] == distinct[code.index(q)]):
            o.bad("LabelEncoder", "unknown_code", "%s -> %s with %d labels" % (q, r, k))
    ag = [dec(x) for x in c["again"]]
    e.fit(ag)                                             # refitting forgets the first set
    d2 = {a for a in ag}
    if sorted(e.transform(list(d2))) != list(range(len(d2))):
        o.bad("LabelEncoder", "refit", "%r after %r" % (ag, ls))
    for l in distinct:
        if l not in d2:
            try:
                r = e.transform([l])
                o.bad("LabelEncoder", "stale_label", "%r -> %s" % (l, r))
            except (KeyError, ValueError):
                pass
    o.nontrivial = k >= 2
    return o
