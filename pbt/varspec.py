"""Generated variable declarations, their reference domain, and helpers shared by the variable/problem checks."""
from . import boot
import itertools, math, random
import numpy as np
from hypothesis import strategies as st
from mealpy import (FloatVar, IntegerVar, StringVar, BinaryVar, BoolVar, CategoricalVar, SequenceVar, PermutationVar, TransferBinaryVar, TransferBoolVar)
from mealpy.utils import transfer

TYPES = ["float", "int", "bool", "bin", "perm", "str", "cat", "seq", "tbin", "tbool"]
TFS = ["vstf_01", "vstf_02", "vstf_03", "vstf_04", "sstf_01", "sstf_02", "sstf_03", "sstf_04"]
num = st.one_of(st.integers(-50, 50).map(float), st.integers(-400, 400).map(lambda k: k / 8.0), st.sampled_from([0.0, 1e-6, -1e-6, 1e6, -1e6, 0.5, 1.5]))


def label_strategy(kind):
    s = st.text("abcXYZ 019_-", min_size=0, max_size=4)
    if kind == "str":
        return s
    if kind == "int":
        return st.integers(-9, 99)
    if kind == "float":
        return st.integers(-40, 40).map(lambda k: k / 4.0)
    return st.one_of(s, st.integers(-9, 99), st.integers(-40, 40).map(lambda k: k / 4.0), st.none())


def labels(draw, kind, lo, hi, few=False):
    ls = draw(st.lists(label_strategy(kind), min_size=0 if few else lo, max_size=4 if few else hi))
    out = []
    for l in ls:                                    # distinct under ==
        if not any(l == m for m in out):
            out.append(l)
    i = 0
    while len(out) < lo:
        c = "k%d" % i if kind in ("str", "mixed") else (200 + i if kind == "int" else 200.5 + i)
        if c not in out:
            out.append(c)
        i += 1
    return out


@st.composite
def decl(draw, t):
    d = {"t": t, "seed": draw(st.integers(0, 2 ** 31))}
    big = draw(st.integers(0, 9)) == 9          # ranges beyond 32 bits, more labels than a byte counts
    if t in ("float", "int"):
        n = draw(st.integers(1, 4)) if not big else draw(st.integers(1, 40))
        d["scalar"] = n == 1 and draw(st.booleans())
        if t == "float":
            lb = [draw(num) for _ in range(n)] if not big else [draw(st.sampled_from([0.0, -1e12, 1e9, -3e5, 1e-9])) for _ in range(n)]
            d["ub"] = [l + draw(st.sampled_from([0.0, 1e-6, 0.125, 1.0, 1.0, 7.5, 1e6])) for l in lb]
        else:
            lb = [draw(st.one_of(st.integers(-9, 9), st.sampled_from([10 ** 6, -10 ** 6] + big * [2 ** 31 - 2, -2 ** 31, 2 ** 24, 2 ** 33, -10 ** 10]))) for _ in range(n)]
            d["ub"] = [l + draw(st.sampled_from([0, 1, 1, 2, 3, 7, 1000] + big * [2 ** 24 + 1, 2 ** 31, 3 * 10 ** 10])) for l in lb]
        d["lb"] = lb
        d["box"] = draw(st.sampled_from(["list", "tuple", "array"]))
    elif t in ("bool", "bin", "tbin", "tbool"):
        d["n"] = draw(st.integers(1, 5)) if not big else draw(st.integers(100, 300))
        if t[0] == "t":
            d["tf"] = draw(st.sampled_from(TFS))
            k = draw(st.sampled_from([8.0, 8.0, 6.0, 2.5, 1.0]))      # (the box has to hold the encoded 0 and 1)
            d["lb"], d["ub"] = -k, k + draw(st.sampled_from([0.0, 2.0]))
        if t == "tbin":
            d["az"] = draw(st.booleans())
    elif t in ("str", "cat"):
        kind = "str" if t == "str" else draw(st.sampled_from(["str", "int", "mixed", "mixed"]))
        d["flat"] = draw(st.booleans())
        d["sets"] = [labels(draw, kind, 2, 5) if not big else labels(draw, kind, draw(st.integers(125, 300)), 300, few=True) for _ in range(1 if d["flat"] else draw(st.integers(1, 3)))]
        d["box"] = draw(st.sampled_from(["list", "tuple"]))
    elif t == "perm":
        d["set"] = labels(draw, draw(st.sampled_from(["int", "int", "float", "str", "mixed"])), *((draw(st.integers(125, 300)), 300, True) if big else (2, 5)))
        d["box"] = draw(st.sampled_from(["list", "tuple"]))
    elif t == "seq":
        raw = draw(st.lists(st.lists(st.one_of(st.integers(0, 5), st.sampled_from(["a", "b"])), min_size=0, max_size=3), min_size=1, max_size=5))
        out = []
        for r in raw:
            if r not in out:
                out.append(r)
        if big:
            out += [[i, "k"] for i in range(10, 10 + draw(st.integers(125, 300)))]
        d["sets"] = out
        d["rt"] = draw(st.sampled_from(["tuple", "list"]))
    d["name"] = draw(st.sampled_from(["x", "var", "a b", "лямбда"]))
    return d


def box(v, how):
    return {"list": list, "tuple": tuple, "array": np.array}[how](v)


def make(d):
    t, nm = d["t"], d["name"]
    if t in ("float", "int"):
        c = FloatVar if t == "float" else IntegerVar
        return c(lb=d["lb"][0], ub=d["ub"][0], name=nm) if d["scalar"] else c(lb=box(d["lb"], d["box"]), ub=box(d["ub"], d["box"]), name=nm)
    if t == "bool":
        return BoolVar(n_vars=d["n"], name=nm)
    if t == "bin":
        return BinaryVar(n_vars=d["n"], name=nm)
    if t == "tbin":
        return TransferBinaryVar(n_vars=d["n"], name=nm, tf_func=d["tf"], lb=d["lb"], ub=d["ub"], all_zeros=d["az"])
    if t == "tbool":
        return TransferBoolVar(n_vars=d["n"], name=nm, tf_func=d["tf"], lb=d["lb"], ub=d["ub"])
    if t in ("str", "cat"):
        c = StringVar if t == "str" else CategoricalVar
        v = box(d["sets"][0], d["box"]) if d["flat"] else box([box(s, d["box"]) for s in d["sets"]], d["box"])
        return c(valid_sets=v, name=nm)
    if t == "perm":
        return PermutationVar(valid_set=box(d["set"], d["box"]), name=nm)
    return SequenceVar(valid_sets=[tuple(s) for s in d["sets"]], return_type=list if d["rt"] == "list" else tuple, name=nm)


def size(d):
    t = d["t"]
    if t in ("float", "int"):
        return len(d["lb"])
    if t in ("str", "cat"):
        return len(d["sets"])
    if t == "perm":
        return len(d["set"])
    return 1 if t == "seq" else d["n"]


def bounds(d):
    """Declared box; upper end of label-like types is open, the code may stay up to 0.5 below it."""
    t, n = d["t"], size(d)
    if t == "float":
        return d["lb"], d["ub"]
    if t == "int":
        return [l - 0.5 for l in d["lb"]], [u + 0.5 for u in d["ub"]]
    if t in ("bool", "bin"):
        return [0] * n, [2] * n
    if t in ("tbin", "tbool"):
        return [d["lb"]] * n, [d["ub"]] * n
    if t in ("str", "cat"):
        return [0] * n, [len(s) for s in d["sets"]]
    if t == "perm":
        return [0] * n, [n] * n
    return [0], [len(d["sets"])]


def same_label(a, b):
    if a is None or b is None:
        return a is b
    if isinstance(a, str) or isinstance(b, str):
        return isinstance(a, str) and isinstance(b, str) and str(a) == str(b)
    return a == b


def is_member(d, val):
    """val: a generated or decoded value (list/array of length size; for seq the sequence or [sequence])."""
    t, n = d["t"], size(d)
    if t == "seq":
        return list(val) in d["sets"]
    if len(val) != n:
        return False
    if t == "float":
        return all(l <= x <= u for x, l, u in zip(val, d["lb"], d["ub"]))
    if t == "int":
        return all(x == math.floor(x) and l <= x <= u for x, l, u in zip(val, d["lb"], d["ub"]))
    if t in ("bin", "tbin"):
        return all(int(x) in (0, 1) and x == int(x) for x in val) and (t == "bin" or d["az"] or any(val))
    if t in ("bool", "tbool"):
        return all(isinstance(x, (bool, np.bool_)) for x in val)
    if t in ("str", "cat"):
        return all(sum(same_label(x, m) for m in s) == 1 for x, s in zip(val, d["sets"]))
    return sum(1 for m in d["set"] if sum(same_label(x, m) for x in val) == 1) == n


def members(d, cap=64):
    """All members if at most cap, else None.  For float: corners."""
    t, n = d["t"], size(d)
    if t == "float":
        return None
    if t == "int":
        k = 1
        for l, u in zip(d["lb"], d["ub"]):
            k *= u - l + 1
        if k > cap:
            return None
        return [list(x) for x in itertools.product(*[range(l, u + 1) for l, u in zip(d["lb"], d["ub"])])]
    if n > 8 and t in ("bin", "tbin", "bool", "tbool"):
        kind = int if t in ("bin", "tbin") else bool
        pats = [[0] * n, [1] * n, [i % 2 for i in range(n)], [1] + [0] * (n - 1), [0] * (n - 1) + [1], [0] * (n // 2) + [1] * (n - n // 2)]
        return [[kind(x) for x in p] for p in pats if t != "tbin" or d["az"] or any(p)]
    if t in ("bin", "tbin"):
        return [list(x) for x in itertools.product([0, 1], repeat=n) if t == "bin" or d["az"] or any(x)]
    if t in ("bool", "tbool"):
        return [list(x) for x in itertools.product([False, True], repeat=n)]
    if t in ("str", "cat"):
        if math.prod(len(s) for s in d["sets"]) <= 4 * cap:
            return [list(x) for x in itertools.product(*d["sets"])][:cap]
        return [[s[i % len(s)] for s in d["sets"]] for i in range(max(len(s) for s in d["sets"]))]      # every label occurs
    if t == "perm":
        s = d["set"]
        return [list(x) for x in itertools.islice(itertools.permutations(s), cap if n < 6 else 2)] + ([] if n < 6 else [s[::-1], s[n // 2:] + s[:n // 2], s[::2] + s[1::2]])
    return [list(s) for s in d["sets"]]


def key(v):
    return repr([None if x is None else (str(x) if isinstance(x, str) else (bool(x) if isinstance(x, (bool, np.bool_)) else float(x))) for x in v])


@st.composite
def real_vector(draw, d):
    """An arbitrary real vector of the variable's length, biased to boundaries and integers."""
    lo, hi = bounds(d)
    out = []
    if len(lo) > 12:                     # long vectors: Hypothesis draws the seed only
        r = random.Random(draw(st.integers(0, 2 ** 31)))
        pick = [lambda l, h: r.uniform(-1e9, 1e9), lambda l, h: l + r.randint(-12, 12) / 4.0, lambda l, h: h + r.randint(-12, 12) / 4.0, lambda l, h: l + (h - l) * r.randint(0, 16) / 16.0,
                lambda l, h: l + (h - l) * r.random()]
        return [float(r.choice(pick)(l, h)) for l, h in zip(lo, hi)]
    for l, h in zip(lo, hi):
        out.append(draw(st.one_of(st.floats(-1e9, 1e9), st.integers(-12, 12).map(lambda k, l=l: l + k / 4.0), st.integers(-12, 12).map(lambda k, h=h: h + k / 4.0), st.sampled_from([float(l), float(h), 0.0, -0.0, float(h) - 1e-9, float(l) + 1e-9, 1e300, -1e300, h - 1e-4, h - 5e-5]),
                                  st.integers(0, 16).map(lambda k, l=l, h=h: l + (h - l) * k / 16.0))))
    return out


def tf_reference(name, x):
    """Textbook definitions, scalar."""
    if name == "vstf_01":
        return abs(math.erf(math.sqrt(math.pi) / 2 * x))
    if name == "vstf_02":
        return abs(math.tanh(x))
    if name == "vstf_03":
        return abs(x / math.hypot(1.0, x))
    if name == "vstf_04":
        return abs(2 / math.pi * math.atan(math.pi / 2 * x))
    k = {"sstf_01": 2.0, "sstf_02": 1.0, "sstf_03": 1 / 3.0, "sstf_04": 0.5}[name]
    z = k * x
    return 1 / (1 + math.exp(-z)) if z > -700 else 0.0
