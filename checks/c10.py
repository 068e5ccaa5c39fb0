"""C10: variables generate, encode, correct and decode inside their declared domain."""
from pbt import boot, varspec as V
from pbt.engine import Outcome
from hypothesis import strategies as st
import math
import numpy as np
PID = "C10"
RULE = ("generated declarations of each of the 10 variable classes (scalar/list/tuple/array bounds, label sets of mixed types, transfer functions) with arbitrary real vectors and draws; oracles: membership in the "
        "declared domain, encode/decode round-trip of every member, boundedness and idempotence of correct, nearest-integer decoding, coverage of small domains by generate and by decode, draw frequencies of transfer "
        "variables, seed determinism, rejection of malformed declarations; non-trivial = domain with >= 2 members or malformed declaration judged")


def units(tier):
    n = 250 if tier == "quick" else 6000
    return [{"name": t, "n": n} for t in V.TYPES] + [{"name": "malformed", "n": n}]


@st.composite
def strategy_(draw, t):
    d = draw(V.decl(t))
    return {"decl": d, "xs": draw(st.lists(V.real_vector(d), min_size=1, max_size=6)), "draws": draw(st.sampled_from([3, 20, 400]))}


@st.composite
def malformed(draw):
    return {"what": draw(st.sampled_from(["len_float", "len_int", "type_float", "type_int", "nvars", "str_single", "str_type", "cat_single", "perm_short", "perm_type", "tf", "seq"])),
            "a": draw(st.lists(st.integers(-5, 5), min_size=1, max_size=4)), "b": draw(st.lists(st.integers(6, 9), min_size=1, max_size=4)),
            "bad": draw(st.sampled_from([None, "x", {}, 0, -1, 1.5, "2"])), "cls": draw(st.sampled_from(["bool", "bin", "tbin", "tbool"])),
            "s": draw(st.text(max_size=8))}


def strategy(unit):
    return malformed() if unit["name"] == "malformed" else strategy_(unit["name"])


def check_malformed(case):
    o = Outcome()
    w, a, b, bad = case["what"], case["a"], case["b"], case["bad"]
    cls = {"bool": V.BoolVar, "bin": V.BinaryVar, "tbin": V.TransferBinaryVar, "tbool": V.TransferBoolVar}[case["cls"]]
    f = None
    if w in ("len_float", "len_int"):
        if len(a) == len(b):
            a = a + [1]
        f = lambda: (V.FloatVar if w == "len_float" else V.IntegerVar)(lb=a, ub=b)
    elif w in ("type_float", "type_int"):
        c = V.FloatVar if w == "type_float" else V.IntegerVar
        x = bad if not isinstance(bad, (int, float)) else "z"
        f = lambda: c(lb=x, ub=b)
    elif w == "nvars":
        f = lambda: cls(n_vars=bad)
    elif w in ("str_single", "cat_single"):
        c = V.StringVar if w == "str_single" else V.CategoricalVar
        f = lambda: c(valid_sets=(("a", "b"), ("only",)))
    elif w == "str_type":
        f = lambda: V.StringVar(valid_sets=bad)
    elif w == "perm_short":
        f = lambda: V.PermutationVar(valid_set=(1,))
    elif w == "perm_type":
        f = lambda: V.PermutationVar(valid_set=bad)
    elif w == "tf":
        if case["s"] in V.TFS:
            return o
        f = lambda: (V.TransferBinaryVar if len(a) % 2 else V.TransferBoolVar)(n_vars=2, tf_func=case["s"])
    else:
        f = lambda: V.SequenceVar(valid_sets=bad if bad is not None and not isinstance(bad, (str, dict)) else 3)
    o.label(w)
    o.nontrivial = True
    try:
        v = f()
    except (ValueError, TypeError):
        return o
    except Exception as e:
        o.bad("malformed", w, "%r instead of ValueError/TypeError" % (e,))
        return o
    o.bad("malformed", w, "accepted: %r %s" % (v, case))
    return o


def seqval(d, val):
    """decoded seq values come wrapped in a one-element list"""
    return val[0] if d["t"] == "seq" else val


def check(unit, case):
    if unit["name"] == "malformed":
        return check_malformed(case)
    o = Outcome()
    d = case["decl"]
    t, n = d["t"], V.size(d)
    site = type(V.make(d)).__name__
    try:
        v = V.make(d)
    except Exception as e:
        o.bad(site, "valid_rejected", "%s: %r" % (d, e))
        return o
    lo, hi = [np.array(b, dtype=float) for b in V.bounds(d)]
    slack = 0.0 if t in ("float", "tbin", "tbool") else 0.5
    if v.n_vars != n or np.shape(v.lb) != (n,) or np.shape(v.ub) != (n,):
        o.bad(site, "size", "n_vars=%s lb=%s ub=%s for %s" % (v.n_vars, v.lb, v.ub, d))
        return o
    if not np.array_equal(np.asarray(v.lb, dtype=float), lo) or np.any(v.ub > hi) or np.any(v.ub < hi - slack) or (slack == 0 and not np.array_equal(v.ub, hi)):
        o.bad(site, "bounds", "lb=%s ub=%s, declared [%s, %s]" % (v.lb, v.ub, lo, hi))
    if v.name != d["name"]:
        o.bad(site, "name", repr(v.name))

    def inside(x):
        x = np.asarray(x, dtype=float)
        return x.shape == (n,) and bool(np.all(x >= v.lb) and np.all(x <= v.ub))
    ms = V.members(d)
    # members round-trip
    rng = np.random.default_rng(d["seed"])
    if ms is not None:
        tries = ms
    elif t == "int":
        tries = [list(d["lb"]), list(d["ub"])] + [[int(rng.integers(l, u + 1)) for l, u in zip(d["lb"], d["ub"])] for _ in range(10)]
    else:
        tries = [list(d["lb"]), list(d["ub"])] + [[float(l + (u - l) * rng.random()) for l, u in zip(d["lb"], d["ub"])] for _ in range(10)]
        tries = [[min(x, u) for x, u in zip(m, d["ub"])] for m in tries]
    for m in tries:
        e = v.encode(tuple(m) if t == "seq" else m)
        if not inside(e):
            o.bad(site, "encode_bounds", "%s -> %s outside [%s, %s]" % (m, e, v.lb, v.ub))
            break
        if t not in ("tbin", "tbool") and not np.array_equal(np.asarray(v.correct(e), dtype=float), np.asarray(e, dtype=float)):
            o.bad(site, "valid_changed", "correct(%s) = %s" % (e, v.correct(e)))
            break
        back = seqval(d, v.decode(e))
        if not (V.is_member(d, back) and V.key(back) == V.key(m)):
            o.bad(site, "roundtrip", "%s -> %s -> %s" % (m, e, back))
            break
    # generated values
    v.seed = d["seed"]
    draws = case["draws"]
    gen = [v.generate() for _ in range(draws)]
    for g in gen:
        if not V.is_member(d, g):
            o.bad(site, "generate_domain", "%r not in %s" % (g, d))
            break
        e = v.encode(g)
        back = seqval(d, v.decode(e)) if inside(e) else None
        if back is None or V.key(back) != V.key(g):
            o.bad(site, "generated_roundtrip", "%r -> %s -> %r" % (g, e, back))
            break
    v2 = V.make(d)
    v2.seed = d["seed"]
    if [V.key(g) for g in gen] != [V.key(v2.generate()) for _ in range(draws)]:
        o.bad(site, "seed", "same seed, different generated values")
    if draws == 400:
        if ms is not None and n <= 8 and len(ms) <= 12 and t != "perm" or t == "perm" and n <= 3:
            missing = {V.key(m) for m in ms} - {V.key(g) for g in gen}
            if missing:
                o.bad(site, "generate_unreachable", "never generated in 400 draws: %s" % sorted(missing)[:3])
        elif t == "float":
            a = np.array(gen, dtype=float)
            for j in range(n):
                w = d["ub"][j] - d["lb"][j]
                if w > 1e-3 and (np.min(a[:, j]) > d["lb"][j] + w / 3 or np.max(a[:, j]) < d["ub"][j] - w / 3):
                    o.bad(site, "generate_unreachable", "400 draws stay in [%s, %s]" % (np.min(a[:, j]), np.max(a[:, j])))
        elif t == "int":
            a = np.array(gen, dtype=float)
            for j in range(n):
                k = d["ub"][j] - d["lb"][j] + 1
                if k <= 8 and len(set(a[:, j])) != k:
                    o.bad(site, "generate_unreachable", "values drawn: %s of [%d, %d]" % (sorted(set(a[:, j])), d["lb"][j], d["ub"][j]))
    # arbitrary real vectors
    for x in case["xs"]:
        arr = np.array(x, dtype=float)
        keep = arr.copy()
        try:
            c = np.asarray(v.correct(arr), dtype=float)
            dec = seqval(d, v.decode(arr))
        except Exception as e:
            o.bad(site, "real_vector", "%s: %r" % (x, e))
            break
        if not np.array_equal(arr, keep):
            o.bad(site, "input_modified", "%s -> %s" % (keep, arr))
        if not inside(c):
            if t in ("tbin", "tbool") and set(c.tolist()) <= {0.0, 1.0} and c.shape == (n,):
                pass                                  # a transfer variable is corrected to its 0/1 value
            else:
                o.bad(site, "correct_bounds", "correct(%s) = %s" % (x, c))
                break
        if not V.is_member(d, dec):
            o.bad(site, "decode_domain", "decode(%s) = %r" % (x, dec))
            break
        if t in ("tbin", "tbool"):
            if not set(c.tolist()) <= {0.0, 1.0} or (t == "tbin" and not d["az"] and not np.any(c)):
                o.bad(site, "correct_domain", "correct(%s) = %s" % (x, c))
            dd = v.decode(c)
            if [int(k) for k in dd] != [int(k) for k in c]:
                o.bad(site, "decode_redraw", "decode of the corrected %s gives %s" % (c, dd))
            continue
        c2 = np.asarray(v.correct(c), dtype=float)
        if not np.array_equal(c, c2):
            o.bad(site, "not_idempotent", "%s -> %s -> %s" % (x, c, c2))
            break
        if V.key(seqval(d, v.decode(c))) != V.key(dec):
            o.bad(site, "decode_correct", "decode(x) != decode(correct(x)) at %s" % (x,))
            break
        if t == "float" and not np.array_equal(c, np.minimum(np.maximum(arr, lo), hi)):
            o.bad(site, "nearest", "correct(%s) = %s" % (x, c))
        if t == "int" and np.any(np.abs(np.asarray(dec, dtype=float) - np.minimum(np.maximum(arr, d["lb"]), d["ub"])) > 0.5 + 1e-9):
            o.bad(site, "nearest", "decode(%s) = %s" % (x, dec))
        if t in ("str", "cat", "seq", "bin", "bool") and all(l <= a < h for a, l, h in zip(x, lo, hi)) and not np.array_equal(np.floor(c), np.floor(np.minimum(arr, v.ub))):
            o.bad(site, "nearest", "correct(%s) = %s" % (x, c))
        if t == "perm" and any((x[i] < x[j]) and not (c[i] < c[j]) for i in range(n) for j in range(n)):
            o.bad(site, "order", "correct(%s) = %s does not rank the coordinates" % (x, c))
    if t in ("tbin", "tbool") and draws == 400 and not o.violations:
        x = float(min(max(case["xs"][0][0], lo[0]), hi[0]))
        if not (t == "tbin" and not d["az"]):
            k = 400 * n
            p = V.tf_reference(d["tf"], x)
            s = sum(int(np.sum(v.correct(np.full(n, x)))) for _ in range(400))
            if abs(s - k * p) > 6 * math.sqrt(k * p * (1 - p)) + 1e-6 * k:
                o.bad(site, "transfer_probability", "%s at %s: %d ones of %d, probability %.4f" % (d["tf"], x, s, k, p))
    o.nontrivial = ms is None or len(ms) >= 2
    o.label("draws%d" % draws, "n%d" % n)
    o.info = {"members": None if ms is None else len(ms)}
    return o
