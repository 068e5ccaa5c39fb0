"""C11: a mixed-variable problem is the concatenation of its variables."""
from pbt import boot, varspec as V
from pbt.engine import Outcome
from hypothesis import strategies as st
from mealpy import Problem
import numpy as np
PID = "C11"
RULE = ("generated lists (list/tuple/single variable) of 1-5 declarations over all variable classes with distinct names and arbitrary vectors; oracle: each variable class alone on its own slice (same seed) and the "
        "declared boxes; malformed bounds must raise; 60 generated solutions of a seeded problem show no correlation between variables; non-trivial = >= 2 variables of >= 2 classes, or malformed bounds judged")


def units(tier):
    n = 500 if tier == "quick" else 8000
    return [{"name": "mixed-%d" % k, "k": k, "n": n} for k in (1, 2, 3, 4, 5)] + [{"name": "malformed", "n": 200 if tier == "quick" else 2000}, {"name": "independent", "n": 150 if tier == "quick" else 3000}]


@st.composite
def strategy_(draw, k):
    ds = [draw(V.decl(draw(st.sampled_from(V.TYPES)))) for _ in range(k)]
    names = draw(st.permutations(["x", "a b", "", "ß", "v1"]))
    for d, n in zip(ds, names):
        d["name"] = n
    return {"decls": ds, "xs": draw(st.lists(st.tuples(*[V.real_vector(d) for d in ds]), min_size=1, max_size=3)), "seed": draw(st.integers(0, 2 ** 31)),
            "box": draw(st.sampled_from(["list", "tuple", "single"])), "pick": draw(st.integers(0, 10 ** 6))}


def strategy(unit):
    if unit["name"] == "malformed":
        return st.fixed_dictionaries({"bad": st.sampled_from([None, 3, "x", {}, [1], ["a", 2], [None], "mixed", "nested", "rows"]), "d": V.decl("float")})
    if unit["name"] == "independent":
        one = st.tuples(st.sampled_from(["float", "int", "perm", "cat"]), st.integers(1, 2), st.integers(-50, 50), st.integers(30, 90))
        return st.fixed_dictionaries({"vars": st.lists(one, min_size=2, max_size=4), "seed": st.integers(0, 2 ** 31), "again": st.sampled_from(["constructor", "set_seed", "none"])})
    return strategy_(unit["k"])


def independent(case):
    """60 generated solutions of a seeded problem: coordinates of different variables must not move together (P(|r| > 0.75) < 1e-10 when independent)"""
    from mealpy import FloatVar, IntegerVar, PermutationVar, CategoricalVar
    o = Outcome()
    vs = []
    for i, (t, n, lo, w) in enumerate(case["vars"]):
        vs.append(FloatVar([float(lo)] * n, [float(lo + w)] * n, name="v%d" % i) if t == "float" else IntegerVar([lo] * n, [lo + w] * n, name="v%d" % i) if t == "int" else
                  PermutationVar(list(range(20 + n)), name="v%d" % i) if t == "perm" else CategoricalVar([list(range(30))] * n, name="v%d" % i))
    p = Problem(vs, "min", log_to=None, **({"seed": case["seed"]} if case["again"] == "constructor" else {}))
    if case["again"] == "set_seed":
        p.set_seed(case["seed"])
    X = np.array([p.generate_solution(encoded=True) for _ in range(60)], dtype=float)
    owner = np.repeat(np.arange(len(vs)), [v.n_vars for v in vs])
    for i in range(X.shape[1]):
        for j in range(i):
            if owner[i] != owner[j]:
                r = np.corrcoef(X[:, i], X[:, j])[0, 1]
                if abs(r) > 0.75:
                    o.bad("problem", "dependent_variables", "variables %s and %s of a problem with seed %s are generated with correlation %.3f" % (case["vars"][owner[j]], case["vars"][owner[i]], case["seed"], r))
                    return o
    o.nontrivial = True
    o.label("independent")
    return o


def vkey(v):
    """comparable form of a decoded/generated value of one variable"""
    if isinstance(v, (list, tuple, np.ndarray)):
        return repr([vkey(x) for x in v])
    if v is None or isinstance(v, (bool, np.bool_)):
        return repr(v if v is None else bool(v))
    return repr(str(v)) if isinstance(v, str) else repr(float(v))


def check(unit, case):
    if unit["name"] == "independent":
        return independent(case)
    o = Outcome()
    site = "problem"
    if unit["name"] == "malformed":
        v, bad = V.make(case["d"]), case["bad"]
        b = [v, 5] if bad == "mixed" else [[v]] if bad == "nested" else [[0., 1.], [2., 3.]] if bad == "rows" else bad
        o.nontrivial = True
        try:
            Problem(b, "min", log_to=None)
        except (ValueError, TypeError):
            return o
        except Exception as e:
            o.bad(site, "malformed", "%r for bounds=%r" % (e, b))
            return o
        o.bad(site, "malformed", "accepted bounds=%r" % (b,))
        return o
    ds = case["decls"]
    vs = [V.make(d) for d in ds]
    ref = [V.make(d) for d in ds]
    b = vs[0] if case["box"] == "single" and len(vs) == 1 else tuple(vs) if case["box"] == "tuple" else vs
    p = Problem(b, "min", log_to=None, seed=case["seed"])
    sizes = [V.size(d) for d in ds]
    cut = np.cumsum([0] + sizes)

    def reseed():
        p.set_seed(case["seed"])
        for r, v in zip(ref, vs):
            r.seed = v.seed
    for r, v in zip(ref, vs):
        r.seed = v.seed
    if p.n_dims != cut[-1] or np.shape(p.lb) != (cut[-1],) or np.shape(p.ub) != (cut[-1],):
        o.bad(site, "n_dims", "n_dims=%s lb=%s, sizes %s" % (p.n_dims, p.lb, sizes))
        return o
    if not np.array_equal(p.lb, np.concatenate([r.lb for r in ref])) or not np.array_equal(p.ub, np.concatenate([r.ub for r in ref])):
        o.bad(site, "bounds", "%s %s" % (p.lb, p.ub))
    if list(p.bounds) != vs:
        o.bad(site, "bounds_order", "")
    # generation (the constructor's seed, then set_seed)
    for rnd in range(2):
        g = p.generate_solution(encoded=False)
        gr = [r.generate() for r in ref]
        if len(g) != len(gr) or any(vkey(list(a)) != vkey(list(c)) for a, c in zip(g, gr)):
            o.bad(site, "generate", "%s vs %s" % (g, gr))
            return o
        e = p.encode_solution(g)
        er = np.concatenate([np.asarray(r.encode(x), dtype=float) for r, x in zip(ref, gr)])
        if not np.array_equal(np.asarray(e, dtype=float), er):
            o.bad(site, "encode", "%s -> %s, expected %s" % (g, e, er))
        reseed()
    gen = p.generate_solution(encoded=True)
    er = np.concatenate([np.asarray(r.encode(r.generate()), dtype=float) for r in ref])
    if not np.array_equal(np.asarray(gen, dtype=float), er):
        o.bad(site, "generate_encoded", "%s vs %s" % (gen, er))
    # arbitrary members
    ms, enc = [], []
    for i, (d, r) in enumerate(zip(ds, ref)):
        m = V.members(d)
        m = m[(case["pick"] >> (3 * i)) % len(m)] if m else list(d["ub"])
        ms.append(tuple(m) if d["t"] == "seq" else m)
        enc.append(np.asarray(r.encode(ms[-1]), dtype=float))
    e = np.asarray(p.encode_solution(ms), dtype=float)
    if not np.array_equal(e, np.concatenate(enc)):
        o.bad(site, "encode", "%s -> %s" % (ms, e))

    def decode_ref(x):
        out = {}
        for d, r, a, c in zip(ds, ref, cut, cut[1:]):
            v = r.decode(np.array(x[a:c]))
            out[d["name"]] = v[0] if c - a == 1 else v
        return out

    def judge_decode(x):
        reseed()
        got, want = p.decode_solution(x), decode_ref(x)
        if not isinstance(got, dict) or list(got) != list(want) or any(vkey(got[k]) != vkey(want[k]) for k in want):
            o.bad(site, "decode", "%s -> %s, expected %s" % (x, got, want))
            return
        for d in ds:
            v = got[d["name"]]
            if not V.is_member(d, v if d["t"] == "seq" or V.size(d) > 1 else [v]):
                o.bad(site, "decode_member", "%r: %r is not a member of %s" % (d["name"], v, d))
    judge_decode(e)
    for parts in case["xs"]:
        x = np.concatenate([np.array(q, dtype=float) for q in parts])
        keep = x.copy()
        reseed()
        c = np.asarray(p.correct_solution(x), dtype=float)
        cr = np.concatenate([np.asarray(r.correct(x[a:b2]), dtype=float) for r, a, b2 in zip(ref, cut, cut[1:])])
        if not np.array_equal(c, cr):
            o.bad(site, "correct", "%s -> %s, expected %s" % (x, c, cr))
        judge_decode(x)
        if not np.array_equal(x, keep):
            o.bad(site, "input_modified", "%s -> %s" % (keep, x))
    o.nontrivial = len({d["t"] for d in ds}) >= 2
    o.label("k%d" % len(ds), *{d["t"] for d in ds})
    o.info = {"n_dims": int(cut[-1])}
    return o
