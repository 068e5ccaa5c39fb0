"""C19: multitask runs every algorithm on every problem under its own settings."""
from pbt import boot, scripted
from pbt.engine import Outcome
from hypothesis import strategies as st
from mealpy import Multitask, Termination
import math, os, shutil, tempfile
import numpy as np
import pandas as pd
PID = "C19"
RULE = ("generated sets of 1-4 algorithms and 1-4 problems, termination/mode lists of every admissible and inadmissible shape (also ambiguous ones), trials, job counts, formats and save locations run through Multitask with "
        "scripted optimizers logging every solve() across processes; oracle: reference dispatcher giving the settings of every pair, logged results vs files read back; non-trivial = at least 2 algorithms or problems and a list "
        "with distinct entries")
SHAPES = ["none", "one", "n", "m", "nm", "nested"]


def units(tier):
    q = tier == "quick"
    return [{"name": "seq%d" % i, "kind": "seq", "n": 70 if q else 700} for i in range(8)] + \
           [{"name": "par%d" % i, "kind": "par", "n": 4 if q else 60, "weight": 3} for i in range(8)] + \
           [{"name": "shapes", "kind": "shape", "n": 300 if q else 3000}, {"name": "arguments", "kind": "args", "n": 60 if q else 400}]


TERMS = [{"max_epoch": 1}, {"max_epoch": 2}, {"max_epoch": 3}, {"max_epoch": 4}, {"max_epoch": 2, "max_fe": 10000}, {"max_fe": 12}, {"max_epoch": 50}, "o2", "o3"]
MODES = ["single", "swarm", "thread"]


@st.composite
def strategy_(draw, kind):
    n, m = draw(st.integers(1, 3 if kind != "par" else 2)), draw(st.integers(1, 4 if kind != "par" else 2))
    c = {"n": n, "m": m, "tshape": draw(st.sampled_from(SHAPES)), "mshape": draw(st.sampled_from(SHAPES)),
         "terms": draw(st.lists(st.sampled_from(TERMS), min_size=n * m, max_size=n * m)), "modes": draw(st.lists(st.sampled_from(MODES), min_size=n * m, max_size=n * m)),
         "tup": draw(st.booleans()), "epochs": draw(st.lists(st.integers(1, 5), min_size=n, max_size=n)), "pops": draw(st.lists(st.integers(2, 4), min_size=n, max_size=n)),
         "mm": draw(st.lists(st.sampled_from(["min", "max"]), min_size=m, max_size=m)), "forms": draw(st.lists(st.sampled_from(["dict", "obj"]), min_size=m, max_size=m)),
         "trials": draw(st.integers(1, 3)), "jobs": draw(st.sampled_from([2, 3])) if kind == "par" else draw(st.sampled_from([None, None, 1, 0, -2])),
         "as": draw(st.sampled_from(["csv", "json", "dataframe"])), "conv": draw(st.booleans()), "verbose": draw(st.booleans()), "deep": draw(st.booleans()),
         "vals": draw(st.lists(st.integers(-40, 40).map(lambda k: k / 4.), min_size=1, max_size=7)), "again": draw(st.sampled_from([False, False, True])), "n_workers": draw(st.sampled_from([None, 2]))}
    return c


@st.composite
def shape_(draw):
    return {"n": draw(st.integers(1, 5)), "m": draw(st.integers(1, 5)), "len": draw(st.integers(0, 12)), "what": draw(st.sampled_from(["terminations", "modes"])),
            "nest": draw(st.sampled_from([None, None, None, "ragged", "wrong", "ok"])), "tup": draw(st.booleans()), "other": draw(st.sampled_from([None, None, None, "single", 3, {"max_epoch": 2}]))}


@st.composite
def args_(draw):
    return {"what": draw(st.sampled_from(["n_trials", "n_jobs", "save_as", "algorithms", "problems", "modes_value"])), "v": draw(st.integers(0, 3))}


def strategy(unit):
    return shape_() if unit["kind"] == "shape" else args_() if unit["kind"] == "args" else strategy_(unit["kind"])


def grid(values, shape, n, m):
    """-> (argument, expected n x m matrix)."""
    if shape == "none":
        return None, None
    if shape == "one":
        return [values[0]], [[values[0]] * m for _ in range(n)]
    if shape == "nested":
        g = [[values[i * m + j] for j in range(m)] for i in range(n)]
        return g, g
    if shape == "n":
        return values[:n], resolve(values[:n], n, m)
    if shape == "m":
        return values[:m], resolve(values[:m], n, m)
    return values[:n * m], resolve(values[:n * m], n, m)


def resolve(vals, n, m):
    """A flat list: one value; else one per algorithm; else one per problem; else one per pair (algorithm-major)."""
    k = len(vals)
    if k == 1:
        return [[vals[0]] * m for _ in range(n)]
    if k == n:
        return [[vals[i]] * m for i in range(n)]
    if k == m:
        return [[vals[j] for j in range(m)] for _ in range(n)]
    if k == n * m:
        return [[vals[i * m + j] for j in range(m)] for i in range(n)]
    return None


def mk(t):
    return Termination(max_epoch=int(t[1])) if isinstance(t, str) and t.startswith("o") else dict(t) if isinstance(t, dict) else t


def mapped(x, f):
    return [mapped(i, f) for i in x] if isinstance(x, list) else f(x)


def check_shape(case):
    o = Outcome()
    n, m = case["n"], case["m"]
    algos = [scripted.Scripted(epoch=2, name="A%d" % i) for i in range(n)]
    probs = [scripted.script_problem("p%d" % j, "min") for j in range(m)]
    mode = case["what"] == "modes"
    make = (lambda k: MODES[k % 3]) if mode else (lambda k: {"max_epoch": k + 1})
    if case["other"] is not None:
        arg, want = case["other"], None
    elif case["nest"] is None:
        arg = [make(k) for k in range(case["len"])]
        want = resolve(arg, n, m)
    elif case["nest"] == "ok":
        arg = [[make(i * m + j) for j in range(m)] for i in range(n)]
        want = arg
    elif case["nest"] == "wrong":
        arg = [[make(0) for _ in range(m)] for _ in range(n + 1 + (n * m == n + 1) + case["len"])]
        want = None
        if len(arg) in (1, n, m, n * m):
            o.label("skipped")
            return o
    else:
        o.label("skipped")
        return o
    if case["tup"] and isinstance(arg, list):
        arg = tuple(tuple(x) if isinstance(x, list) else x for x in arg)
    try:
        mt = Multitask(algorithms=algos, problems=probs, **{case["what"]: arg})
        got = "accepted"
    except ValueError:
        got = "ValueError"
    except Exception as e:
        got = repr(e)
    exp = "accepted" if want is not None else "ValueError"
    if got != exp:
        o.bad("check_input", "acceptance", "%d algorithms, %d problems, %s=%s: %s, expected %s" % (n, m, case["what"], arg, got, exp))
    o.nontrivial = n * m > 1
    o.label(exp)
    return o


def check_args(case):
    o = Outcome()
    o.nontrivial = True
    d = tempfile.mkdtemp(prefix="verif_c19_")
    try:
        a = scripted.Scripted(epoch=2, name="A")
        a.logdir, a.table = d, {}
        p = scripted.script_problem("p", "min")
        w, v = case["what"], case["v"]
        cons, ex = dict(algorithms=[a], problems=[p]), dict(n_trials=1, save_path=os.path.join(d, "h"))
        if w in ("algorithms", "problems"):
            cons[w] = [None, 3, "x", {}][v]
        elif w == "modes_value":
            cons["modes"] = [["swam"], ["parallel"], [3], ["Single"]][v]
        elif w == "n_jobs":
            ex["n_jobs"] = [62, 1000, 10 ** 5, 99][v]
        else:
            ex[w] = {"n_trials": [0, -1, "2", 100001], "save_as": ["xlsx", "CSV", None, 3]}[w][v]
        try:
            Multitask(**cons).execute(**ex)
            o.bad("arguments", w, "variant %d accepted" % v)
        except ValueError:
            pass
        except Exception as e:
            o.bad("arguments", w, "variant %d: %r instead of ValueError" % (v, e))
        if scripted.read_log(d):
            o.bad("arguments", "ran", "a run was made although %s (variant %d) is invalid" % (w, v))
    finally:
        shutil.rmtree(d, ignore_errors=True)
    return o


def read(path, how):
    return pd.read_csv(path + ".csv") if how == "csv" else pd.read_json(path + ".json") if how == "json" else pd.read_pickle(path + ".pkl")


def close(a, b):
    a = float("nan") if a is None else float(a)
    return a == b or (a != a and b != b) or abs(a - b) <= 1e-9 * max(1, abs(b))


def check(unit, case):
    if unit["kind"] == "shape":
        return check_shape(case)
    if unit["kind"] == "args":
        return check_args(case)
    o = Outcome()
    if case["jobs"] and case["jobs"] > 1 and (os.cpu_count() or 1) - 1 < case["jobs"]:
        o.label("too-few-cores")
        return o
    d = tempfile.mkdtemp(prefix="verif_c19_")
    try:
        for rep in range(1 + case["again"]):
            one(o, unit, case, os.path.join(d, str(rep)))
            if o.violations:
                break
    finally:
        shutil.rmtree(d, ignore_errors=True)
    return o


def one(o, unit, case, d):
    n, m = case["n"], case["m"]
    os.makedirs(os.path.join(d, "log"))
    algos = []
    for i in range(n):
        a = scripted.Scripted(epoch=case["epochs"][i], pop_size=case["pops"][i], a=i, name="Algo%d" % i)
        a.logdir, a.table = os.path.join(d, "log"), {}
        for j in range(m):
            k = (i * m + j) % len(case["vals"])
            a.table[scripted.hexkey([i, 0, "prob%d" % j])] = [v + j for v in case["vals"][k:] + case["vals"][:k]]
        algos.append(a)
    probs = [scripted.script_problem("prob%d" % j, case["mm"][j], case["forms"][j]) for j in range(m)]
    targ, tgrid = grid(case["terms"], case["tshape"], n, m)
    marg, mgrid = grid(case["modes"], case["mshape"], n, m)
    if (case["tshape"] != "none" and tgrid is None) or (case["mshape"] != "none" and mgrid is None):
        o.label("inadmissible")
        return
    targ = mapped(targ, mk) if targ is not None else None
    wrap = tuple if case["tup"] else list
    mt = Multitask(algorithms=wrap(algos), problems=wrap(probs), terminations=wrap(targ) if targ is not None else None, modes=wrap(marg) if marg is not None else None, n_workers=case["n_workers"])
    out = os.path.join(d, "out", "deeper") if case["deep"] else os.path.join(d, "out")
    kw = {"save_convergence": True} if case["conv"] else {}
    mt.execute(n_trials=case["trials"], n_jobs=case["jobs"], save_path=out, save_as=case["as"], verbose=case["verbose"], **kw)
    log = scripted.read_log(os.path.join(d, "log"))
    seq = case["jobs"] is None or case["jobs"] <= 1
    site = "multitask"
    by = {}
    for r in log:
        by.setdefault((r["name"], r["problem"]), []).append(r)
        if seq != (r["pid"] == os.getpid()):
            o.bad(site, "jobs", "n_jobs=%r, run in %s process" % (case["jobs"], "the main" if r["pid"] == os.getpid() else "another"))
            return
    ext = {"csv": ".csv", "json": ".json", "dataframe": ".pkl"}[case["as"]]
    want_files = sorted(["best_fit/Algo%d_best_fit%s" % (i, ext) for i in range(n)] + (["convergence/Algo%d/prob%d_convergence%s" % (i, j, ext) for i in range(n) for j in range(m)] if case["conv"] else []))
    got_files = sorted(os.path.relpath(os.path.join(r, f), out) for r, _, fs in os.walk(out) for f in fs)
    if got_files != want_files:
        o.bad(site, "files", "%s, expected %s" % (got_files, want_files))
        return
    for i in range(n):
        df = read(os.path.join(out, "best_fit", "Algo%d_best_fit" % i), case["as"])
        if list(df.columns) != ["prob%d" % j for j in range(m)] or len(df) != case["trials"]:
            o.bad(site, "best_fit_shape", "columns %s, %d rows" % (list(df.columns), len(df)))
            return
        for j in range(m):
            runs = by.get(("Algo%d" % i, "prob%d" % j), [])
            if len(runs) != case["trials"]:
                o.bad(site, "runs", "algorithm %d on problem %d ran %d times, n_trials=%d" % (i, j, len(runs), case["trials"]))
                return
            wm = mgrid[i][j] if mgrid else "single"
            wt = scripted.term_view(mk(tgrid[i][j])) if tgrid else None
            for r in runs:
                if r["mode"] != wm:
                    o.bad(site, "mode", "%d algorithms x %d problems, modes=%s: pair (%d, %d) ran in mode %s, expected %s" % (n, m, marg, i, j, r["mode"], wm))
                    return
                if r["term"] != wt:
                    o.bad(site, "termination", "%d algorithms x %d problems, terminations=%s: pair (%d, %d) ran under %s, expected %s" % (n, m, case["tshape"], i, j, r["term"], wt))
                    return
                if wt and wt.get("max_epoch") and "max_fe" not in wt and r["epochs"] != min(wt["max_epoch"], case["epochs"][i]):
                    o.bad(site, "generations", "%d under %s, epoch=%d" % (r["epochs"], wt, case["epochs"][i]))
                    return
                if r["attrs"]["a"] != i or r["attrs"]["epoch"] != case["epochs"][i] or r["attrs"]["pop_size"] != case["pops"][i]:
                    o.bad(site, "parameters", str(r["attrs"]))
                    return
            want = [r["fitness"] for r in runs]
            got = [x for x in df["prob%d" % j]]
            if not all(close(x, y) for x, y in zip(got if seq else sorted(got), want if seq else sorted(want))):
                o.bad(site, "best_fit", "algorithm %d problem %d: file has %s, runs returned %s" % (i, j, got, want))
                return
            if case["conv"]:
                cv = read(os.path.join(out, "convergence", "Algo%d" % i, "prob%d_convergence" % j), case["as"])
                if list(cv.columns) != ["trial_%d" % (t + 1) for t in range(case["trials"])]:
                    o.bad(site, "convergence_columns", str(list(cv.columns)))
                    return
                for t in range(case["trials"]):
                    g = list(cv["trial_%d" % (t + 1)])
                    cand = [runs[t]] if seq else [r for r in runs if close(got[t], r["fitness"])]
                    if not any(len(g) >= len(r["curve"]) and all(close(x, y) for x, y in zip(g, r["curve"])) and all(x is None or x != x for x in g[len(r["curve"]):]) for r in cand):
                        o.bad(site, "convergence", "algorithm %d problem %d trial %d: %s, the run had %s" % (i, j, t + 1, g, [r["curve"] for r in cand]))
                        return
    vary = any(len({repr(x) for row in g for x in row}) > 1 for g in (tgrid, mgrid) if g)
    o.nontrivial = n * m > 1 and vary
    o.label("t_" + case["tshape"], "m_" + case["mshape"], "jobs%s" % case["jobs"], case["as"], "distinct" if n != m else "n==m")
    o.info = {"n": n, "m": m, "terms": case["tshape"], "modes": case["mshape"], "files": len(got_files)}
