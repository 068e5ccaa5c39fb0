"""C18: the tuner evaluates the whole grid and picks the truly best row."""
from pbt import boot, scripted
from pbt.engine import Outcome
from hypothesis import strategies as st
from mealpy import Tuner, Termination
import itertools, json, math, os, shutil, tempfile
import numpy as np
import pandas as pd
PID = "C18"
RULE = ("generated grids (1-3 parameters, values of several types, duplicates), directions, problem forms, trial counts, job counts, modes and terminations run through Tuner with an optimizer whose trial results are scripted "
        "(ties in mean and deviation on purpose) or real, every solve() call being logged across processes; oracle: reference tuner computing calls, tables and best rows from the log; exported files read back; "
        "non-trivial = at least 2 grid points and 2 distinct trial values")


def units(tier):
    q = tier == "quick"
    out = [{"name": "seq%d" % i, "kind": "seq", "n": 90 if q else 900} for i in range(8)]
    out += [{"name": "par%d" % i, "kind": "par", "n": 6 if q else 120, "weight": 3} for i in range(8)]
    out += [{"name": "real%d" % i, "kind": "real", "n": 15 if q else 150} for i in range(4)]
    out += [{"name": "figures%d" % i, "kind": "fig", "n": 4 if q else 40, "weight": 4} for i in range(4)]
    out += [{"name": "arguments", "kind": "args", "n": 40 if q else 400}]
    return out


VALS = st.sampled_from([0, 1, 2, 0.5, -1.25, "p", "q", True, None, 10])


@st.composite
def table(draw, n, val):
    if draw(st.booleans()):
        return draw(st.lists(st.lists(val, min_size=1, max_size=4), min_size=1, max_size=8))
    out = []                                       # rows with few different means and several spreads
    ms = draw(st.lists(st.integers(-2, 2), min_size=1, max_size=2))
    for _ in range(draw(st.integers(2, 6))):
        m, s = draw(st.sampled_from(ms)), draw(st.integers(0, 4)) / 2.
        row = [m - s, m + s, float(m), float(m)][:max(n, 1)] if n > 1 else [float(m)]
        out.append(row if draw(st.booleans()) else row[::-1])
    return out


@st.composite
def strategy_(draw, kind):
    keys = draw(st.lists(st.sampled_from(["a", "b", "epoch", "pop_size"]), min_size=1, max_size=3, unique=True))
    grid = {}
    for k in keys:
        if k == "epoch":
            grid[k] = draw(st.lists(st.integers(1, 5), min_size=1, max_size=3))
        elif k == "pop_size":
            grid[k] = draw(st.lists(st.integers(2, 4), min_size=1, max_size=2))
        else:
            grid[k] = draw(st.lists(VALS, min_size=1, max_size=3, unique_by=lambda v: (type(v).__name__, v)))
    if kind == "fig":
        grid = {k: v[:2] for k, v in list(grid.items())[:2]}
    if kind == "real":
        grid = {}
        for k in draw(st.lists(st.sampled_from(["epoch", "pop_size", "c1", "w"]), min_size=1, max_size=2, unique=True)):
            grid[k] = draw(st.lists({"epoch": st.integers(1, 4), "pop_size": st.integers(5, 8), "c1": st.sampled_from([0.5, 1.0, 2.05, 2.5]), "w": st.sampled_from([0.1, 0.4, 0.9])}[k], min_size=1, max_size=3))
    n = draw(st.integers(1, 3 if kind in ("seq", "real") else 2 if kind == "fig" else 4))
    val = st.one_of(st.integers(-6, 6).map(lambda k: k / 4.), st.integers(-2, 2).map(float))
    return {"grid": grid, "n_trials": n, "minmax": draw(st.sampled_from(["min", "max"])), "form": draw(st.sampled_from(["dict", "dict", "obj", "dict_default"])),
            "table": draw(table(n, val)), "mode": draw(st.sampled_from(["single", "swarm", "single", "xyz", "thread", None])),
            "n_jobs": draw(st.sampled_from([2, 2, 3])) if kind == "par" else draw(st.sampled_from([None, None, 0, 1, -3])),
            "term": draw(st.sampled_from([None, None, {"max_epoch": 2}, {"max_epoch": 3, "max_fe": 1000}, "obj"])), "epoch0": draw(st.integers(1, 5)), "pop0": draw(st.integers(2, 4)),
            "ext": draw(st.sampled_from(["csv", "json", "dataframe"])), "fn": draw(st.sampled_from(["r", "tuning.best", "x-y"])), "again": draw(st.sampled_from([0, 0, 1])) if kind != "fig" else 0,
            "rmode": draw(st.sampled_from(["single", "swarm", "thread"])), "verbose": draw(st.booleans())}


@st.composite
def args_(draw):
    return {"what": draw(st.sampled_from(["n_trials", "problem", "algorithm", "param_grid", "unknown", "n_jobs"])), "v": draw(st.integers(0, 4))}


def strategy(unit):
    return args_() if unit["kind"] == "args" else strategy_(unit["kind"])


def check_args(case):
    o = Outcome()
    o.nontrivial = True
    d = tempfile.mkdtemp(prefix="verif_c18_")
    try:
        opt = scripted.Scripted(epoch=2, pop_size=2)
        opt.logdir, opt.table = d, {}
        prob = scripted.script_problem("P", "min")
        w, v = case["what"], case["v"]
        exp = (ValueError,)
        try:
            if w == "algorithm":
                Tuner([None, 3, "OriginalPSO", scripted.Scripted, {}][v], {"a": [1]})
            elif w == "param_grid":
                Tuner(opt, [None, 3, "a", [1], ("a",)][v])
            else:
                t = Tuner(opt, {"a": [1, 2]} if w != "unknown" else {[" a", "x", "nfe_counter", "A", "mode"][v]: [1, 2]})
                kw = dict(problem=prob, n_trials=1, verbose=False)
                if w == "n_trials":
                    kw["n_trials"] = [0, -1, "2", None, 100001][v]
                if w == "problem":
                    exp = (TypeError, ValueError)
                    kw["problem"] = [None, 3, "P", [prob], (1, 2)][v]
                if w == "n_jobs":
                    kw["n_jobs"] = [1000, 10 ** 6, 62, 500, 99][v]
                t.execute(**kw)
            o.bad("arguments", w, "invalid %s (variant %d) accepted" % (w, v))
        except exp:
            pass
        except Exception as e:
            o.bad("arguments", w, "variant %d: %r" % (v, e))
        if scripted.read_log(d):
            o.bad("arguments", "ran", "a run was made although %s (variant %d) is invalid" % (w, v))
    finally:
        shutil.rmtree(d, ignore_errors=True)
    return o


def product(grid):
    return [dict(zip(grid, vs)) for vs in itertools.product(*grid.values())]


def mk_term(case):
    return Termination(max_epoch=2) if case["term"] == "obj" else dict(case["term"]) if case["term"] else None


def limit(case):
    t = case["term"]
    return 2 if t == "obj" else t["max_epoch"] if t else 10 ** 9


def num_eq(a, b, tol=1e-9):
    return a == b or (a != a and b != b) or abs(a - b) <= tol * max(1.0, abs(a), abs(b))


def judge(o, case, kind, tuner, log, minmax, base):
    site = "tuner"
    rows = product(case["grid"])
    n = case["n_trials"]
    if len(log) != len(rows) * n:
        o.bad(site, "calls", "%d runs for %d grid points x %d trials" % (len(log), len(rows), n))
        return None
    # --- every run under the right settings
    seq = case["n_jobs"] is None or case["n_jobs"] <= 1
    mode = case["mode"] if case["mode"] in ("single", "swarm", "thread") else "single"
    for j, r in enumerate(log):
        if seq:
            want = dict(base, **rows[j // n])
            if any(not same_val(r["params"].get(k), v) for k, v in want.items()) or any(not same_val(r["attrs"].get(k), v) for k, v in want.items()):
                o.bad(site, "params", "run %d used %s, expected %s" % (j, r["attrs"], want))
                return None
            if r["pid"] != os.getpid():
                o.bad(site, "sequential", "n_jobs=%r but a run happened in another process" % (case["n_jobs"],))
                return None
        elif r["pid"] == os.getpid():
            o.bad(site, "parallel", "n_jobs=%r but a run happened in the main process" % (case["n_jobs"],))
            return None
        if r["mode"] != mode:
            o.bad(site, "mode", "asked for %r, ran %r" % (case["mode"], r["mode"]))
        if r["term"] != scripted.term_view(mk_term(case)):
            o.bad(site, "termination", "asked for %r, ran under %r" % (case["term"], r["term"]))
    # --- tables
    fit, loss = tuner.df_fit, tuner.df_loss
    cols = ["trial_%d" % (i + 1) for i in range(n)]
    if len(fit) != len(rows) or not all(c in fit.columns for c in cols):
        o.bad(site, "df_fit_shape", "%s rows, columns %s" % (len(fit), list(fit.columns)))
        return None
    if len(loss) != len(log):
        o.bad(site, "df_loss_shape", "%d rows for %d runs" % (len(loss), len(log)))
        return None
    vals = []
    for i, p in enumerate(rows):
        got_p = fit["params"].iloc[i]
        if got_p != p or any(not same_val(got_p[k], p[k]) for k in p):
            o.bad(site, "row_params", "row %d is %s, expected %s" % (i, got_p, p))
            return None
        row = [float(fit[c].iloc[i]) for c in cols]
        runs = log[i * n:(i + 1) * n]
        want = [r["fitness"] for r in runs]
        if seq and row != want or not seq and sorted(row) != sorted(want):
            o.bad(site, "trial_values", "row %s: %s, but the runs returned %s" % (p, row, want))
            return None
        if not seq:
            for r in runs:
                w = dict(base, **p)
                if any(not same_val(r["attrs"].get(k), v) for k, v in w.items()):
                    o.bad(site, "params", "runs of row %d used %s, expected %s" % (i, r["attrs"], w))
                    return None
        vals.append(row)
        m = sum(row) / n
        s = math.sqrt(sum((x - m) ** 2 for x in row) / (n - 1)) if n > 1 else float("nan")
        if not num_eq(float(fit["trial_mean"].iloc[i]), m) or not num_eq(float(fit["trial_std"].iloc[i]), s, 1e-7):
            o.bad(site, "mean_std", "row %s: mean %s std %s reported as %s, %s" % (row, m, s, fit["trial_mean"].iloc[i], fit["trial_std"].iloc[i]))
            return None
        used = []
        for t in range(n):
            lr = loss.iloc[i * n + t]
            if any(not same_val(lr[k], p[k], True) for k in p) or int(lr["trial"]) != t:
                o.bad(site, "df_loss_row", "row %d of df_loss: %s, expected %s trial %d" % (i * n + t, dict(lr), p, t))
                return None
            ecols = [c for c in loss.columns if c not in p and c != "trial"]
            if [int(c) for c in ecols] != list(range(1, len(ecols) + 1)):
                o.bad(site, "df_loss_columns", str(list(loss.columns)))
                return None
            got = [float(lr[c]) for c in ecols]
            cands = [runs[t]] if seq else [r for r in runs if r["fitness"] == row[t]]
            if not any(got[:len(r["curve"])] == r["curve"] and all(x != x for x in got[len(r["curve"]):]) for r in cands):
                o.bad(site, "df_loss_values", "convergence %s of %s trial %d, but the run had %s" % (got, p, t, [r["curve"] for r in cands]))
                return None
    # --- the best row
    sign = 1 if minmax == "min" else -1
    stat = []
    for row in vals:
        m = sum(row) / n
        stat.append((sign * m, math.sqrt(sum((x - m) ** 2 for x in row) / (n - 1)) if n > 1 else 0.0))
    bm = min(x[0] for x in stat)
    tied = [i for i, x in enumerate(stat) if num_eq(x[0], bm, 1e-12)]
    bs = min(stat[i][1] for i in tied)
    best = [i for i in tied if num_eq(stat[i][1], bs, 1e-7)]
    ok_params = [rows[i] for i in best]
    got = tuner.best_params
    if got not in ok_params or not any(all(same_val(got[k], q[k]) for k in q) for q in ok_params):
        o.bad(site, "best_params", "%s chosen (%s), but the best rows are %s; (mean, std) table %s" % (got, minmax, ok_params, [(sign * a, b) for a, b in stat]))
        return None
    if not num_eq(float(tuner.best_score), sign * bm):
        o.bad(site, "best_score", "%s, best mean is %s" % (tuner.best_score, sign * bm))
    br = tuner.best_row
    if len(br) < 1 or any(p not in ok_params for p in br["params"]):
        o.bad(site, "best_row", "%s" % (list(br["params"]),))
    if len(tied) > 1:
        o.label("tied-mean")
    if len(tied) > len(best):
        o.label("std-decides")
    return ok_params, vals


def same_val(a, b, loose=False):
    if loose and isinstance(b, bool) is False and isinstance(b, (int, float)) and isinstance(a, (int, float, np.number)):
        return float(a) == float(b)
    if loose:
        return a == b or str(a) == str(b) or (b is None and (a is None or a != a))
    return type(a) is type(b) and a == b or (isinstance(a, (int, float)) and isinstance(b, (int, float)) and not isinstance(a, bool) and not isinstance(b, bool) and a == b)


def exported(o, case, tuner, d):
    out = os.path.join(d, "out")
    tuner.export_results(save_path=out, file_name="%s.%s" % (case["fn"], case["ext"]))
    fs = sorted(os.listdir(out))
    suffix = {"csv": ".csv", "json": ".json", "dataframe": ".pkl"}[case["ext"]]
    if len(fs) != 1 or not fs[0].endswith(suffix):
        o.bad("export_results", "files", "%s" % fs)
        return
    p = os.path.join(out, fs[0])
    df = pd.read_csv(p) if case["ext"] == "csv" else pd.read_json(p) if case["ext"] == "json" else pd.read_pickle(p)
    ref = tuner.df_fit
    if len(df) != len(ref) or list(df.columns) != list(ref.columns):
        o.bad("export_results", "shape", "%s x %s" % (len(df), list(df.columns)))
        return
    for c in ref.columns:
        for x, y in zip(df[c], ref[c]):
            if c == "params":
                ok = (json.dumps(x, default=str) == json.dumps(y, default=str) or x == y or str(x) == str(y))
            else:
                ok = num_eq(float(x if x is not None else "nan"), float(y), 1e-6)
            if not ok:
                o.bad("export_results", "content", "column %s: %r exported as %r" % (c, y, x))
                return


def check(unit, case):
    if unit["kind"] == "args":
        return check_args(case)
    o = Outcome()
    if case["n_jobs"] and case["n_jobs"] > 1 and (os.cpu_count() or 1) - 1 < case["n_jobs"]:
        o.label("too-few-cores")
        return o
    d = tempfile.mkdtemp(prefix="verif_c18_")
    try:
        return check_(o, unit, case, d)
    finally:
        shutil.rmtree(d, ignore_errors=True)


def check_(o, unit, case, d):
    kind = unit["kind"]
    mm = case["minmax"]
    if case["form"] == "dict_default":
        mm = "min"
    rows = product(case["grid"])
    if kind == "real":
        opt = scripted.LoggedPSO(epoch=case["epoch0"], pop_size=case["pop0"] + 3)
        from pbt.scen import RecProblem, Recorder, FloatVar

        def prob(name):
            kw = dict(bounds=FloatVar(lb=[-3., 1.], ub=[5., 2.]), minmax=mm, name=name, log_to=None)
            f = Recorder(lambda x: float(x[0] ** 2 - x[1]))
            return dict(kw, obj_func=f) if case["form"] == "dict" else RecProblem(rec=f, **kw)
    else:
        opt = scripted.Scripted(epoch=case["epoch0"], pop_size=case["pop0"])
        opt.table = {}

        def prob(name):
            p = scripted.script_problem(name, mm, "obj" if case["form"] == "obj" else "dict")
            if case["form"] == "dict_default":
                del p["minmax"]
            return p
    base = dict(opt.get_parameters())
    tuner = Tuner(opt, {k: list(v) for k, v in case["grid"].items()})
    for rep in range(case["again"] + 1):
        ld = os.path.join(d, "log%d" % rep)
        os.mkdir(ld)
        opt.logdir = ld
        name = "prob%d" % rep
        if kind != "real":
            i = 0
            for p in rows:
                key = scripted.hexkey([p.get("a", 0), p.get("b", 0), name])
                if key not in opt.table:
                    opt.table[key] = case["table"][(i + rep) % len(case["table"])]
                    i += 1
        kw = {} if case["mode"] is None else {"mode": case["mode"]}
        tuner.execute(problem=prob(name), termination=mk_term(case), n_trials=case["n_trials"], n_jobs=case["n_jobs"], verbose=case["verbose"], **kw)
        log = scripted.read_log(ld)
        res = judge(o, case, kind, tuner, log, mm, {k: v for k, v in base.items()})
        if res is None:
            return o
        ok_params, vals = res
        if kind == "seq":
            e, lim = base["epoch"], limit(case)
            for j, r in enumerate(log):
                p = dict(base, **rows[j // case["n_trials"]])
                t = opt.table[scripted.hexkey([p["a"], p["b"], name])]
                ne = min(p["epoch"], lim)
                if len(r["curve"]) != ne or r["curve"] != scripted.curve(r["curve"][-1] - (1 if mm == "min" else -1) * (p["epoch"] - ne) * 0.25, mm, p["epoch"], ne):
                    o.bad("tuner", "run_shape", "%s generations of %s, limit %s" % (len(r["curve"]), p["epoch"], lim))
                    return o
    exported(o, case, tuner, d)
    # best_algorithm / resolve
    ld = os.path.join(d, "resolve")
    os.mkdir(ld)
    chosen = tuner.best_params
    algo = tuner.best_algorithm
    want = dict(base, **chosen)
    if any(not same_val(algo.get_parameters().get(k), v) or not same_val(getattr(algo, k), v) for k, v in want.items()):
        o.bad("best_algorithm", "params", "%s, best params are %s" % (algo.get_parameters(), chosen))
    opt.logdir = ld
    opt.set_parameters(dict(rows[0]))                       # another configuration in between
    g = tuner.resolve(mode=case["rmode"], n_workers=2 if case["rmode"] == "thread" else None, termination=mk_term(case))
    log = scripted.read_log(ld)
    if len(log) != 1:
        o.bad("resolve", "runs", "%d runs" % len(log))
    else:
        r = log[0]
        if any(not same_val(r["attrs"].get(k), v) for k, v in want.items()):
            o.bad("resolve", "params", "%s, best are %s" % (r["attrs"], chosen))
        if r["mode"] != case["rmode"] or r["term"] != scripted.term_view(mk_term(case)):
            o.bad("resolve", "settings", "mode %s termination %s" % (r["mode"], r["term"]))
        if float(g.target.fitness) != r["fitness"] or r["problem"] != "prob%d" % case["again"]:
            o.bad("resolve", "result", "%s on %s" % (g, r["problem"]))
    if kind == "fig":
        out = os.path.join(d, "figs")
        tuner.export_figures(save_path=out, file_name="conv.csv", exts=(".png",))
        df = pd.read_csv(os.path.join(out, "conv.csv"))
        if len(df) != len(tuner.df_loss) or [str(c) for c in df.columns] != [str(c) for c in tuner.df_loss.columns]:
            o.bad("export_figures", "table", "%s" % list(df.columns))
        else:
            for c1, c2 in zip(df.columns, tuner.df_loss.columns):
                if c2 in case["grid"]:
                    continue
                if any(not num_eq(float(x), float(y)) for x, y in zip(df[c1], tuner.df_loss[c2])):
                    o.bad("export_figures", "values", str(c1))
        multi = [k for k in case["grid"] if len(case["grid"][k]) > 1 and all(len(v) == 1 or kk == k for kk, v in case["grid"].items())]
        for t in range(case["n_trials"]):
            got = os.listdir(os.path.join(out, "trial%d" % t)) if os.path.isdir(os.path.join(out, "trial%d" % t)) else None
            if got is None or (multi and not got):
                o.bad("export_figures", "charts", "trial %d: %s for grid %s" % (t, got, case["grid"]))
    o.nontrivial = len(rows) >= 2 and len({x for r in vals for x in r}) >= 2
    o.label(mm, case["form"], "jobs%s" % case["n_jobs"], "mode_%s" % case["mode"], "rows%d" % min(len(rows), 9), "again%d" % case["again"])
    o.info = {"rows": len(rows), "best": str(tuner.best_params)}
    return o
