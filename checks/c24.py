"""C24: charts show exactly the recorded history."""
from pbt import boot, scen, algos  # noqa
from pbt.engine import Outcome
from hypothesis import strategies as st
from mealpy.utils.history import History
from mealpy.utils.agent import Agent
from mealpy.utils.target import Target
import contextlib, copy, os, shutil, tempfile
import matplotlib
matplotlib.use("Agg")
import matplotlib.figure
from matplotlib import pyplot as plt
import math
import numpy as np
PID = "C24"
RULE = ("generated histories (synthetic series of any length and sign, 1-12 objectives, populations of 1-12 agents in 1-5 dimensions; and histories of real solves) x chart-saving method x file name (plain, nested "
        "folders, special characters) x formats x selected agents and dimensions (valid, repeated, out of range, too many, none), each preceded by a generated plotting state (open user figure, a chart that failed before); oracle: the "
        "lines present in the figure when it is saved, compared with the recorded series by value and order, the files requested, ValueError for selections outside the range, and a deep snapshot of the history; "
        "non-trivial = at least 2 generations plotted, or an invalid selection judged")
ASSUMPTIONS = ["savefig is replaced by a recorder that notes the drawn lines and creates an empty file (about one case in sixteen really renders)"]
SERIES = {"global_best_fitness": ["list_global_best_fit"], "local_best_fitness": ["list_current_best_fit"], "runtime": ["list_epoch_time"],
          "exploration_exploitation": ["list_exploration", "list_exploitation"], "diversity": ["list_diversity"]}
KINDS = list(SERIES) + ["global_objectives", "local_objectives", "trajectory", "trajectory"]
INVALID = ["agent_high", "agent_zero", "agent_neg", "dim_high", "dim_zero", "dim_neg", "three_dims", "no_dims", "no_agents", "many_agents", "no_population", "one_population"]
HAS_EXTS = {"global_best_fitness", "local_best_fitness", "runtime"}


def units(tier):
    n = 60 if tier == "quick" else 1500
    return [{"name": "synthetic-%s" % k, "kind": k, "n": n} for k in dict.fromkeys(KINDS)] + \
           [{"name": "select", "kind": "trajectory", "n": n}, {"name": "invalid", "kind": "trajectory", "n": 4 * n}] + \
           [{"name": "solve%d" % i, "kind": None, "n": n // 3} for i in range(4)]


val = st.one_of(st.floats(-1e6, 1e6, allow_nan=False), st.integers(-50, 50), st.sampled_from([0.0, 1e-9, 1e12, -3.5]))
NAMES = ["chart", "my-chart_1", "a/b/chart", "sub/x", "we!rd@na#me", "fig.v1", "d1/a+b", "spaced name", "d:x/f*g"]


@st.composite
def strategy_(draw, unit):
    kind = unit["kind"] or draw(st.sampled_from(KINDS))
    c = {"kind": kind, "file": draw(st.sampled_from(NAMES)), "abs": draw(st.booleans()), "exts": draw(st.sampled_from([None, None, [".png"], [".pdf", ".svg"], [".png", ".pdf", ".svg"]])),
         "render": draw(st.integers(0, 15)) == 15, "open": draw(st.sampled_from(["no", "no", "user", "failed"])), "verbose": draw(st.booleans())}
    if unit["name"].startswith("solve"):
        c["scen"] = draw(scen.scenario(draw(st.sampled_from(list(algos.all_classes()))),
                                       epochs=(2, 8), tail=False))
        npop, nd = c["scen"]["pop"], scen.n_dims(c["scen"])
    else:
        c["gens"] = draw(st.integers(2 if kind == "trajectory" else 1, 12))
        npop, nd = draw(st.integers(1, 12)), draw(st.integers(1, 5))
        if unit["name"] == "invalid":
            c["invalid"] = draw(st.sampled_from(INVALID))
            npop, nd = npop + 10 * (c["invalid"] == "many_agents"), nd + 2 * (c["invalid"] == "three_dims")
        c["npop"], c["nd"] = npop, nd
        c["nobj"] = draw(st.sampled_from([1, 1, 2, 3, 5, 12]))
        c["vals"] = [draw(val) for _ in range(c["gens"])]
        c["seed"] = draw(st.integers(0, 10 ** 6))
    if kind == "trajectory":
        c["agents"] = draw(st.one_of(st.lists(st.integers(1, npop), min_size=1, max_size=10), st.lists(st.integers(1, npop), min_size=1, max_size=10), st.just(list(range(1, min(npop, 10) + 1)))))
        if "vals" in c and "invalid" not in c:
            c["lost"] = draw(st.lists(st.sampled_from([0, 0, 1, 2, 5, 9]), min_size=c["gens"] - 1, max_size=c["gens"] - 1)) if draw(st.booleans()) else []
        c["dims"] = draw(st.lists(st.integers(1, nd), min_size=1, max_size=4))
        c["dims"] = [d for d in c["dims"] if d in sorted(set(c["dims"]))[:2]]
        c["container"] = draw(st.sampled_from(["list", "tuple", "set", "array"]))
    return c


def strategy(unit):
    return strategy_(unit)


def synth(c):
    rng = np.random.default_rng(c["seed"])
    h = History(log_to=None, log_file=None)
    n = c["gens"]

    def agent():
        v = np.round(rng.normal(0, 10, c["nobj"]), 3)
        a = Agent(np.round(rng.uniform(-50, 50, c["nd"]), 4), Target(v.tolist(), np.ones(c["nobj"]).tolist()))
        return a
    for k in ("list_global_best_fit", "list_current_best_fit", "list_epoch_time", "list_diversity", "list_exploration", "list_exploitation"):
        setattr(h, k, [float(v) for v in rng.permutation(c["vals"])] if k != "list_global_best_fit" else list(c["vals"]))
    for k in ("list_global_best", "list_current_best", "list_global_worst", "list_current_worst"):
        setattr(h, k, [agent() for _ in range(n)])
    h.list_population = [[agent() for _ in range(c["npop"])] for _ in range(n)]
    for i, k in enumerate(c.get("lost") or []):           # populations that shrink or vary in size
        h.list_population[i + 1] = h.list_population[i + 1][:max(1, c["npop"] - k)]
    h.epoch = n
    return h


LISTS = ("list_global_best_fit", "list_current_best_fit", "list_epoch_time", "list_diversity", "list_exploration", "list_exploitation")


def snap(h):
    ag = lambda a: (tuple(np.asarray(a.solution, float).tolist()), tuple(np.asarray(a.target.objectives, float).tolist()), float(a.target.fitness))
    return ([list(map(float, getattr(h, k))) for k in LISTS], [[ag(a) for a in getattr(h, k)] for k in ("list_global_best", "list_current_best", "list_global_worst", "list_current_worst")],
            [[ag(a) for a in p] for p in h.list_population], sorted(k for k in vars(h)))


def cleaned(name):
    return "".join(ch for ch in name.encode("ascii", "ignore").decode() if ch not in "`~!@#$%^&*:,<>;+|")


def lines_of(fig):
    out = []
    for ax in fig.axes:
        for l in ax.get_lines():
            out.append((np.asarray(l.get_xdata(orig=True), float).tolist(), np.asarray(l.get_ydata(orig=True), float).tolist(), l.get_label(), ax.get_xlabel(), ax.get_ylabel(), ax.get_title() or (fig._suptitle.get_text() if fig._suptitle else "")))
    return out


def check(unit, case):
    o = Outcome()
    kind = case["kind"]
    if "scen" in case:
        r = scen.Run(case["scen"])
        if r.error is not None:
            o.label("error:" + type(r.error).__name__)
            return o
        h = r.opt.history
        if kind == "trajectory" and len({len(p) for p in h.list_population}) > 1:
            o.label("varying-population")
            return o
    else:
        h = synth(case)
    site = "save_%s_chart" % kind
    fn = getattr(h, site)
    inv = case.get("invalid")
    kw = {"verbose": case["verbose"]}
    if kind == "trajectory":
        npop, nd = len(h.list_population[0]), len(h.list_population[0][0].solution)
        ags, dims = list(case["agents"]), list(case["dims"])
        if inv == "agent_high":
            ags.append(npop + 1)
        elif inv == "agent_zero":
            ags.append(0)
        elif inv == "agent_neg":
            ags.append(-1)
        elif inv in ("dim_high", "dim_zero", "dim_neg"):
            dims = dims[:1] + [{"dim_high": nd + 1, "dim_zero": 0, "dim_neg": -1}[inv]]
        elif inv == "three_dims":
            dims = [1, 2, 3]
        elif inv == "no_dims":
            dims = []
        elif inv == "no_agents":
            ags = []
        elif inv == "many_agents":
            ags = list(range(1, 12))
        elif inv == "no_population":
            h.list_population = []
        elif inv == "one_population":
            h.list_population = h.list_population[:1]
        mk = {"list": list, "tuple": tuple, "set": set, "array": np.array}[case["container"]]
        kw["list_agent_idx"], kw["selected_dimensions"] = mk(ags), mk(dims)
    exts = [".png", ".pdf"]
    if kind in HAS_EXTS and case["exts"]:
        exts = case["exts"]
        kw["exts"] = tuple(exts)
    tmp = tempfile.mkdtemp(prefix="verifc24")
    old = os.getcwd()
    saved = []
    real = matplotlib.figure.Figure.savefig

    def stub(fig, fname, *a, **k):
        saved.append((os.path.abspath(str(fname)), lines_of(fig)))
        if case["render"]:
            return real(fig, fname, *a, **k)
        open(fname, "wb").close()
    plt.close("all")
    show = plt.show
    try:
        os.chdir(tmp)
        matplotlib.figure.Figure.savefig = stub
        plt.show = lambda *a, **k: None
        user = None
        if case["open"] == "user":
            user = plt.figure()
            plt.plot([0, 1], [77., 78.], label="mine")
        elif case["open"] == "failed":
            def boom(*a, **k):
                raise OSError("disk full")
            matplotlib.figure.Figure.savefig = boom
            with contextlib.suppress(Exception):
                h.save_runtime_chart(filename="other", verbose=False)
            matplotlib.figure.Figure.savefig = stub
        before = snap(h)
        name = os.path.join(tmp, case["file"]) if case["abs"] else case["file"]
        kw["filename"] = name
        err = None
        try:
            fn(**kw)
        except Exception as e:
            err = e
        if snap(h) != before:
            o.bad(site, "history_changed")
        if user is not None and lines_of(user) != [([0., 1.], [77., 78.], "mine", "", "", "")]:
            o.bad(site, "user_figure_changed", lines_of(user))
        if inv:
            o.nontrivial = True
            o.label("invalid:" + inv)
            if err is None:
                o.bad(site, "invalid_selection_accepted", "%s agents=%s dims=%s npop=%d nd=%d" % (inv, kw["list_agent_idx"], kw["selected_dimensions"], npop, nd))
            elif saved:
                o.bad(site, "chart_written_for_invalid_selection", inv)
            return o
        if err is not None:
            o.bad(site, "raises_%s" % type(err).__name__, err)
            return o
        # ---- files
        want = [os.path.abspath(cleaned(name) + e) for e in exts]
        if sorted(p for p, _ in saved) != sorted(want):
            o.bad(site, "files", "%s instead of %s" % ([p for p, _ in saved], want))
        for p in want:
            if not os.path.isfile(p):
                o.bad(site, "file_missing", p)
            elif case["render"] and os.path.getsize(p) == 0:
                o.bad(site, "file_empty", p)
        # ---- content
        if kind in SERIES:
            ser = [list(map(float, getattr(h, k))) for k in SERIES[kind]]
            exp = [(list(map(float, range(len(s)))), s) for s in ser]
        elif kind.endswith("_objectives"):
            src = h.list_global_best if kind.startswith("global") else h.list_current_best
            m = np.array([np.asarray(a.target.objectives, float) for a in src])
            exp = [(list(map(float, range(len(src)))), m[:, i].tolist()) for i in range(m.shape[1])]
        else:
            A, D = sorted(set(ags)), sorted(set(dims))
            get = lambda a, d: [float(p[a - 1].solution[d - 1]) if a <= len(p) else math.nan for p in h.list_population]
            exp = [(list(map(float, range(len(h.list_population)))), get(a, D[0])) if len(D) == 1 else (get(a, D[0]), get(a, D[1])) for a in A]
        for p, ls in saved:
            got = [(x, y) for x, y, *_ in ls]
            if len(got) != len(exp):
                o.bad(site, "number_of_lines", "%d drawn, %d expected" % (len(got), len(exp)))
                break
            if repr(got) != repr(exp):
                i = next(i for i in range(len(exp)) if repr(got[i]) != repr(exp[i]))
                o.bad(site, "plotted_values", "line %d: %s instead of %s" % (i, str(got[i])[:200], str(exp[i])[:200]))
                break
            if kind == "trajectory":
                lab = [l[2] for l in ls]
                if lab != ["Agent %d" % a for a in A]:
                    o.bad(site, "legend", "%s for agents %s" % (lab, A))
                if ls and ((len(D) == 1 and ls[0][4] != "x%d" % D[0]) or (len(D) == 2 and (ls[0][3], ls[0][4]) != ("x%d" % D[0], "x%d" % D[1]))):
                    o.bad(site, "axis_labels", "%s for dimensions %s" % (ls[0][3:5], D))
            if kind == "exploration_exploitation" and [("explor" in l[2].lower(), "exploit" in l[2].lower()) for l in ls] != [(True, False), (False, True)]:
                o.bad(site, "legend", [l[2] for l in ls])
        if exp and len(exp[0][0]) >= 2:
            o.nontrivial = True
        o.label(kind)
        return o
    finally:
        matplotlib.figure.Figure.savefig = real
        plt.show = show
        plt.close("all")
        os.chdir(old)
        shutil.rmtree(tmp, ignore_errors=True)
