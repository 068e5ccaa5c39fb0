"""Generated solve scenarios for optimizers: strategies (JSON-able cases) and their execution with a recording objective."""
from . import boot, algos
from .engine import Reject
import hashlib, itertools, math
import numpy as np
from hypothesis import strategies as st
from mealpy import (Problem, FloatVar, IntegerVar, StringVar, BinaryVar, BoolVar, CategoricalVar, SequenceVar, PermutationVar,
                    TransferBinaryVar, TransferBoolVar)

# ------------------------------------------------------------------ variables
def make_var(s):
    t, name = s["t"], s.get("name", "v")
    if t == "float":
        return FloatVar(lb=list(s["lb"]), ub=list(s["ub"]), name=name)
    if t == "int":
        return IntegerVar(lb=list(s["lb"]), ub=list(s["ub"]), name=name)
    if t == "bool":
        return BoolVar(n_vars=s["n"], name=name)
    if t == "bin":
        return BinaryVar(n_vars=s["n"], name=name)
    if t == "perm":
        return PermutationVar(valid_set=tuple(range(s["n"])), name=name)
    if t == "str":
        return StringVar(valid_sets=[["s%d" % i for i in range(k)] for k in s["k"]], name=name)
    if t == "cat":
        return CategoricalVar(valid_sets=[[None, 1, "a", 2.5, "b", 7][:k] for k in s["k"]], name=name)
    if t == "seq":
        return SequenceVar(valid_sets=((1,), (2, 3), (4, 5, 6), (7, 8))[:s["k"]], name=name)
    if t == "tbin":
        return TransferBinaryVar(n_vars=s["n"], tf_func=s["tf"], lb=-6., ub=6., all_zeros=s["az"], name=name)
    if t == "tbool":
        return TransferBoolVar(n_vars=s["n"], tf_func=s["tf"], name=name)
    raise ValueError(t)


def var_size(s):
    t = s["t"]
    if t in ("float", "int"):
        return len(s["lb"])
    if t in ("str", "cat"):
        return len(s["k"])
    return 1 if t == "seq" else s["n"]


@st.composite
def float_box(draw, dmin=1, dmax=6, exotic=True):
    kind = draw(st.sampled_from(["sym", "asym", "shift", "asym", "neg", "tiny", "huge", "deg", "int"] if exotic else ["sym", "asym", "shift", "neg"]))
    n = draw(st.integers(dmin, dmax))
    lb, ub = [], []
    for i in range(n):
        k = draw(st.integers(1, 40))
        a = draw(st.integers(0, 20))
        if kind == "sym":
            l, u = -k / 2., k / 2.
        elif kind == "asym":
            l, u = -a * 1.0, float(k)
        elif kind == "shift":
            l, u = 50. + a, 50. + a + k / 4.
        elif kind == "neg":
            l, u = -100. - a, -100. - a + k / 2.
        elif kind == "tiny":
            l, u = a / 10., a / 10. + k * 1e-4
        elif kind == "huge":
            l, u = -1e5 * k, 1e5 * (a + 1)
        elif kind == "deg":
            l, u = (-a * 1.0, float(k)) if i % 2 == 0 else (float(a), float(a))
        else:
            l, u = -a, k
        lb.append(l)
        ub.append(u)
    return {"t": "float", "lb": lb, "ub": ub, "name": "x"}


TFS = ["vstf_01", "vstf_02", "vstf_03", "vstf_04", "sstf_01", "sstf_02", "sstf_03", "sstf_04"]


@st.composite
def one_var(draw, name, types):
    t = draw(st.sampled_from(types))
    if t == "float":
        v = draw(float_box(1, 3))
    elif t == "int":
        n = draw(st.integers(1, 3))
        lb = [draw(st.integers(-9, 5)) for _ in range(n)]
        v = {"t": "int", "lb": lb, "ub": [l + draw(st.integers(1, 9)) for l in lb]}
    elif t in ("bool", "bin"):
        v = {"t": t, "n": draw(st.integers(1, 4))}
    elif t == "perm":
        v = {"t": t, "n": draw(st.integers(2, 5))}
    elif t in ("str", "cat"):
        v = {"t": t, "k": draw(st.lists(st.integers(2, 4), min_size=1, max_size=3))}
    elif t == "seq":
        v = {"t": t, "k": draw(st.integers(1, 4))}
    elif t == "tbin":
        v = {"t": t, "n": draw(st.integers(1, 4)), "tf": draw(st.sampled_from(TFS)), "az": draw(st.booleans())}
    else:
        v = {"t": "tbool", "n": draw(st.integers(1, 4)), "tf": draw(st.sampled_from(TFS))}
    v["name"] = name
    return v


ALLTYPES = ["float", "int", "bool", "bin", "perm", "str", "cat", "seq", "tbin", "tbool"]
DETTYPES = ["float", "int", "bool", "bin", "perm", "str", "cat", "seq"]     # correction is a pure function


@st.composite
def mixed_vars(draw, types=DETTYPES, nmin=1, nmax=3):
    k = draw(st.integers(nmin, nmax))
    return [draw(one_var("v%d" % i, types)) for i in range(k)]


def bounds_strategy(types=DETTYPES, exotic=True, dmax=6, dmin=1):
    box = float_box(dmin, dmax, exotic).map(lambda v: [v])
    if dmin < dmax:
        wide = float_box(7, 20, exotic).map(lambda v: [v])
        return st.one_of(box, box, box, box, box, wide, mixed_vars(types), mixed_vars(types), mixed_vars(types))
    return st.one_of(box, box, mixed_vars(types))


# ------------------------------------------------------------------ objectives (functions of u = position scaled to [0,1])
BASE = ["sphere", "linear", "rastrigin", "noise", "step", "plateau", "const", "ridge", "corner"]


@st.composite
def objective(draw, multi=True, kinds=BASE, scales=(1.0, 1.0, 1.0, -1.0, 1e-9, 1e7), offs=(0.0, 0.0, -50.0, 1000.0)):
    n = draw(st.sampled_from([1, 1, 1, 2, 3])) if multi else 1
    parts = [{"k": draw(st.sampled_from(kinds)), "c": draw(st.integers(0, 10)) / 10., "s": draw(st.sampled_from(list(scales))), "o": draw(st.sampled_from(list(offs)))} for _ in range(n)]
    o = {"parts": parts}
    if n > 1:
        o["w"] = draw(st.one_of(st.none(), st.lists(st.sampled_from([0.0, 0.5, 1.0, 2.0, -1.0]), min_size=n, max_size=n)))
        o["ret"] = draw(st.sampled_from(["list", "tuple", "array"]))
    else:
        o["ret"] = draw(st.sampled_from(["float", "np", "list1"]))
    return o


def base_value(p, u):
    k, c = p["k"], p["c"]
    if k == "sphere":
        v = float(np.sum((u - c) ** 2))
    elif k == "linear":
        v = float(np.sum(u * (1 if c > 0.3 else -1)))
    elif k == "rastrigin":
        z = 6 * (u - c)
        v = float(np.sum(z * z - 3 * np.cos(2 * np.pi * z) + 3))
    elif k == "noise":
        h = hashlib.blake2b(np.round(u, 9).tobytes() + str(c).encode(), digest_size=7).digest()
        v = int.from_bytes(h, "big") / 2.0 ** 56
    elif k == "step":
        v = float(np.sum(np.floor(4 * u)))
    elif k == "plateau":
        v = max(0.0, float(np.sum((u - c) ** 2)) - 0.3 * len(u))
    elif k == "const":
        v = 1.0 if c > 0.5 else 0.0
    elif k == "ridge":
        v = float(np.sum(np.abs(u - u.mean()))) + abs(float(u[0]) - c)
    elif k == "corner":
        v = float(np.prod(1.0 + u)) + float(np.max(u))
    else:
        raise ValueError(k)
    return p["s"] * v + p["o"]


class Obj:
    """The user's objective: a deterministic function of the position."""

    def __init__(self, spec, lb, ub):
        self.spec = spec
        self.lb = np.array(lb, dtype=float)
        w = np.array(ub, dtype=float) - self.lb
        self.w = np.where(w > 0, w, 1.0)

    def __call__(self, x):
        u = (np.asarray(x, dtype=float) - self.lb) / self.w
        vals = [base_value(p, u) for p in self.spec["parts"]]
        r = self.spec["ret"]
        if r == "float":
            return vals[0]
        if r == "np":
            return np.float64(vals[0])
        if r == "list1":
            return [vals[0]]
        return vals if r == "list" else tuple(vals) if r == "tuple" else np.array(vals)

    def raw(self, x):
        return np.array(self(x), dtype=float).ravel()

    def fitness(self, x):
        """Independent reference: weighted sum, all-one weights by default."""
        w = self.spec.get("w")
        v = self.raw(x)
        w = np.ones(len(v)) if w is None else np.asarray(w, dtype=float)
        return float(sum(a * b for a, b in zip(w, v)))


class TooMany(Exception):
    """The objective was called more often than any terminating run of this size plausibly needs."""


class InjectedFailure(RuntimeError):
    pass


SHARED = None        # cross-process evaluation counter (inherited by forked workers); set by the check that uses it


class Recorder:
    shared = False

    def __init__(self, fn, limit=None):
        self.fn, self.calls, self.raw_x, self.limit, self.fail_at, self.exc = fn, [], [], limit, None, None
        self.hook = None
        self.keep = True
        self.count = 0

    def __call__(self, x):
        self.count += 1
        if self.shared and SHARED is not None:
            with SHARED.get_lock():
                SHARED.value += 1
        if self.fail_at is not None and self.count == self.fail_at:
            raise self.exc
        if self.limit is not None and self.count > self.limit:
            raise TooMany("more than %d evaluations" % self.limit)
        v = self.fn(x)
        if self.keep:
            self.calls.append((np.array(x, dtype=float, copy=True) if not isinstance(x, np.ndarray) or x.dtype != float else x.copy(), v))
            if len(self.raw_x) < 3:
                self.raw_x.append(type(x).__name__)
        if self.hook:
            self.hook(x, v)
        return v


class RecProblem(Problem):
    def __init__(self, bounds, minmax, rec, **kw):
        self.rec = rec
        super().__init__(bounds, minmax, **kw)

    def obj_func(self, x):
        return self.rec(x)


def make_problem(case, rec_limit=None, save_population=True, **kw):
    """-> (problem object or dict, recorder, lb, ub). The box is derived from a throw-away Problem of the same bounds."""
    vs = [make_var(s) for s in case["bounds"]]
    probe = Problem([make_var(s) for s in case["bounds"]], log_to=None)
    lb, ub = probe.lb.copy(), probe.ub.copy()
    obj = Obj(case["obj"], lb, ub)
    rec = Recorder(obj, rec_limit)
    kw.setdefault("log_to", None)
    kw["save_population"] = save_population
    if case["obj"].get("w") is not None:
        kw["obj_weights"] = list(case["obj"]["w"])
    b = vs[0] if len(vs) == 1 and case.get("single_var", True) else vs
    if case.get("as_dict"):
        prob = dict(bounds=b, minmax=case["minmax"], obj_func=rec, **kw)
    else:
        prob = RecProblem(b, case["minmax"], rec, **kw)
    return prob, rec, lb, ub


# ------------------------------------------------------------------ optimizers
@st.composite
def tuned_params(draw, name, strength=2):
    """{} (defaults), a few parameters moved near their default, or parameters anywhere in their declared range"""
    how = draw(st.integers(0, 5))
    if how <= 1:
        return {}
    specs = [s for s in algos.param_specs(name).values() if s.name not in ("epoch", "pop_size")]
    opts = algos.optional_specs(name)
    if not specs and not opts:
        return {}
    out = {}
    if specs:
        for s in draw(st.lists(st.sampled_from(specs), min_size=0 if opts else 1, max_size=strength if how < 5 else 5, unique_by=lambda s: s.name)):
            v = draw(param_value(s) if how <= 3 else wide_value(s))
            if v is not None:
                out[s.name] = v
    if opts and draw(st.booleans()):
        for o in opts:
            if draw(st.booleans()):
                out[o.name] = draw(wide_value(o))
        if "mutation" in out and "mutation" in [o.name for o in opts]:
            multi = out.get("mutation_multipoints", True)
            if multi and out["mutation"] not in ("flip", "swap"):
                out["mutation_multipoints"] = False       # documented: these two are one-point mutations
    return drop_contradictions(name, out)


def drop_contradictions(name, out):
    """a lower parameter above its upper twin (pr_min > pr_max, fx_min > fx_max, ...) is a misuse, not a parameterisation"""
    vals = {k: s.default for k, s in algos.param_specs(name).items()}
    vals.update(out)
    for k in list(vals):
        for lo, hi in (("min", "max"), ("_l", "_u"), ("low", "high")):
            if lo in k:
                j = k.replace(lo, hi)
                if j in vals and j != k and isinstance(vals[k], (int, float)) and isinstance(vals[j], (int, float)) and vals[k] > vals[j]:
                    for q in (k, j):
                        out.pop(q, None)
                        vals[q] = algos.param_specs(name)[q].default
    return out


def _inner(bound, d, integer):
    lo, hi = bound
    opened = type(bound) is tuple
    lo = float(lo)
    hi = float(hi)
    span_lo = d - max(2.0, abs(d)) if lo == -math.inf else lo
    span_hi = d + max(2.0, abs(d)) if hi == math.inf else hi
    L = max(span_lo, d - max(abs(d), 2 if integer else 1.0))
    H = min(span_hi, d + max(abs(d), 2 if integer else 1.0))
    if integer:
        L = math.floor(L) + 1 if (opened and math.floor(L) == L and L == lo) else math.ceil(L)
        H = math.ceil(H) - 1 if (opened and math.ceil(H) == H and H == hi) else math.floor(H)
    return L, H, opened and L == lo, opened and H == hi


def param_value(s):
    d, b = s.default, s.bound
    if s.kind == "check_int":
        if b is None:
            return st.none()
        L, H, _, _ = _inner(b, d, True)
        return st.integers(int(L), int(H)) if L <= H else st.none()
    if s.kind == "check_float":
        if b is None:
            return st.none()
        L, H, ol, oh = _inner(b, d, False)
        if not L < H:
            return st.none()
        ks = st.integers(1 if ol else 0, 15 if oh else 16)
        return ks.map(lambda k: L + (H - L) * k / 16.)
    if s.kind == "check_str":
        return st.sampled_from(list(b)) if b else st.none()
    if s.kind == "check_bool":
        return st.booleans()
    if s.kind == "check_is_int_and_float":
        return st.sampled_from([1, 2, 0.1, 0.3])
    return st.none()


WORK = ("e_loss", "pp")      # the work grows as 1 / value (algae energy steps, sardines per sailfish): a value of 1e-6 is a million times slower, by design


def wide_value(s):
    """anywhere in the declared range, its two ends included; an end that only costs time is brought down"""
    d, b = s.default, s.bound
    if b is None or s.kind not in ("check_int", "check_float"):
        return param_value(s)
    opened = type(b) is tuple
    lo, hi = float(b[0]), float(b[1])
    if s.kind == "check_int":
        if lo == -math.inf:
            lo, opened_lo = d - 20, False
        else:
            opened_lo = opened
        cap = max(60., 2. * abs(d), lo + 20)
        opened_hi = opened and hi <= cap
        hi = min(hi, cap)
        L = math.floor(lo) + 1 if opened_lo else math.ceil(lo)
        H = math.ceil(hi) - 1 if opened_hi else math.floor(hi)
        if not L <= H:
            return st.none()
        return st.one_of(st.integers(L, min(H, L + 1)), st.integers(L, min(H, L + 8)), st.integers(L, H), st.integers(max(L, H - 2), H))
    big = max(10., 4. * abs(d))
    L = max(lo, -big)
    H = min(hi, max(big, L + 1.))
    if not L < H:
        return param_value(s)
    ol, oh = opened and L == lo, opened and H == hi
    near = 1. / 64 if s.name in WORK else 1e-6
    ends = ([L + (H - L) * near] if ol else [L]) + ([H - (H - L) * near] if oh else [H])
    return st.one_of(st.sampled_from(ends), st.integers(1, 63).map(lambda k: L + (H - L) * k / 64.))


@st.composite
def scenario(draw, name, bounds=None, obj=None, params=True, modes=("single", "swarm"), epochs=(1, 9), pops=(0, 14), dicts=True, minmaxes=("min", "max"), tail=True):
    mp = algos.min_pop(name)
    epoch, pop = draw(st.integers(*epochs)), mp + draw(st.integers(*pops))
    t = draw(st.integers(0, 23)) if tail else 0
    if t == 22 and epochs[1] > 1:          # a long run
        epoch += draw(st.integers(10, 50))
    elif t == 23 and pops[1] > 0:          # a large population
        epoch, pop = max(epochs[0], min(epoch, 4)), mp + draw(st.integers(15, 70))
    c = {"algo": name,
         "epoch": epoch,
         "pop": pop,
         "params": draw(tuned_params(name)) if params else {},
         "bounds": draw(bounds if bounds is not None else bounds_strategy()),
         "obj": draw(obj if obj is not None else objective()),
         "minmax": draw(st.sampled_from(list(minmaxes))),
         "mode": draw(st.sampled_from(list(modes))),
         "seed": draw(st.integers(0, 2 ** 32 - 1))}
    if dicts:
        c["as_dict"] = draw(st.booleans())
    return c


def build(case, **kw):
    cls = algos.all_classes()[case["algo"]]
    args = dict(algos.fitted(case["algo"], case["epoch"], case["pop"]) or {}, epoch=case["epoch"], pop_size=case["pop"])
    args.update(case.get("params", {}))
    args.update(kw)
    try:
        return cls(**args)
    except ValueError as e:
        raise Reject(str(e))


def call_limit(case):
    p = case.get("params", {})
    per = max(400, 2 * p.get("Nc", 1) * (p.get("Ns", 1) + 1))      # BFO: chemotactic steps x swim length
    return 4000 + per * (case["epoch"] + 1) * (case["pop"] + 5)


def crash_site(e):
    import traceback, os
    root = os.path.realpath(boot.REPO)
    for fr in reversed(traceback.extract_tb(e.__traceback__)):
        if os.path.realpath(fr.filename).startswith(root):
            return "%s:%s:%s" % (os.path.basename(fr.filename), fr.lineno, fr.name)
    return "?"


class Run:
    """One executed solve: everything the oracles look at."""

    def __init__(self, case, save_population=True, opt=None, problem=None, start=None, hooks=None, **solve_kw):
        self.case = case
        if problem is None:
            self.problem, self.rec, self.lb, self.ub = make_problem(case, call_limit(case), save_population)
        else:
            self.problem, self.rec, self.lb, self.ub = problem
        self.obj = self.rec.fn
        self.opt = opt if opt is not None else build(case)
        self.error = None
        self.best = None
        kw = dict(mode=case.get("mode", "single"), seed=case.get("seed"))
        if start is not None:
            kw["starting_solutions"] = start
        kw.update(solve_kw)
        n0 = len(self.rec.calls)
        try:
            self.best = self.opt.solve(self.problem, **kw)
        except Exception as e:
            self.error = e
            self.where = crash_site(e)
        self.calls = self.rec.calls[n0:]

    def sig(self):
        return "%s@%s" % (type(self.error).__name__, self.where) if self.error is not None else None


def n_dims(case):
    return sum(var_size(s) for s in case["bounds"])


def same(a, b):
    """Exact equality, NaN equal to NaN."""
    a, b = np.asarray(a, dtype=float), np.asarray(b, dtype=float)
    return a.shape == b.shape and bool(np.all((a == b) | (np.isnan(a) & np.isnan(b))))


def close(a, b, rel=1e-9):
    a, b = np.asarray(a, dtype=float), np.asarray(b, dtype=float)
    if a.shape != b.shape:
        return False
    return bool(np.all((a == b) | (np.isnan(a) & np.isnan(b)) | (np.abs(a - b) <= rel * np.maximum(1.0, np.maximum(np.abs(a), np.abs(b))))))


def algo_units(n, names=None):
    return [{"name": a, "n": n} for a in (names or algos.all_classes())]
