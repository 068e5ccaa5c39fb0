"""C14: random selection helpers only return admissible choices, for the right direction."""
from pbt import boot, scen
from pbt.engine import Outcome
from hypothesis import strategies as st
from mealpy.optimizer import Optimizer
from mealpy.utils.agent import Agent
from mealpy.utils.target import Target
from mealpy import FloatVar, Problem
import math
import numpy as np
PID = "C14"
RULE = ("generated population sizes, exclusions, sample counts, fitness vectors, tournament sizes, Levy parameters, parents and boxes, each helper called repeatedly from a seeded generator; oracles: admissible sets, "
        "distinctness, counts, coverage of all admissible indices, direction-aware pressure of roulette and tournament (tournament of everybody = exact ranking), scaling law and shape of Levy steps, convexity of "
        "crossover, feasibility and segment of opposition, copies of groups; non-trivial = more than one admissible outcome")

ffit = st.one_of(st.integers(-4, 4).map(float), st.floats(-1e6, 1e6), st.integers(0, 9).map(float), st.sampled_from([0.0, 1e9, -1e9, 1e-9]))


def units(tier):
    n = 500 if tier == "quick" else 8000
    return [{"name": x, "n": n} for x in ("exclude_one", "exclude_list", "roulette", "tournament", "levy", "crossover", "opposition", "groups")]


@st.composite
def ex_one(draw):
    n = draw(st.integers(2, 12))
    rep = draw(st.booleans())
    return {"n": n, "ex": draw(st.integers(0, n - 1)), "k": draw(st.integers(1, n + 3 if rep else n - 1)), "rep": rep}


@st.composite
def ex_list(draw):
    n = draw(st.integers(2, 12))
    ex = draw(st.lists(st.integers(0, n - 1), min_size=0, max_size=n - 1))
    free = n - len(set(ex))
    rep = draw(st.booleans())
    return {"n": n, "ex": ex, "exform": draw(st.sampled_from(["list", "array"])), "k": draw(st.integers(1, n + 3 if rep else free)), "rep": rep}


@st.composite
def box(draw):
    b = draw(scen.float_box(1, 5))
    d = len(b["lb"])
    u = st.lists(st.integers(0, 16), min_size=d, max_size=d)
    return {"b": b, "x": draw(u), "g": draw(u)}


S = {"exclude_one": ex_one(), "exclude_list": ex_list(),
     "roulette": st.fixed_dictionaries({"fits": st.lists(ffit, min_size=1, max_size=10), "form": st.sampled_from(["list", "tuple", "array", "column"])}),
     "tournament": st.fixed_dictionaries({"fits": st.lists(ffit, min_size=2, max_size=12), "k": st.one_of(st.integers(1, 12), st.sampled_from([0.1, 0.2, 0.3, 0.5, 0.75, 0.99])), "all": st.booleans(), "out": st.integers(1, 4), "rev": st.booleans()}),
     "levy": st.fixed_dictionaries({"beta": st.sampled_from([0.3, 0.5, 1.0, 1.2, 1.5, 1.9, 2.0]), "mult": st.sampled_from([0.001, 0.01, 1.0, 5.0, -2.0]), "size": st.one_of(st.none(), st.integers(1, 9), st.tuples(st.integers(1, 4)), st.tuples(st.integers(1, 3), st.integers(1, 3))), "case": st.sampled_from([0, 1, -1])}),
     "crossover": st.integers(1, 6).flatmap(lambda d: st.fixed_dictionaries({"dad": st.lists(st.floats(-1e6, 1e6), min_size=d, max_size=d), "mom": st.lists(st.floats(-1e6, 1e6), min_size=d, max_size=d), "form": st.sampled_from(["list", "array"])})),
     "opposition": box(),
     "groups": st.fixed_dictionaries({"n": st.integers(1, 12), "g": st.integers(1, 5), "m": st.integers(1, 5)})}


def strategy(unit):
    return st.fixed_dictionaries({"a": S[unit["name"]], "minmax": st.sampled_from(["min", "max"]), "seed": st.integers(0, 2 ** 31)})


def opt_for(case, lb=(-1., -1.), ub=(1., 1.)):
    o = Optimizer()
    o.problem = Problem([FloatVar(lb=list(lb), ub=list(ub))], case["minmax"], log_to=None)
    o.generator = np.random.default_rng(case["seed"])
    return o


def check(unit, case):
    o = Outcome()
    a, mm = case["a"], case["minmax"]
    site = unit["name"]
    g = np.random.default_rng(case["seed"])
    o.label(mm)
    better = (lambda x, y: x > y) if mm == "max" else (lambda x, y: x < y)
    if site in ("exclude_one", "exclude_list"):
        n, k, rep = a["n"], a["k"], a["rep"]
        ex = {a["ex"]} if site == "exclude_one" else set(a["ex"])
        free = set(range(n)) - ex
        seen = set()
        reps = 300 if n <= 6 else 40
        for _ in range(reps):
            if site == "exclude_one":
                r = Optimizer.sample_indexes_exclude_one(g, n, a["ex"], k, replace=rep)
            else:
                r = Optimizer.sample_indexes_exclude_list(g, n, list(a["ex"]) if a["exform"] == "list" else np.array(a["ex"], dtype=int), k, replace=rep)
            if k == 1:
                if np.ndim(r) != 0:
                    o.bad(site, "shape", "one sample requested, got %r" % (r,))
                    return o
                r = [r]
            r = [int(i) for i in r]
            if len(r) != k:
                o.bad(site, "count", "%d requested, got %s" % (k, r))
                return o
            if not set(r) <= free:
                o.bad(site, "inadmissible", "%s from %d without %s" % (r, n, sorted(ex)))
                return o
            if not rep and len(set(r)) != k:
                o.bad(site, "duplicate", "%s" % r)
                return o
            seen |= set(r)
        if reps == 300 and seen != free:
            o.bad(site, "unreachable", "of %s only %s was ever returned" % (sorted(free), sorted(seen)))
        o.nontrivial = len(free) > 1
        o.info = {"free": len(free), "k": k}
        return o
    if site == "roulette":
        op = opt_for(case)
        fits = a["fits"]
        arg = {"list": lambda: list(fits), "tuple": lambda: tuple(fits), "array": lambda: np.array(fits), "column": lambda: np.array(fits).reshape(-1, 1)}[a["form"]]()
        N = 400
        got = []
        for _ in range(N):
            i = op.get_index_roulette_wheel_selection(arg)
            if not isinstance(i, (int, np.integer)) or not 0 <= i < len(fits):
                o.bad(site, "index", "%r for %d candidates" % (i, len(fits)))
                return o
            got.append(fits[i])
        if np.array(arg, dtype=float).ravel().tolist() != fits:
            o.bad(site, "input_modified", "")
        lo, hi = min(fits), max(fits)
        if hi > lo:
            worst = lo if mm == "max" else hi
            zero = worst if (mm == "min" or lo < 0) else (0.0 if lo == 0 else None)
            if zero is not None and any(x == zero for x in got):
                o.bad(site, "zero_probability", "%s: %r was selected from %s" % (mm, zero, fits))
            mean, pm = math.fsum(got) / N, math.fsum(fits) / len(fits)
            tol = 6 * (hi - lo) / math.sqrt(N) / 2
            if (mean < pm - tol) if mm == "max" else (mean > pm + tol):
                o.bad(site, "direction", "%s: mean selected fitness %r, population mean %r, %s" % (mm, mean, pm, fits))
            best = hi if mm == "max" else lo
            nb = sum(x == best for x in got)
            pb = sum(x == best for x in fits) / len(fits)
            if nb < N * pb - 6 * math.sqrt(N * pb * (1 - pb)) - 1:
                o.bad(site, "direction", "%s: the best of %s was selected %d times of %d" % (mm, fits, nb, N))
        elif len(fits) <= 5 and len(fits) > 1:
            op2 = opt_for(case)
            if len({op2.get_index_roulette_wheel_selection(arg) for _ in range(200)}) != len(fits):
                o.bad(site, "unreachable", "equal fitness: not every index is selected")
        o.nontrivial = len(fits) > 1
        return o
    if site == "tournament":
        op = opt_for(case)
        fits = a["fits"]
        pop = [Agent(np.array([float(i)]), Target([f])) for i, f in enumerate(fits)]
        n = len(fits)
        k = n if a["all"] else a["k"] if isinstance(a["k"], float) else min(a["k"], n)
        out = min(a["out"], n if isinstance(k, float) else k)
        ranked = sorted(fits, reverse=(mm == "max"))
        for _ in range(30):
            r = [int(i) for i in op.get_index_kway_tournament_selection(pop, k_way=k, output=out, reverse=a["rev"])]
            if len(r) != out or len(set(r)) != out or not all(0 <= i < n for i in r):
                o.bad(site, "indices", "%s for k_way=%s output=%d of %d" % (r, k, out, n))
                return o
            fr = [fits[i] for i in r]
            if not a["rev"] and any(better(y, x) for x, y in zip(fr, fr[1:])):
                o.bad(site, "order", "%s: %s not best first" % (mm, fr))
                return o
            if k == n:
                want = sorted(ranked[-out:] if a["rev"] else ranked[:out])
                if sorted(fr) != want:
                    o.bad(site, "direction", "%s reverse=%s, everybody takes part: %s selected from %s" % (mm, a["rev"], fr, fits))
                    return o
        if k != n and len(set(fits)) > 1 and out == 1 and not isinstance(k, float) and k >= 2:
            sel = [fits[op.get_index_kway_tournament_selection(pop, k_way=k, output=1, reverse=a["rev"])[0]] for _ in range(300)]
            m, pm, sp = math.fsum(sel) / 300, math.fsum(fits) / n, max(fits) - min(fits)
            up = (mm == "max") != a["rev"]
            if (m < pm - sp * 0.18) if up else (m > pm + sp * 0.18):
                o.bad(site, "direction", "%s reverse=%s: mean of winners %r, population mean %r" % (mm, a["rev"], m, pm))
        o.nontrivial = n > 2
        return o
    if site == "levy":
        size = a["size"]
        size = tuple(size) if isinstance(size, list) else size
        s = opt_for(case).get_levy_flight_step(beta=a["beta"], multiplier=a["mult"], size=size, case=a["case"])
        want = () if size in (None, 1) else (size,) if isinstance(size, int) else size
        if np.shape(s) != want:
            o.bad(site, "shape", "size=%r -> shape %s" % (size, np.shape(s)))
        if not np.all(np.isfinite(s)):
            o.bad(site, "finite", "%s" % (s,))
        s1 = opt_for(case).get_levy_flight_step(beta=a["beta"], multiplier=1.0, size=size, case=a["case"])
        if np.shape(s1) == np.shape(s) and not scen.close(np.asarray(s1) * a["mult"], s, 1e-9):
            o.bad(site, "multiplier", "step(multiplier=%r) = %s but multiplier 1 gives %s" % (a["mult"], s, s1))
        big = np.asarray(opt_for(case).get_levy_flight_step(beta=a["beta"], multiplier=1.0, size=400, case=-1))
        if not (np.sum(big > 0) > 120 and np.sum(big < 0) > 120):
            o.bad(site, "symmetric", "of 400 steps %d are positive" % int(np.sum(big > 0)))
        o.nontrivial = True
        return o
    if site == "crossover":
        dad, mom = a["dad"], a["mom"]
        f = list if a["form"] == "list" else np.array
        d, m = f(dad), f(mom)
        w1, w2 = opt_for(case).crossover_arithmetic(d, m)
        D, M = np.array(dad), np.array(mom)
        tol = 1e-9 * (1 + np.abs(D) + np.abs(M))
        lo, hi = np.minimum(D, M) - tol, np.maximum(D, M) + tol
        if np.shape(w1) != D.shape or np.shape(w2) != D.shape:
            o.bad(site, "shape", "")
        elif not (np.all(w1 >= lo) and np.all(w1 <= hi) and np.all(w2 >= lo) and np.all(w2 <= hi)):
            o.bad(site, "convex", "%s x %s -> %s, %s" % (dad, mom, w1, w2))
        elif np.any(np.abs(np.asarray(w1) + np.asarray(w2) - D - M) > tol):
            o.bad(site, "complementary", "%s x %s -> %s, %s" % (dad, mom, w1, w2))
        else:
            # one common ratio for all coordinates
            i = int(np.argmax(np.abs(D - M)))
            if abs(D[i] - M[i]) > 1e-3:
                r = (w1[i] - M[i]) / (D[i] - M[i])
                if np.any(np.abs(r * D + (1 - r) * M - w1) > 1e-6 * (1 + np.abs(D) + np.abs(M))):
                    o.bad(site, "convex", "%s is not on the segment %s - %s" % (w1, dad, mom))
        if list(d) != dad or list(m) != mom:
            o.bad(site, "input_modified", "")
        o.nontrivial = dad != mom
        return o
    if site == "opposition":
        lb, ub = np.array(a["b"]["lb"], dtype=float), np.array(a["b"]["ub"], dtype=float)
        op = opt_for(case, lb, ub)
        x, gb = [np.clip(lb + (ub - lb) * np.array(v) / 16.0, lb, ub) for v in (a["x"], a["g"])]
        A, B = Agent(x.copy()), Agent(gb.copy())
        r = np.asarray(op.generate_opposition_solution(A, B), dtype=float)
        if r.shape != lb.shape or np.any(r < lb) or np.any(r > ub):
            o.bad(site, "feasible", "%s outside [%s, %s]" % (r, lb, ub))
        else:
            tol = 1e-9 * (1 + np.abs(lb) + np.abs(ub))
            e1, e2 = np.clip(lb + ub - gb, lb, ub), np.clip(lb + ub - x, lb, ub)
            if np.any(r < np.minimum(e1, e2) - tol) or np.any(r > np.maximum(e1, e2) + tol):
                o.bad(site, "segment", "%s is not between the opposites %s and %s" % (r, e1, e2))
        if not np.array_equal(A.solution, x) or not np.array_equal(B.solution, gb):
            o.bad(site, "input_modified", "")
        o.nontrivial = bool(np.any(x != gb))
        return o
    op = opt_for(case)
    pop = [Agent(np.array([float(i), 0.0]), Target([float(i)])) for i in range(a["n"])]
    gs = op.generate_group_population(pop, a["g"], a["m"])
    want = [list(range(a["n"]))[i * a["m"]:(i + 1) * a["m"]] for i in range(a["g"])]
    if [[int(x.solution[0]) for x in gr] for gr in gs] != want or any(int(x.target.fitness) != int(x.solution[0]) for gr in gs for x in gr):
        o.bad(site, "groups", "%s for n=%d groups=%d size=%d" % ([[int(x.solution[0]) for x in gr] for gr in gs], a["n"], a["g"], a["m"]))
    for gr in gs:
        for x in gr:
            x.solution[...] = -1.0
    if [int(p.solution[0]) for p in pop] != list(range(a["n"])):
        o.bad(site, "aliased", "changing a group changes the population")
    o.nontrivial = a["n"] > 1 and a["g"] > 1
    return o
