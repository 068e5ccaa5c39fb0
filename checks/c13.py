"""C13: ranking and selection pick the right agents in both directions."""
from pbt import boot
from pbt.engine import Outcome
from hypothesis import strategies as st
from mealpy.optimizer import Optimizer
from mealpy.utils.agent import Agent
from mealpy.utils.target import Target
import math
import numpy as np
PID = "C13"
RULE = ("generated populations of 1-14 agents (ties, negative, huge, infinite fitness) and directions through every ranking/selection helper; oracle: definitions over the list of fitness values (ordering, permutation, "
        "extremes, per-slot greedy), strict-order laws of agent comparison, independence of returned copies and unchanged inputs; non-trivial = >= 3 agents with at least two different fitness values")

fit = st.one_of(st.integers(-3, 3).map(float), st.integers(-3, 3).map(float), st.floats(-1e9, 1e9), st.sampled_from([math.inf, -math.inf, 0.0, -0.0, 1e-300, 1e300]))


def units(tier):
    n = 1200 if tier == "quick" else 25000
    return [{"name": x, "n": n} for x in ("sorted", "special", "greedy", "pairwise", "trimmed", "order")]


def strategy(unit):
    return st.fixed_dictionaries({"fits": st.lists(fit, min_size=1, max_size=14), "fits2": st.lists(fit, min_size=14, max_size=14), "minmax": st.sampled_from(["min", "max"]),
                                  "nb": st.one_of(st.none(), st.integers(1, 16)), "nw": st.one_of(st.none(), st.integers(1, 16)), "idx": st.booleans(), "k": st.integers(1, 16),
                                  "extra": st.integers(0, 2), "reverse": st.booleans()})


def make(fits, base=0):
    return [Agent(solution=np.array([float(base + i), 0.5]), target=Target([f])) for i, f in enumerate(fits)]


def tag(a):
    return int(round(a.solution[0]))


def state(pop):
    return [(a.solution.tolist(), float(a.target.fitness), a.id) for a in pop]


def f_of(a):
    return float(a.target.fitness)


def check(unit, case):
    o = Outcome()
    fits, mm = case["fits"], case["minmax"]
    pop = make(fits)
    before = state(pop)
    n = len(fits)
    better = (lambda a, b: a > b) if mm == "max" else (lambda a, b: a < b)
    best = max(fits) if mm == "max" else min(fits)
    worst = min(fits) if mm == "max" else max(fits)
    ranked = sorted(fits, reverse=(mm == "max"))
    name = unit["name"]

    def ordered(seq):
        return not any(better(b, a) for a, b in zip(seq, seq[1:]))

    def bad(kind, msg):
        o.bad(name, kind, "%s (minmax=%s, fitness %s)" % (msg, mm, fits))
    if name in ("sorted", "special"):
        sp, ix = Optimizer.get_sorted_population(pop, mm)
        if sorted(int(i) for i in ix) != list(range(n)) or [tag(a) for a in sp] != [int(i) for i in ix]:
            bad("sorted_indices", "indices %s, agents %s" % (ix, [tag(a) for a in sp]))
        elif not ordered([f_of(a) for a in sp]) or any(f_of(a) != fits[tag(a)] for a in sp):
            bad("sorted_order", "order %s" % [f_of(a) for a in sp])
    if name == "sorted":
        for fn, want, nm in ((Optimizer.get_best_agent, best, "best_agent"), (Optimizer.get_worst_agent, worst, "worst_agent")):
            a, i = fn(pop, mm)
            if f_of(a) != want or fits[int(i)] != want or tag(a) != int(i):
                bad(nm, "agent %d fitness %r index %s" % (tag(a), f_of(a), i))
            a.solution[...] = -1
            a.target.set_objectives([5])
        tot, b, w = Optimizer.get_special_fitness(pop, mm)
        if float(b) != best or float(w) != worst:
            bad("special_fitness", "best %r worst %r" % (b, w))
        if all(math.isfinite(x) for x in fits) and not math.isclose(float(tot), math.fsum(fits), rel_tol=1e-9, abs_tol=1e-9 * math.fsum(abs(x) for x in fits)):
            bad("total_fitness", repr(tot))
    elif name == "special":
        sp, bs, ws = Optimizer.get_special_agents(pop, n_best=case["nb"], n_worst=case["nw"], minmax=mm, return_index=case["idx"])
        for got, k, ref, nm in ((bs, case["nb"], ranked, "special_best"), (ws, case["nw"], ranked[::-1], "special_worst")):
            if k is None:
                if got is not None:
                    bad(nm, "None requested, got %s" % (got,))
                continue
            tags = [int(i) for i in got] if case["idx"] else [tag(a) for a in got]
            if [fits[i] for i in tags] != ref[:k] or len(set(tags)) != len(tags):
                bad(nm, "%d requested, got agents %s" % (k, tags))
            if not case["idx"]:
                if any(f_of(a) != fits[tag(a)] for a in got):
                    bad(nm, "fitness does not belong to the agent")
                for a in got:
                    a.solution[...] = -1
                    a.target.set_objectives([5])
        if [tag(a) for a in sp] != [tag(a) for a in Optimizer.get_sorted_population(pop, mm)[0]]:
            bad("special_sorted", "")
    elif name == "greedy":
        fits2 = case["fits2"][:n]
        new = make(fits2, 100)
        b2 = state(new)
        if case["extra"]:
            try:
                Optimizer.greedy_selection_population(pop, new + make([1.0] * case["extra"], 200), mm)
                bad("greedy_length", "populations of different size accepted")
            except ValueError:
                pass
        r = Optimizer.greedy_selection_population(pop, new, mm)
        if len(r) != n:
            bad("greedy", "%d agents returned" % len(r))
        else:
            for i, a in enumerate(r):
                want = (max if mm == "max" else min)(fits[i], fits2[i])
                if f_of(a) != want or tag(a) not in (i, 100 + i) or f_of(a) != (fits[i] if tag(a) == i else fits2[i]):
                    bad("greedy", "slot %d: old %r new %r chosen %r (agent %d)" % (i, fits[i], fits2[i], f_of(a), tag(a)))
                    break
        if state(new) != b2:
            bad("input_modified", "new population changed")
    elif name == "pairwise":
        fits2 = case["fits2"][:n]
        new = make(fits2, 100)
        for a, b in zip(pop, new):
            x, y = f_of(a), f_of(b)
            rev = case["reverse"]
            g = Optimizer.get_better_agent(a, b, mm, reverse=rev)
            bet = (lambda p, q: better(q, p)) if rev else better
            if f_of(g) != (x if bet(x, y) else y) or tag(g) not in (tag(a), tag(b)) or f_of(g) != (x if tag(g) == tag(a) else y):
                bad("better_agent", "%r vs %r reverse=%s -> %r" % (x, y, rev, f_of(g)))
            g.solution[...] = -1
            for nm, r in (("compare_fitness", Optimizer.compare_fitness(x, y, mm)), ("compare_target", Optimizer.compare_target(a.target, b.target, mm)), ("is_better_than", a.is_better_than(b, mm))):
                if bool(r) != better(x, y):
                    bad(nm, "%r better than %r: %r" % (x, y, r))
            s = a.get_better_solution(b, mm)
            if f_of(s) != (y if better(y, x) else x):
                bad("get_better_solution", "%r vs %r -> %r" % (x, y, f_of(s)))
        if state(new) != [([100.0 + i, 0.5], float(fits2[i]), new[i].id) for i in range(n)]:
            bad("input_modified", "")
    elif name == "trimmed":
        r = Optimizer.get_sorted_and_trimmed_population(pop, case["k"], mm)
        t = [tag(a) for a in r]
        if [f_of(a) for a in r] != ranked[:case["k"]] or len(set(t)) != len(t) or any(fits[i] != f_of(a) for i, a in zip(t, r)):
            bad("trimmed", "%d kept: %s" % (case["k"], [f_of(a) for a in r]))
        d = Optimizer.duplicate_pop(pop)
        if [x[:2] for x in state(d)] != [x[:2] for x in before]:
            bad("duplicate", "")
        for a in d:
            a.solution[...] = -3
    else:
        for a in pop:
            if a.is_better_than(a, mm):
                bad("irreflexive", "")
            for b in pop:
                if a.is_better_than(b, mm) and b.is_better_than(a, mm):
                    bad("asymmetric", "%r %r" % (f_of(a), f_of(b)))
                other = "min" if mm == "max" else "max"
                if bool(a.is_better_than(b, mm)) != bool(b.is_better_than(a, other)):
                    bad("direction", "%r better than %r for %s but not reversed for %s" % (f_of(a), f_of(b), mm, other))
                for c in pop[:4]:
                    if a.is_better_than(b, mm) and b.is_better_than(c, mm) and not a.is_better_than(c, mm):
                        bad("transitive", "")
    if state(pop) != before:
        bad("input_modified", "population changed")
    o.nontrivial = n >= 3 and len(set(fits)) >= 2
    o.label(mm, "ties" if len(set(fits)) < n else "distinct", "inf" if any(math.isinf(x) for x in fits) else "finite")
    o.info = {"n": n}
    return o
