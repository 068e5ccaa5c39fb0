"""C36: an optimizer that a user writes on top of Optimizer gets the same guarantees (model-based: random programs of the building blocks)."""
from pbt import boot, scen
from pbt.engine import Outcome
from hypothesis import strategies as st
import numpy as np
from mealpy.optimizer import Optimizer
from mealpy.utils.agent import Agent
PID = "C36"
RULE = ("generated user-written optimizers: a random program of 1-6 building blocks per generation (greedy walk, opposition, arithmetic crossover after tournament or roulette, Levy move, groups, trimmed union, batches of given and random agents, "
        "replacing the worst, improved_ms), random flags (sort_flag, is_parallelizable) and hooks, over generated problems (all variable kinds), modes, directions, terminations and starting solutions; oracle: a model kept along - after every block each "
        "agent carries the objective at its solution, the evaluation counter equals the calls, the block's own postcondition holds (sizes, order, what may be replaced by what); after the run hooks were called once and in order, evolve saw 1, 2, ..., the "
        "recorded series equal the model's, the result is the best of all generations, sorted populations are sorted, the same seed repeats the run; non-trivial = two or more generations")
BLOCKS = ["walk", "oppose", "cross", "levy", "groups", "trim", "batch", "special", "ms", "ms"]


class Wrong(Exception):
    pass


class Mine(Optimizer):
    """what a user would write"""

    def __init__(self, epoch=10, pop_size=20, program=(), factor=0.5, **kwargs):
        super().__init__(**kwargs)
        self.epoch = self.validator.check_int("epoch", epoch, [1, 100000])
        self.pop_size = self.validator.check_int("pop_size", pop_size, [2, 10000])
        self.factor = self.validator.check_float("factor", factor, (0, 10.0))
        self.program = program
        self.set_parameters(["epoch", "pop_size", "factor"])
        self.trace, self.model = [], []

    def initialize_variables(self):
        self.trace.append("initialize_variables")
        self.width = self.problem.ub - self.problem.lb

    def before_initialization(self, starting_solutions=None):
        self.trace.append("before_initialization")
        super().before_initialization(starting_solutions)

    def initialization(self):
        self.trace.append("initialization")
        super().initialization()

    def after_initialization(self):
        self.trace.append("after_initialization")
        super().after_initialization()
        self.audit("initialization")
        self.model = [self.copy_of(self.pop)]

    def before_main_loop(self):
        self.trace.append("before_main_loop")

    # ------------------------------------------------------------ model
    def copy_of(self, pop):
        return [(a.solution.copy(), float(a.target.fitness)) for a in pop]

    def better(self, x, y):
        return x > y if self.problem.minmax == "max" else x < y

    def order(self, fits):
        return sorted(fits, reverse=self.problem.minmax == "max")

    def audit(self, what, pop=None):
        pop = self.pop if pop is None else pop
        if len(pop) != self.pop_size:
            raise Wrong("%s: the population has %d agents instead of %d" % (what, len(pop), self.pop_size))
        for i, a in enumerate(pop):
            f = self.truth.fitness(a.solution)
            if not scen.same(a.target.fitness, f):
                raise Wrong("%s: agent %d carries fitness %r, the objective at its solution is %r" % (what, i, a.target.fitness, f))
            if not scen.same(a.solution, self.problem.correct_solution(a.solution)):
                raise Wrong("%s: agent %d is outside the problem's domain: %s" % (what, i, a.solution))
        if self.nfe_counter != self.rec.count:
            raise Wrong("%s: %d evaluations counted, %d made" % (what, self.nfe_counter, self.rec.count))

    def need(self, ok, text, *a):
        if not ok:
            raise Wrong(text % a if a else text)

    def settle(self, positions):
        """the standard pattern of the library"""
        pop_new = []
        for i, pos in enumerate(positions):
            agent = self.generate_empty_agent(self.correct_solution(pos))
            pop_new.append(agent)
            if self.mode not in self.AVAILABLE_MODES:
                agent.target = self.get_target(agent.solution)
                self.pop[i] = self.get_better_agent(agent, self.pop[i], self.problem.minmax)
        if self.mode in self.AVAILABLE_MODES:
            pop_new = self.update_target_for_population(pop_new)
            self.pop = self.greedy_selection_population(self.pop, pop_new, self.problem.minmax)

    def never_worse(self, what, before, after):
        b, a = self.order(before), self.order(after)
        for k, (x, y) in enumerate(zip(b, a)):
            self.need(not self.better(x, y), "%s: the best agent no. %d went from %r to %r (%s)", what, k, x, y, self.problem.minmax)

    # ------------------------------------------------------------ blocks
    def evolve(self, epoch):
        self.trace.append(epoch)
        for name, arg in self.program:
            before = [float(a.target.fitness) for a in self.pop]
            calls = self.rec.count
            getattr(self, "b_" + name)(arg, before, calls)
            self.audit(name)
        self.model.append(self.copy_of(self.pop))

    def b_walk(self, arg, before, calls):
        self.settle([a.solution + self.factor * self.generator.normal(0, 1, self.problem.n_dims) * self.width * 2.0 ** -arg for a in self.pop])
        self.never_worse("walk", before, [a.target.fitness for a in self.pop])
        for i, (x, a) in enumerate(zip(before, self.pop)):
            self.need(not self.better(x, a.target.fitness), "walk: slot %d went from %r to %r", i, x, a.target.fitness)
        self.need(self.rec.count == calls + self.pop_size, "walk: %d evaluations", self.rec.count - calls)

    def b_levy(self, arg, before, calls):
        s = [self.get_levy_flight_step(beta=1.0 + arg / 4.0, multiplier=0.1, size=self.problem.n_dims, case=-1) for _ in self.pop]
        self.settle([a.solution + np.reshape(k, -1) * (a.solution - self.g_best.solution) for a, k in zip(self.pop, s)])
        self.never_worse("levy", before, [a.target.fitness for a in self.pop])

    def b_oppose(self, arg, before, calls):
        pos = [self.generate_opposition_solution(a, self.g_best) for a in self.pop]
        for p in pos:
            self.need(scen.same(p, self.problem.correct_solution(p)), "oppose: %s is outside the domain", p)
        self.settle(pos)
        self.never_worse("oppose", before, [a.target.fitness for a in self.pop])

    def b_cross(self, arg, before, calls):
        pos = []
        for _ in self.pop:
            if arg % 2:
                i, j = self.get_index_roulette_wheel_selection(np.array(before)), self.get_index_roulette_wheel_selection(np.array(before))
            else:
                i, j = self.get_index_kway_tournament_selection(self.pop, k_way=0.5, output=2)
            a, b = self.crossover_arithmetic(self.pop[i].solution, self.pop[j].solution)
            pos.append(a if arg < 2 else b)
        self.settle(pos)
        self.never_worse("cross", before, [a.target.fitness for a in self.pop])

    def b_groups(self, arg, before, calls):
        m = arg + 1
        n = len(self.pop) // m
        groups = self.generate_group_population(self.pop, n, m)
        self.need([len(g) for g in groups] == [m] * n, "groups: sizes %s", [len(g) for g in groups])
        flat = [a for g in groups for a in g]
        for i, a in enumerate(flat):
            self.need(a is not self.pop[i] and a.solution is not self.pop[i].solution and scen.same(a.solution, self.pop[i].solution), "groups: member %d is not a copy of agent %d", i, i)
        for a in flat:      # groups are copies: what happens to them leaves the population alone
            keep = a.solution.copy()
            a.solution[:] = self.problem.lb
            a.solution = keep
        self.pop = flat + self.pop[len(flat):]

    def b_trim(self, arg, before, calls):
        more = self.generate_population(arg + 1)
        self.need(len(more) == arg + 1, "trim: %d agents made instead of %d", len(more), arg + 1)
        union = self.pop + more
        want = self.order([float(a.target.fitness) for a in union])[:self.pop_size]
        self.pop = self.get_sorted_and_trimmed_population(union, self.pop_size, self.problem.minmax)
        self.need([float(a.target.fitness) for a in self.pop] == want, "trim: not the best %d of the union in order", self.pop_size)

    def b_batch(self, arg, before, calls):
        want = [self.correct_solution(self.g_best.solution + self.width * self.generator.uniform(-0.1, 0.1, self.problem.n_dims)) if k % 2 else None for k in range(arg + 1)]
        made = self.generate_evaluated_agents(want)
        self.need(len(made) == len(want) and self.rec.count == calls + len(want), "batch: %d agents, %d evaluations for %d solutions", len(made), self.rec.count - calls, len(want))
        for w, a in zip(want, made):
            self.need(a.target is not None and (w is None or scen.same(w, a.solution)), "batch: out of order")
            self.need(scen.same(a.target.fitness, self.truth.fitness(a.solution)), "batch: wrong target")
        ids = np.argsort(before)
        worst = (ids if self.problem.minmax == "max" else ids[::-1])[:len(made)]
        for i, a in zip(worst, made):
            self.pop[i] = a

    def b_special(self, arg, before, calls):
        k = min(arg + 1, len(self.pop) // 2)
        _, best, worst, ids = self.get_special_agents(self.pop, n_best=k, n_worst=k, minmax=self.problem.minmax)+(None,)
        o = self.order(before)
        self.need([a.target.fitness for a in best] == o[:k], "special: the best %d are %s, expected %s", k, [a.target.fitness for a in best], o[:k])
        self.need(sorted(a.target.fitness for a in worst) == sorted(o[-k:]), "special: the worst %d are %s, expected %s", k, [a.target.fitness for a in worst], o[-k:])
        i = self.get_worst_agent(self.pop, self.problem.minmax)[1]
        self.pop[i] = best[0].copy()

    def b_ms(self, arg, before, calls):
        self.pop = self.improved_ms(self.pop, self.g_best)
        half = (len(before) + 1) // 2
        self.never_worse("ms", self.order(before)[:half], [a.target.fitness for a in self.pop[:half]])
        self.need(self.rec.count == calls + len(before), "ms: %d evaluations for %d agents", self.rec.count - calls, len(before))


def units(tier):
    n = 1500 if tier == "quick" else 20000
    return [{"name": m, "n": n} for m in ("single", "swarm", "thread")] + [{"name": "longer", "n": n // 4}]


@st.composite
def strategy_(draw, u):
    return {"epoch": draw(st.integers(1, 6 if u != "longer" else 40)), "pop": draw(st.integers(2, 13)), "mode": u if u != "longer" else draw(st.sampled_from(["single", "swarm"])), "minmax": draw(st.sampled_from(["min", "max"])),
            "bounds": draw(scen.bounds_strategy(scen.DETTYPES)), "obj": draw(scen.objective()), "as_dict": draw(st.booleans()), "seed": draw(st.integers(0, 2 ** 31)), "params": {}, "algo": "PSO.OriginalPSO",
            "program": draw(st.lists(st.tuples(st.sampled_from(BLOCKS), st.integers(0, 3)), min_size=1, max_size=6)), "sort": draw(st.booleans()), "par": draw(st.sampled_from([True, True, True, False])),
            "factor": draw(st.sampled_from([0.1, 0.5, 3.0])), "stop": draw(st.sampled_from([None, None, None, 1, 3, "fe"])), "start": draw(st.sampled_from([False, False, True]))}


def strategy(unit):
    return strategy_(unit["name"])


def run(case):
    problem, rec, lb, ub = scen.make_problem(case, None, True)
    opt = Mine(case["epoch"], case["pop"], [tuple(t) for t in case["program"]], case["factor"])
    opt.sort_flag, opt.is_parallelizable = case["sort"], case["par"]
    opt.rec, opt.truth = rec, rec.fn
    kw = {"n_workers": 2} if case["mode"] == "thread" else {}
    if case["stop"] == "fe":
        kw["termination"] = {"max_fe": max(10, 3 * case["pop"])}
    elif case["stop"]:
        kw["termination"] = {"max_epoch": case["stop"]}
    if case["start"]:
        g = np.random.default_rng(case["seed"])
        probe = scen.Problem([scen.make_var(s) for s in case["bounds"]], log_to=None)
        kw["start"] = [probe.correct_solution(lb + (ub - lb) * g.random(len(lb))) for _ in range(case["pop"])]
    return opt, scen.Run(case, opt=opt, problem=(problem, rec, lb, ub), **kw)


def check(unit, case):
    o = Outcome()
    opt, r = run(case)
    site = case["mode"]
    if r.error is not None:
        if isinstance(r.error, Wrong):
            o.bad(site, str(r.error).split(":")[0].replace(" ", "_"), "%s (program %s)" % (r.error, case["program"]))
        else:
            o.bad(site, "crash", "%s %s (program %s)" % (r.sig(), r.error, case["program"]))
        return o
    n = len(opt.model) - 1
    if case["stop"] != "fe" and n != min(case["epoch"], case["stop"] or 10 ** 9):
        o.bad(site, "generations", "%d generations, epoch=%d, termination %s" % (n, case["epoch"], case["stop"]))
    want = ["initialize_variables", "before_initialization", "initialization", "after_initialization", "before_main_loop"] + list(range(1, n + 1))
    if opt.trace != want:
        o.bad(site, "hooks", "called %s" % opt.trace[:12])
    if opt.get_parameters() != {"epoch": case["epoch"], "pop_size": case["pop"], "factor": case["factor"]}:
        o.bad(site, "parameters", str(opt.get_parameters()))
    if opt.mode != (case["mode"] if case["par"] or case["mode"] != "thread" else "single"):
        o.bad(site, "mode", "mode %s runs as %s, is_parallelizable=%s" % (case["mode"], opt.mode, case["par"]))
    best = max if case["minmax"] == "max" else min
    worst = min if case["minmax"] == "max" else max
    h = opt.history
    fits = [[f for _, f in p] for p in opt.model]
    cur = [best(f) for f in fits]
    low = [worst(f) for f in fits]
    glob = [best(cur[:k + 1]) for k in range(n + 1)]
    for what, got, exp in (("current_best", [a.target.fitness for a in h.list_current_best], cur[1:]), ("global_best", [a.target.fitness for a in h.list_global_best], glob[1:]), ("global_best_fit", h.list_global_best_fit, glob[1:]),
                           ("current_best_fit", h.list_current_best_fit, cur[1:]), ("current_worst", [a.target.fitness for a in h.list_current_worst], low[1:]), ("global_worst", [a.target.fitness for a in h.list_global_worst], [worst(low[:k + 1]) for k in range(n + 1)][1:])):
        if not scen.same(list(map(float, got)), exp):
            o.bad(site, "history_" + what, "recorded %s, expected %s" % (list(map(float, got))[:8], exp[:8]))
    if not scen.same(r.best.target.fitness, glob[-1]) or r.best is not opt.g_best:
        o.bad(site, "result", "returned %r, best of all generations %r" % (r.best.target.fitness, glob[-1]))
    if len(h.list_population) != n:
        o.bad(site, "history_population", "%d populations for %d generations" % (len(h.list_population), n))
    for g, p in enumerate(h.list_population):
        got, exp = [(a.solution.tolist(), float(a.target.fitness)) for a in p], [(x.tolist(), f) for x, f in opt.model[g + 1]]
        if sorted(got) != sorted(exp) or (not case["sort"] and got != exp):
            o.bad(site, "history_population", "generation %d is recorded otherwise than it was" % (g + 1))
            break
        if case["sort"] and [f for _, f in got] != opt.order([f for _, f in got]):
            o.bad(site, "not_sorted", "generation %d: %s" % (g + 1, [f for _, f in got]))
            break
    if case["mode"] != "thread" and unit["name"] != "longer":
        _, again = run(case)
        if again.error is not None or [x[0].tolist() for x in again.calls] != [x[0].tolist() for x in r.calls]:
            o.bad(site, "not_repeatable", "the same seed gives another course")
    o.nontrivial = n >= 2
    o.label(case["mode"], case["minmax"], *sorted({b for b, _ in case["program"]}))
    o.info = {"evals": len(r.calls), "generations": n}
    return o
