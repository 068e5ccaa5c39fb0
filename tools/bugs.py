"""Planted bugs (development aid of tools/plant.py): edits are (file under mealpy/, old text, new text)."""
PRE = '''
import sys, warnings, os
import numpy as np
warnings.simplefilter("ignore")
from mealpy import *
'''
BUGS = []


def bug(id, property, edits, demo, needs, breaks, also=()):
    BUGS.append(dict(id=id, property=property, edits=edits, demo=PRE + demo, needs=needs, breaks=breaks, also=list(also)))


bug("c01-neighbour-target", "C01", [("optimizer.py", """            for idx, pos in enumerate(pos_list):
                pop[idx].target = self.get_target(pos, counted=False)
""", """            for idx, pos in enumerate(pos_list):
                # Two equal neighbours do not need to be evaluated twice
                if idx > 0 and pop[idx].sync_if_duplicate(pop[idx - 1]):
                    continue
                pop[idx].target = self.get_target(pos, counted=False)
""")], '''
f = lambda x: float(np.sum(x ** 2)) * 1e12
p = dict(obj_func=f, bounds=FloatVar(lb=[-4e-7] * 2, ub=[4e-7] * 2), minmax="min", log_to="None")
m = DE.OriginalDE(epoch=4, pop_size=10)
g = m.solve(p, mode="swarm", seed=3)
bad = [a for a in m.pop + [g] if abs(a.target.fitness - f(a.solution)) > 1e-9]
sys.exit(1 if bad else 0)
''', "swarm mode and a search range so narrow (about 1e-6) that neighbouring agents of the population count as equal by the tolerance of Agent.__eq__",
    "An agent borrows the target of its neighbour, so it is reported with a fitness that is not the objective at its solution.", also=["C07"])

bug("c01-abandoned-source", "C01", [("swarm_based/ABC.py", """            self.pop[idx] = self.generate_agent()
            self.trials[idx] = 0""", """            self.pop[idx].solution = self.generate_empty_agent().solution
            self.trials[idx] = 0""")], '''
f = lambda x: float(np.sum(np.abs(x)))
p = dict(obj_func=f, bounds=FloatVar(lb=[-4.] * 2, ub=[4.] * 2), minmax="min", log_to="None")
for s in range(5):
    m = ABC.OriginalABC(epoch=15, pop_size=8, n_limits=4)
    m.solve(p, seed=s)
    for a in m.pop + m.history.list_current_best + m.history.list_current_worst:
        if a.target.fitness != f(a.solution):
            sys.exit(1)
''', "a food source that is abandoned, i.e. n_limits unsuccessful trials of one bee in a row",
    "The abandoned source gets a new position but keeps the fitness of the old one.", also=["C07"])

bug("c02-mutation-after-correction", "C02", [("physics_based/SA.py", """        pos_new = np.where(self.generator.random(self.problem.n_dims) < self.mutation_rate, position, pos_new)
        if np.all(pos_new == position):  # Select at least one variable to mutate
            pos_new[self.generator.integers(0, self.problem.n_dims)] = self.generator.uniform()
        return self.correct_solution(pos_new)""", """        pos_new = np.where(self.generator.random(self.problem.n_dims) < self.mutation_rate, position, pos_new)
        pos_new = self.correct_solution(pos_new)
        if np.all(pos_new == position):  # Select at least one variable to mutate
            pos_new[self.generator.integers(0, self.problem.n_dims)] = self.generator.uniform()
        return pos_new"""), ("physics_based/SA.py", """                    pos_new = self.mutate__(self.pop[idx].solution, self.dyn_sigma)
                    pos_new = self.correct_solution(pos_new)
""", """                    pos_new = self.mutate__(self.pop[idx].solution, self.dyn_sigma)
""")], '''
bad = []
def f(x):
    if np.any(x < 2.) or np.any(x > 5.):
        bad.append(x)
    return float(np.sum(x))
p = dict(obj_func=f, bounds=FloatVar(lb=[2.] * 2, ub=[5.] * 2), minmax="min", log_to="None")
[SA.SwarmSA(epoch=10, pop_size=10, mutation_rate=0.95).solve(p, seed=s) for s in range(4)]
sys.exit(1 if bad else 0)
''', "a mutation that selects no coordinate (high mutation_rate or few dimensions) and bounds that do not contain [0, 1]",
    "SwarmSA evaluates and reports a solution outside the bounds.")

bug("c02-stale-bound-offset", "C11", [("utils/problem.py", """            x_new += list(var.correct(x[n_vars:n_vars+var.n_vars]))
            n_vars += var.n_vars
""", """            x_new += list(var.correct(x[n_vars:n_vars+var.n_vars]))
            n_vars = idx + var.n_vars
""")], '''
from mealpy.utils.problem import Problem
class P(Problem):
    def obj_func(self, x): return 0.
p = P(bounds=[FloatVar(lb=[0.] * 2, ub=[1.] * 2, name="a"), FloatVar(lb=10., ub=20., name="b"), FloatVar(lb=[-9., -7.], ub=[-8., -6.], name="c")], log_to="None")
x = np.array([.5, .25, 15., -8.5, -6.5])
sys.exit(0 if np.array_equal(p.correct_solution(x), x) else 1)
''', "at least three variables of which the first has more than one dimension", "Correcting a mixed solution hands a later variable the wrong slice.", also=["C02"])

bug("c03-initial-best", "C03", [("optimizer.py", """        pop_temp, best, worst = self.get_special_agents(self.pop, n_best=1, n_worst=1, minmax=self.problem.minmax)
        self.g_best, self.g_worst = best[0], worst[0]
        if self.sort_flag: self.pop = pop_temp
""", """        pop_temp, _ = self.get_sorted_population(self.pop, self.problem.minmax)
        if self.sort_flag: self.pop = pop_temp
        self.g_best, self.g_worst = self.pop[0].copy(), pop_temp[-1].copy()
""")], '''
f = lambda x: float(np.sum(np.abs(x)))
p = dict(obj_func=f, bounds=FloatVar(lb=[-9.] * 3, ub=[9.] * 3), minmax="min", log_to="None")
for s in range(30):
    init = []
    def g(x):
        v = f(x); init.append(v); return v
    q = dict(p, obj_func=g)
    m = FFO.OriginalFFO(epoch=1, pop_size=6) if "FFO" in globals() else SA.OriginalSA(epoch=1, pop_size=6)
    for m, n in ((SA.OriginalSA(epoch=1, pop_size=6), 6), (HC.OriginalHC(epoch=1, pop_size=6), 6)):
        init.clear()
        b = m.solve(q, seed=s)
        if b.target.fitness > min(init[:n]):
            sys.exit(1)
''', "an optimizer that neither sorts nor keeps its initial population, whose first generation does not find something better than the best initial agent",
    "The best initial agent is not recorded as global best and can be lost.")

bug("c03-worst-direction", "C03", [("optimizer.py", """            worse = self.get_better_agent(c_worst, self.history.list_global_worst[-1], self.problem.minmax, reverse=True)
            if self.interim_worst""", """            worse = self.get_better_agent(c_worst, self.history.list_global_worst[-1], "max")
            if self.interim_worst""")], '''
f = lambda x: float(np.sum(np.abs(x)))
p = dict(obj_func=f, bounds=FloatVar(lb=[-9.] * 3, ub=[9.] * 3), minmax="max", log_to="None")
for s in range(5):
    m = GA.BaseGA(epoch=8, pop_size=10)
    m.solve(p, seed=s)
    w = [a.target.fitness for a in m.history.list_global_worst]
    if any(b > a for a, b in zip(w, w[1:])):
        sys.exit(1)
''', "a maximization problem", "The recorded global worst gets better over the generations of a maximization run.")

bug("c04-reseed-skipped", "C04", [("utils/problem.py", """        self.seed = seed
        for idx in range(len(self._bounds)):
""", """        changed = seed is None or seed != self.seed
        self.seed = seed
        for idx in range(len(self._bounds) if changed else 0):      # otherwise the variables already use this seed
""")], '''
from mealpy.utils.problem import Problem
class P(Problem):
    def obj_func(self, x): return float(np.sum(x ** 2))
p = P(bounds=FloatVar(lb=[-9.] * 3, ub=[9.] * 3), minmax="min", log_to="None")
a = GA.BaseGA(epoch=3, pop_size=10).solve(p, seed=7)
b = GA.BaseGA(epoch=3, pop_size=10).solve(p, seed=7)
sys.exit(0 if np.array_equal(a.solution, b.solution) else 1)
''', "the same Problem object solved twice in a row with the same seed", "The second run starts from another state of the variables' generators and differs from the first.")

bug("c04-kept-archive", "C04", [("evolutionary_based/DE.py", """        self.dyn_miu_cr = self.miu_cr
        self.dyn_miu_f = self.miu_f
        self.dyn_pop_archive = list()

    ### Survivor Selection
    def lehmer_mean(self, list_objects):
        temp = np.sum(list_objects)
        return 0 if temp == 0 else""", """        self.dyn_miu_cr = self.miu_cr
        self.dyn_miu_f = self.miu_f
        self.dyn_pop_archive = [agent for agent in getattr(self, "dyn_pop_archive", []) if len(agent.solution) == self.problem.n_dims]

    ### Survivor Selection
    def lehmer_mean(self, list_objects):
        temp = np.sum(list_objects)
        return 0 if temp == 0 else""")], '''
p = dict(obj_func=lambda x: float(np.sum(x ** 2)), bounds=FloatVar(lb=[-9.] * 3, ub=[9.] * 3), minmax="min", log_to="None")
m = DE.JADE(epoch=6, pop_size=8)
a = m.solve(p, seed=7)
b = m.solve(p, seed=7)
sys.exit(0 if np.array_equal(a.solution, b.solution) else 1)
''', "a JADE optimizer object that is used for a second run on a problem of the same size", "The archive of the previous run takes part in the next one, so the same seed gives another run.")

bug("c05-completion-order", "C05", [("optimizer.py", """            with parallel.ThreadPoolExecutor(self.n_workers) as executor:
                # Return result as original order, not the future object
                list_results = executor.map(partial(self.get_target, counted=False), pos_list)
                for idx, target in enumerate(list_results):
                    pop[idx].target = target
""", """            with parallel.ThreadPoolExecutor(self.n_workers) as executor:
                if len(pos_list) < 8:
                    list_results = list(executor.map(partial(self.get_target, counted=False), pos_list))
                else:
                    futures = [executor.submit(self.get_target, pos, counted=False) for pos in pos_list]
                    list_results = [future.result() for future in parallel.as_completed(futures)]
                for idx, target in enumerate(list_results):
                    pop[idx].target = target
""")], '''
import time
def f(x):
    time.sleep(0.02 if x[0] > 0 else 0.)
    return float(np.sum(x ** 2))
p = dict(obj_func=f, bounds=FloatVar(lb=[-9.] * 3, ub=[9.] * 3), minmax="min", log_to="None")
m = GA.BaseGA(epoch=3, pop_size=10)
a = m.solve(p, seed=7, mode="swarm").copy()
b = m.solve(p, seed=7, mode="thread", n_workers=4)
bad = [t for t in m.pop if t.target.fitness != float(np.sum(t.solution ** 2))]
sys.exit(0 if np.array_equal(a.solution, b.solution) and not bad else 1)
''', "thread mode with evaluations that finish in another order than they were started", "Targets are assigned in completion order, so agents get each other's fitness.", also=["C01"])

bug("c05-swarm-only-greedy", "C05", [("swarm_based/MPA.py", """        if self.mode in self.AVAILABLE_MODES:
            pop_new = self.update_target_for_population(pop_new)
            self.pop = self.greedy_selection_population(self.pop, pop_new, self.problem.minmax)""", """        if self.mode in self.AVAILABLE_MODES:
            pop_new = self.update_target_for_population(pop_new)
            if self.mode in self.PARALLEL_MODES:
                self.pop = self.get_sorted_and_trimmed_population(self.pop + pop_new, self.pop_size, self.problem.minmax)
            else:
                self.pop = self.greedy_selection_population(self.pop, pop_new, self.problem.minmax)""")], '''
def f(x):
    return float(np.sum(x ** 2))
p = dict(obj_func=f, bounds=FloatVar(lb=[-9.] * 3, ub=[9.] * 3), minmax="min", log_to="None")
m = MPA.OriginalMPA(epoch=6, pop_size=10)
a = m.solve(p, seed=7, mode="swarm").copy()
b = m.solve(p, seed=7, mode="thread", n_workers=4)
sys.exit(0 if np.array_equal(a.solution, b.solution) else 1)
''', "MPA in thread or process mode", "Parallel modes use another survivor selection than swarm mode, so the runs differ.")

bug("c06-reused-termination-clock", "C06", [("utils/termination.py", """        self.start_time = start_time
""", """        self.start_time = getattr(self, "start_time", start_time)
""")], '''
import time
t = Termination(max_time=0.5)
p = dict(obj_func=lambda x: float(np.sum(x ** 2)), bounds=FloatVar(lb=[-9.] * 3, ub=[9.] * 3), minmax="min", log_to="None")
m = GA.BaseGA(epoch=6, pop_size=10)
m.solve(p, seed=7, termination=t)
time.sleep(0.6)
m.solve(p, seed=7, termination=t)
sys.exit(0 if len(m.history.list_global_best) == 6 else 1)
''', "one Termination object with a time bound that is used for a second run", "The clock of the second run starts at the first run, so it stops too early.")

bug("c06-strict-epsilon", "C06", [("utils/history.py", """            if temp <= epsilon:
                count += 1""", """            if temp < epsilon:
                count += 1""")], '''
p = dict(obj_func=lambda x: 1.5, bounds=FloatVar(lb=[-9.] * 3, ub=[9.] * 3), minmax="min", log_to="None")
m = GA.BaseGA(epoch=30, pop_size=10)
m.solve(p, seed=7, termination=dict(max_early_stop=5, epsilon=0))
sys.exit(0 if len(m.history.list_global_best) < 30 else 1)
''', "early stopping with epsilon=0 (or a change exactly equal to epsilon)", "A change of exactly epsilon counts as an improvement, so the run never stops early.")

bug("c07-uncounted-duplicate", "C07", [("human_based/TLO.py", """            self.pop[idx] = self.generate_agent(pos_new)


class OriginalTLO""", """            self.pop[idx] = self.generate_empty_agent(pos_new)
            self.pop[idx].target = self.problem.get_target(pos_new)


class OriginalTLO""")], '''
n = [0]
def f(x):
    n[0] += 1
    return float(np.sum(x ** 2))
p = dict(obj_func=f, bounds=FloatVar(lb=[-9.] * 3, ub=[9.] * 3), minmax="min", log_to="None")
for s in range(5):
    n[0] = 0
    m = TLO.ETLBO(epoch=10, pop_size=8, elite_size=3)
    m.solve(p, seed=s)
    if m.nfe_counter != n[0]:
        sys.exit(1)
''', "ETLBO with duplicate agents after the elitism step", "Replacing duplicates calls the objective without counting it.")

bug("c08-aliased-snapshots", "C08", [("optimizer.py", """            self.history.list_population.append(Optimizer.duplicate_pop(pop))""", """            self.history.list_population.append(list(pop))""")], '''
p = dict(obj_func=lambda x: float(np.sum(x ** 2)), bounds=FloatVar(lb=[-9.] * 3, ub=[9.] * 3), minmax="min", log_to="None", save_population=True)
m = PSO.OriginalPSO(epoch=8, pop_size=8)
m.solve(p, seed=3)
b = [min(a.target.fitness for a in pop) for pop in m.history.list_population]
c = [a.target.fitness for a in m.history.list_current_best]
sys.exit(0 if b == c else 1)
''', "save_population and an optimizer that updates its agents in place", "Saved populations change with the later generations.")

bug("c08-diversity-of-previous", "C08", [("optimizer.py", """        ## Save history data
        if self.problem.save_population:""", """        if self.history.list_population and len(self.history.list_population[-1]) != len(pop):
            pop = self.pop[:len(self.history.list_population[-1])]
        ## Save history data
        if self.problem.save_population:"""), ("optimizer.py", """        pos_matrix = np.array([agent.solution for agent in pop])
        div = """, """        pos_matrix = np.array([agent.solution for agent in pop])
        div = """)], '''
p = dict(obj_func=lambda x: float(np.sum(x ** 2)), bounds=FloatVar(lb=[-9.] * 3, ub=[9.] * 3), minmax="min", log_to="None", save_population=True)
sys.exit(0)
''', "unused", "unused")
BUGS.pop()

bug("c09-starting-points-replaced", "C09", [("evolutionary_based/CRO.py", """    def initialization(self):
        if self.pop is None:
            self.pop = self.generate_population(self.pop_size)
        self.reef = np.array([])
        self.occupied_position = []  # after a gen, you should update the occupied_position
        self.G1 = self.gamma_max
        self.alpha = 10 * self.Pd / self.epoch
        self.gama = 10 * (self.gamma_max - self.gamma_min) / self.epoch
        self.num_occupied = int(self.pop_size / (1 + self.po))
        self.dyn_Pd = 0
""", """    def initialization(self):
        self.num_occupied = int(self.pop_size / (1 + self.po))
        if self.pop is None:
            self.pop = self.generate_population(self.pop_size)
        else:   # The rest of the reef is free at the beginning
            self.pop = self.pop[:self.num_occupied] + self.generate_population(self.pop_size - self.num_occupied)
        self.reef = np.array([])
        self.occupied_position = []  # after a gen, you should update the occupied_position
        self.G1 = self.gamma_max
        self.alpha = 10 * self.Pd / self.epoch
        self.gama = 10 * (self.gamma_max - self.gamma_min) / self.epoch
        self.dyn_Pd = 0
""")], '''
seen = []
def f(x):
    seen.append(x.copy())
    return float(np.sum(x ** 2))
p = dict(obj_func=f, bounds=FloatVar(lb=[-9.] * 3, ub=[9.] * 3), minmax="min", log_to="None")
start = np.full((10, 3), 5.); start[9] = 0.
b = CRO.OriginalCRO(epoch=2, pop_size=10).solve(p, seed=1, starting_solutions=start.tolist())
sys.exit(0 if b.target.fitness == 0. else 1)
''', "CRO with starting solutions whose best one is among the last ones", "The last starting solutions are replaced by random ones, so the result can be worse than the best of them.")

bug("c10-round-half", "C10", [("utils/space.py", """        return np.where(frac < 0.5, t1, t2)""", """        return np.where(frac <= 0.5, t1, t2)""")], '''
v = IntegerVar(lb=[2, -3], ub=[7, 4])
x = v.decode(v.lb)
sys.exit(0 if np.array_equal(x, [2, -3]) else 1)
''', "a coordinate that lies exactly on the lower bound of an integer variable (e.g. after clipping)", "The lower bound decodes to an integer below the declared range.", also=["C02"])

bug("c10-nonzero-first", "C10", [("utils/space.py", """            if np.sum(x) == 0:
                x[self.generator.integers(0, len(x))] = 1
            return x""", """            if np.sum(x) == 0:
                x[self.generator.integers(0, max(1, len(x) - 1))] = 1
            return x""")], '''
v = TransferBinaryVar(n_vars=3, all_zeros=False)
v.seed = 1
got = {tuple(int(b) for b in v.decode(np.zeros(3))) for _ in range(400)}
sys.exit(0 if {(1, 0, 0), (0, 1, 0), (0, 0, 1)} <= got else 1)
''', "a transfer variable with all_zeros=False whose draw gives only zeros", "The repair never picks the last position, so from a zero vector some members of the domain cannot be reached.")

bug("c12-shared-buffer", "C12", [("utils/target.py", """            objs = np.array(objs).flatten()
        self._objectives = objs""", """            objs = np.asarray(objs).ravel()
        self._objectives = objs""")], '''
from mealpy.utils.target import Target
buf = np.array([1., 2.])
t = Target(buf)
buf[:] = 9.
u = t.copy()
u.objectives[0] = 5.
sys.exit(0 if t.objectives.tolist() == [1., 2.] else 1)
''', "an objective function that returns (a view of) the same array in every call, or a caller that changes the objectives of a copy", "Targets share their objective values with the user's array and with their copies.", also=["C01"])

bug("c12-copy-loses-weights", "C12", [("utils/target.py", """        return Target(self.objectives, self.weights)""", """        return Target(self.objectives)""")], '''
from mealpy.utils.target import Target
t = Target([1., 2.], [.2, .8])
sys.exit(0 if t.copy().fitness == t.fitness else 1)
''', "a multi-objective problem with weights other than one", "A copied target forgets the weights and gets another fitness.", also=["C01"])

bug("c13-single-precision-rank", "C13", [("optimizer.py", """        list_fits = [agent.target.fitness for agent in pop]
        indices = np.argsort(list_fits).tolist()""", """        list_fits = np.array([agent.target.fitness for agent in pop], dtype=np.float32)
        indices = np.argsort(list_fits).tolist()""")], '''
from mealpy.utils.agent import Agent
from mealpy.utils.target import Target
pop = [Agent(np.array([0.]), Target(1e6 + d)) for d in (3e-3, 2e-3, 1e-3, 4e-3)]
s, idx = Optimizer.get_sorted_population(pop, "min")
sys.exit(0 if idx == [2, 1, 0, 3] else 1)
''', "fitness values that differ by less than single precision resolves (relative 1e-7)", "Close agents are treated as ties and ranked in the wrong order.", also=["C03"])

bug("c13-no-worst", "C13", [("optimizer.py", """                worst_res = [agent.copy() for agent in sorted_pop[::-1][:n_worst]]""", """                worst_res = [agent.copy() for agent in sorted_pop[-n_worst:][::-1]]""")], '''
from mealpy.utils.agent import Agent
from mealpy.utils.target import Target
pop = [Agent(np.array([0.]), Target(float(d))) for d in (3, 1, 2)]
_, b, w = Optimizer.get_special_agents(pop, n_best=1, n_worst=0, minmax="min")
sys.exit(0 if w == [] else 1)
''', "n_worst=0", "Asking for no worst agents returns the whole population.")

bug("c14-mixed-sign-roulette", "C14", [("optimizer.py", """        if np.any(list_fitness < 0):
            list_fitness""", """        if np.all(list_fitness < 0):
            list_fitness""")], '''
p = dict(obj_func=lambda x: float(np.sum(x)), bounds=FloatVar(lb=[-9.] * 3, ub=[9.] * 3), minmax="max", log_to="None")
m = GA.BaseGA(epoch=1, pop_size=8)
m.solve(p, seed=1)
for i in range(50):
    if m.get_index_roulette_wheel_selection(np.array([-1., 0.5, 3.])) not in (1, 2):
        sys.exit(1)
''', "a maximization problem whose fitness values have both signs", "Roulette-wheel selection is handed negative probabilities and fails.", also=["C23"])

bug("c14-tournament-reverse", "C14", [("optimizer.py", """        if reverse:
            return [parent[0] for parent in list_parents[-output:]]""", """        if reverse and self.problem.minmax == "min":
            return [parent[0] for parent in list_parents[-output:]]""")], '''
from mealpy.utils.agent import Agent
from mealpy.utils.target import Target
p = dict(obj_func=lambda x: float(np.sum(x)), bounds=FloatVar(lb=[-9.] * 3, ub=[9.] * 3), minmax="max", log_to="None")
m = GA.BaseGA(epoch=1, pop_size=8)
m.solve(p, seed=1)
pop = [Agent(np.array([0.]), Target(float(d))) for d in (3, 1, 2)]
sys.exit(0 if m.get_index_kway_tournament_selection(pop, k_way=3, output=1, reverse=True)[0] == 1 else 1)
''', "a reversed tournament on a maximization problem", "The reversed tournament returns the best instead of the worst participant.")

bug("c15-closed-range", "C15", [("evolutionary_based/DE.py", """        self.pt = self.validator.check_float("pt", pt, (0, 1.0))
        # np.random.uniform(1/20, 1/5) # the adaptation parameter control value of f and cr
        self.ap = self.validator.check_float("ap", ap, (0, 1.0))
        self.set_parameters(["epoch", "pop_size", "miu_f", "miu_cr", "pt", "ap"])""", """        self.pt = self.validator.check_float("pt", pt, [0, 1.0])
        # np.random.uniform(1/20, 1/5) # the adaptation parameter control value of f and cr
        self.ap = self.validator.check_float("ap", ap, (0, 1.0))
        self.set_parameters(["epoch", "pop_size", "miu_f", "miu_cr", "pt", "ap"])""")], '''
try:
    DE.JADE(epoch=5, pop_size=10, pt=0.)
except ValueError:
    sys.exit(0)
sys.exit(1)
''', "the boundary value 0 (or 1) of JADE's parameter pt", "A value outside the documented open range is accepted.")

bug("c15-unlisted-parameter", "C15", [("swarm_based/ABC.py", """        self.n_limits = self.validator.check_int("n_limits", n_limits, [1, 1000])
        self.is_parallelizable = False""", """        self.n_limits = min(self.validator.check_int("n_limits", n_limits, [1, 1000]), self.epoch)
        self.is_parallelizable = False""")], '''
m = ABC.OriginalABC(epoch=5, pop_size=10, n_limits=25)
sys.exit(0 if m.get_parameters()["n_limits"] == 25 else 1)
''', "n_limits larger than the number of epochs", "A parameter does not keep the value it was given.")

bug("c16-half-infinite", "C16", [("utils/validator.py", """    elif bound[0] == float("-inf") and ops(value, bound[1]):""", """    elif bound[0] == float("-inf") and value <= bound[1]:""")], '''
from mealpy.utils.validator import Validator
v = Validator(log_to="None")
try:
    v.check_float("x", 3., (float("-inf"), 3.))
except ValueError:
    sys.exit(0)
sys.exit(1)
''', "an open range without lower end and a value equal to its upper end", "A value outside the range is accepted.")

bug("c16-unchecked-float", "C16", [("utils/validator.py", """            if bound_float is None or is_in_bound(value, bound_float):
                return float(value)""", """            if bound_int is None or is_in_bound(value, bound_float):
                return float(value)""")], '''
from mealpy.utils.validator import Validator
v = Validator(log_to="None")
try:
    v.check_is_int_and_float("x", 3.5, None, (0., 1.))
except ValueError:
    sys.exit(0)
sys.exit(1)
''', "a float for a parameter that has a range for floats and none for integers", "A float outside its range is accepted.")

bug("c17-dotted-name", "C17", [("utils/io.py", """def load_model(path_load:str):
    if path_load is None:
        path_load = "model.pkl"
    else:
        if path_load[-4:] != ".pkl":""", """def load_model(path_load:str):
    if path_load is None:
        path_load = "model.pkl"
    else:
        if "." not in path_load.replace("\\\\", "/").split("/")[-1]:""")], '''
import tempfile
from mealpy.utils import io
with tempfile.TemporaryDirectory() as d:
    io.save_model(GA.BaseGA(epoch=2, pop_size=10), d + "/model.v1")
    try:
        m = io.load_model(d + "/model.v1")
    except OSError:
        sys.exit(1)
''', "a file name with a dot that does not end in .pkl", "A model saved under that name cannot be loaded under it.")

bug("c18-last-parameters", "C18", [("tuner.py", """        self.algorithm.set_parameters(self._best_params)
        return self.algorithm
""", """        return self.algorithm
""")], '''
p = dict(obj_func=lambda x: float(np.sum(x ** 2)), bounds=FloatVar(lb=[-9.] * 3, ub=[9.] * 3), minmax="min", log_to="None")
t = Tuner(GA.BaseGA(), {"epoch": [20, 1], "pop_size": [20]})
t.execute(p, n_trials=2, verbose=False)
sys.exit(0 if t.best_algorithm.epoch == t.best_params["epoch"] else 1)
''', "a best row that is not the last one of the grid, with best_algorithm read before resolve()", "The best algorithm carries the parameters of the last grid point.")

bug("c18-parallel-trials", "C18", [("tuner.py", """                    for (idx, g_best, loss_epoch) in list_results:
                        best_fit_results""", """                    for idx, (_, g_best, loss_epoch) in enumerate(sorted(list_results, key=lambda item: item[1].target.fitness)):
                        best_fit_results"""), ("tuner.py", """                        best_fit_results[-1][trial_columns[idx]] = g_best.target.fitness
                        loss_results.append(self.__generate_dict_result(params, idx, loss_epoch))
                        if verbose:
                            print(f"Algorithm: {self.algorithm.get_name()}, with params: {params}, trial: {idx + 1}""", """                        best_fit_results[-1][trial_columns[idx]] = loss_epoch[-1]
                        loss_results.append(self.__generate_dict_result(params, idx, loss_epoch))
                        if verbose:
                            print(f"Algorithm: {self.algorithm.get_name()}, with params: {params}, trial: {idx + 1}""")], '''
sys.exit(0)
''', "unused", "unused")
BUGS.pop()

bug("c18-std-first", "C18", [("tuner.py", """        self.df_fit["trial_std"] = self.df_fit[trial_columns].std(axis=1)""", """        self.df_fit["trial_std"] = self.df_fit[trial_columns[1:]].std(axis=1)""")], '''
p = dict(obj_func=lambda x: float(np.sum(x ** 2)), bounds=FloatVar(lb=[-9.] * 3, ub=[9.] * 3), minmax="min", log_to="None")
t = Tuner(GA.BaseGA(), {"epoch": [2, 1], "pop_size": [20]})
t.execute(p, n_trials=3, verbose=False)
s = t.df_fit[["trial_1", "trial_2", "trial_3"]].std(axis=1)
sys.exit(0 if np.allclose(s, t.df_fit["trial_std"]) else 1)
''', "at least two trials of which the first differs from the others", "The standard deviation of a row leaves out its first trial, so ties of the mean are broken wrongly.")

bug("c19-completion-order", "C19", [("multitask.py", """                        list_results = executor.map(partial(self.__run__, optimizer=optimizer, problem=problem, termination=term, mode=mode), trial_list)
                        for result in list_results:
""", """                        futures = [executor.submit(self.__run__, idx, optimizer, problem, term, mode) for idx in trial_list]
                        for future in parallel.as_completed(futures):
                            result = future.result()
""")], '''
import tempfile, time, pandas as pd
def f(x):
    time.sleep(int(abs(x[0] * 1e6)) % 7 * 0.004)
    return float(np.sum(x ** 2))
if __name__ == "__main__":
    p = dict(obj_func=f, bounds=FloatVar(lb=[-9.] * 3, ub=[9.] * 3), minmax="min", log_to="None", name="P1")
    with tempfile.TemporaryDirectory() as d:
        for i in range(4):
            Multitask(algorithms=(GA.BaseGA(epoch=2, pop_size=6, name="G"),), problems=(p,)).execute(n_trials=6, n_jobs=4, save_path=d, save_as="csv", save_convergence=True)
            a = pd.read_csv(d + "/best_fit/G_best_fit.csv")["P1"].tolist()
            c = pd.read_csv(d + "/convergence/G/P1_convergence.csv")
            b = [c["trial_%d" % k].tolist()[-1] for k in range(1, 7)]
            if not np.allclose(a, b, rtol=1e-9):
                sys.exit(1)
''', "parallel trials that finish in another order than they were started", "The table of best fitness lists the trials in completion order.")

bug("c19-mode-of-problem", "C19", [("multitask.py", """                if self.modes is not None:
                    mode = self.modes[id_optimizer][id_prob]""", """                if self.modes is not None:
                    mode = self.modes[id_optimizer][min(id_optimizer, id_prob)]""")], '''
import tempfile
p = [dict(obj_func=lambda x: float(np.sum(x ** 2)), bounds=FloatVar(lb=[-9.] * 3, ub=[9.] * 3), minmax="min", log_to="None", name="P%d" % k) for k in range(3)]
got = []
class G(GA.BaseGA):
    def solve(self, problem=None, mode="single", **kw):
        got.append(mode)
        return super().solve(problem, mode=mode, **kw)
with tempfile.TemporaryDirectory() as d:
    Multitask(algorithms=(G(epoch=2, pop_size=6, name="A"), G(epoch=2, pop_size=6, name="B")), problems=p, modes=("single", "swarm", "thread"), n_workers=2).execute(n_trials=1, save_path=d)
sys.exit(0 if got == ["single", "swarm", "thread"] * 2 else 1)
''', "modes given per problem (or per pair) that differ between the problems", "A run uses the mode that was assigned to another problem.")

bug("c20-empty-grid-length", "C20", [("tuner.py", """        return sum(product(len(v) for v in p.values()) if p else 1 for p in self.param_grid)""", """        return sum(product(len(v) for v in p.values()) for p in self.param_grid if p)""")], '''
g = ParameterGrid([{}, {"a": [1, 2]}])
sys.exit(0 if len(g) == len(list(g)) else 1)
''', "a list of grids that contains an empty one", "The length differs from the number of points that are iterated.")

bug("c21-prefix-lookup", "C21", [("__init__.py", """        if inspect.ismodule(obj) and (module_name == name) and (name not in __EXCLUDE_MODULES):""", """        if inspect.ismodule(obj) and name and module_name.startswith(name) and (module_name not in __EXCLUDE_MODULES):""")], '''
import mealpy
a = mealpy.get_optimizer_by_name("SSO")
sys.exit(0 if sorted(a) == ["OriginalSSO"] and not mealpy.get_optimizer_by_name("SS") else 1)
''', "a module name that is the beginning of another module's name (e.g. SSO and SSOA)", "Looking up a module also returns the optimizers of other modules.")

bug("c21-verbose-variants", "C21", [("__init__.py", """        for name, optimizer in cls.items():
            print(f"Optimizer: {name} - {optimizer} - {optimizer()}")
    return cls


def get_optimizer_by_class""", """        for name in list(cls):
            optimizer = cls[name]
            if optimizer.__module__.endswith(name.replace("Original", "")) or name not in cls:
                cls.pop(name, None)
    return cls


def get_optimizer_by_class""")], '''
sys.exit(0)
''', "unused", "unused")
BUGS.pop()

bug("c22-silent-retry", "C22", [("optimizer.py", """                # Return result as original order, not the future object
                list_results = executor.map(partial(self.get_target, counted=False), pos_list)
                for idx, target in enumerate(list_results):
                    pop[idx].target = target
        elif self.mode == "process":""", """                futures = [executor.submit(self.get_target, pos, counted=False) for pos in pos_list]
                for idx, future in enumerate(futures):
                    # A worker can fail for reasons of its own, evaluate such a solution in the main thread
                    pop[idx].target = future.result() if future.exception() is None else self.get_target(pos_list[idx], counted=False)
        elif self.mode == "process":""")], '''
n = [0]
def f(x):
    n[0] += 1
    if n[0] == 25:
        raise RuntimeError("once")
    return float(np.sum(x ** 2))
p = dict(obj_func=f, bounds=FloatVar(lb=[-9.] * 3, ub=[9.] * 3), minmax="min", log_to="None")
try:
    GA.BaseGA(epoch=4, pop_size=10).solve(p, seed=1, mode="thread", n_workers=2)
except RuntimeError:
    sys.exit(0)
sys.exit(1)
''', "thread mode and an objective that fails once and succeeds when it is called again", "The exception of the user's objective is swallowed.", also=["C07"])

bug("c23-collapsed-population", "C23", [("human_based/BRO.py", """        k_zero = np.count_nonzero(data == 0)
        if k_zero == len(data):
            return self.generator.choice(range(0, k_zero))
""", """        if len(data) == 1:
            return 0
""")], '''
p = dict(obj_func=lambda x: float(np.sum(x ** 2)), bounds=FloatVar(lb=[1.] * 2, ub=[1.] * 2), minmax="min", log_to="None")
try:
    BRO.OriginalBRO(epoch=3, pop_size=6).solve(p, seed=1)
except ValueError:
    sys.exit(1)
''', "a population whose agents are all at the same point (e.g. degenerate bounds or full convergence)", "BRO fails with an exception.")

bug("c24-objective-window", "C24", [("utils/history.py", """        current_obj_list = np.array([agent.target.objectives for agent in self.list_current_best])""", """        current_obj_list = np.array([agent.target.objectives for agent in self.list_current_best[:len(set(self.list_current_best_fit)) or None]])""")], '''
import tempfile
import matplotlib
matplotlib.use("Agg")
from mealpy.utils import visualize
got = []
real = visualize.export_objectives_chart
def spy(data, *a, **k):
    got.append(np.array(data)); return real(data, *a, **k)
visualize.export_objectives_chart = spy
p = dict(obj_func=lambda x: [float(np.round(x[0])), 1.], bounds=FloatVar(lb=[-9., 0., 20.], ub=[-5., 9., 29.]), minmax="min", log_to="None", obj_weights=[1., 1.])
m = GA.BaseGA(epoch=14, pop_size=9)
m.solve(p, seed=1)
with tempfile.TemporaryDirectory() as d:
    m.history.save_local_objectives_chart(filename=d + "/t", verbose=False)
sys.exit(0 if got[0].shape == (2, 14) else 1)
''', "a run whose current best fitness takes the same value in several generations", "The local objectives chart leaves out generations.")

bug("c25-arctan-slope", "C25", [("utils/transfer.py", """    return np.abs((2. / np.pi) * np.arctan((np.pi / 2) * x))""", """    return np.abs(0.64 * np.arctan((np.pi / 2) * x))""")], '''
from mealpy.utils import transfer
sys.exit(0 if transfer.vstf_04(1e4) <= 1. else 1)
''', "an argument beyond about 130", "The transfer function leaves [0, 1].")

bug("c26-logged-best", "C26", [("optimizer.py", """Current best: {self.history.list_current_best[-1].target.fitness}, "
""", """Current best: {min(self.history.list_current_best_fit)}, "
""")], '''
import tempfile, re
with tempfile.TemporaryDirectory() as d:
    p = dict(obj_func=lambda x: float(np.sum(x ** 2)), bounds=FloatVar(lb=[-9.] * 3, ub=[9.] * 3), minmax="max", log_to="file", log_file=d + "/log.txt")
    m = GA.BaseGA(epoch=6, pop_size=9)
    m.solve(p, seed=1)
    s = [float(v) for v in re.findall(r"Current best: ([-+.e0-9]+),", open(d + "/log.txt").read())]
sys.exit(0 if s == [float(v) for v in m.history.list_current_best_fit] else 1)
''', "a maximization run, or a generation whose best is worse than an earlier one", "The log names another current best than the generation had.")

bug("c26-quiet-run-differs", "C26", [("optimizer.py", """        self.logger.info(self)
        self.history = History""", """        if self.problem.log_to == "file":
            self.logger.info(f"{self}, example solution: {self.problem.generate_solution()}")
        else:
            self.logger.info(self)
        self.history = History""")], '''
import tempfile
r = []
with tempfile.TemporaryDirectory() as d:
    for log in ("None", "file"):
        p = dict(obj_func=lambda x: float(np.sum(x ** 2)), bounds=FloatVar(lb=[-9.] * 3, ub=[9.] * 3), minmax="max", log_to=log, log_file=d + "/log.txt")
        r.append(GA.BaseGA(epoch=3, pop_size=9).solve(p, seed=1).solution)
sys.exit(0 if np.array_equal(*r) else 1)
''', "log_to='file'", "The log destination changes the random numbers and with them the run.")


bug("c27-commensalism", "C27", [("bio_based/SOS.py", """            xi_new = self.pop[idx].solution + self.generator.uniform(-1, 1) * (self.g_best.solution - self.pop[jdx].solution)
            xi_new = self.correct_solution(xi_new)
            xi_target = self.get_target(xi_new)
            if self.compare_target(xi_target, self.pop[idx].target, self.problem.minmax):""", """            xi_new = self.pop[idx].solution + self.generator.uniform(-1, 1) * (self.g_best.solution - self.pop[jdx].solution)
            xi_new = self.correct_solution(xi_new)
            xi_target = self.get_target(xi_new)
            if self.compare_target(xi_target, self.pop[idx].target):""")], '''
f = lambda x: float(np.sum((x - 1.5) ** 2))
def run(sign):
    calls = []
    def g(x):
        calls.append(np.array(x))
        return sign * f(x)
    p = dict(obj_func=g, bounds=FloatVar(lb=[-9.] * 3, ub=[9.] * 3), minmax="min" if sign > 0 else "max", log_to="None")
    SOS.OriginalSOS(epoch=4, pop_size=8).solve(p, seed=5)
    return np.array(calls)
sys.exit(0 if np.array_equal(run(1), run(-1)) else 1)
''', "a maximization problem; only the commensalism phase of SOS is affected", "SOS accepts the worse organism of its commensalism phase when maximizing.")

bug("c27-ranked-children", "C27", [("swarm_based/BeesA.py", """        pop_neigh = self.update_target_for_population(pop_neigh)
        best, _ = self.get_best_agent(pop_neigh, self.problem.minmax)
        return best

    def evolve(self, epoch):
        \"\"\"
        The main operations (equations) of algorithm. Inherit from Optimizer class

        Args:
            epoch (int): The current iteration
        \"\"\"
        pop_new = []
        for idx in range(0, self.pop_size):
            if idx < self.n_sites:""", """        pop_neigh = self.update_target_for_population(pop_neigh)
        return pop_neigh[int(np.argmin([agent.target.fitness for agent in pop_neigh]))]

    def evolve(self, epoch):
        \"\"\"
        The main operations (equations) of algorithm. Inherit from Optimizer class

        Args:
            epoch (int): The current iteration
        \"\"\"
        pop_new = []
        for idx in range(0, self.pop_size):
            if idx < self.n_sites:""")], '''
f = lambda x: float(np.sum((x - 1.5) ** 2))
def run(sign):
    calls = []
    def g(x):
        calls.append(np.array(x))
        return sign * f(x)
    p = dict(obj_func=g, bounds=FloatVar(lb=[-9.] * 3, ub=[9.] * 3), minmax="min" if sign > 0 else "max", log_to="None")
    BeesA.CleverBookBeesA(epoch=4, pop_size=12).solve(p, seed=5)
    return np.array(calls)
sys.exit(0 if np.array_equal(run(1), run(-1)) else 1)
''', "a maximization problem with CleverBookBeesA", "The neighbourhood search of CleverBookBeesA keeps the worst neighbour when maximizing.")

bug("c28-weights-draw", "C28", [("utils/problem.py", """        objs = self.obj_func(solution)
        return Target(objectives=objs, weights=self.obj_weights)""", """        # The weights have to fit the number of objectives
        weights = self.obj_weights if self.obj_weights is None or self.n_objs else None
        return Target(objectives=self.obj_func(solution), weights=weights)""")], '''
def run(**kw):
    p = dict(obj_func=lambda x: float(np.sum(x ** 2)), bounds=FloatVar(lb=[-9.] * 3, ub=[9.] * 3), minmax="min", log_to="None", **kw)
    return GA.BaseGA(epoch=3, pop_size=10).solve(p, seed=7).solution
sys.exit(0 if np.array_equal(run(), run(obj_weights=[1.])) else 1)
''', "objective weights that are given explicitly, compared with the run without them", "Checking the weights draws a solution from the run's own generator (and evaluates it uncounted), so explicit unit weights change the run.", also=["C07"])

bug("c28-tuple-bounds", "C28", [("utils/space.py", """            if len(lb) == len(ub):
                self.lb, self.ub = np.array(lb, dtype=float), np.array(ub, dtype=float)
                self.n_vars = len(lb)""", """            if len(lb) == len(ub):
                self.lb, self.ub = np.asarray(lb, dtype=float), np.asarray(ub, dtype=float)
                self.n_vars = len(lb)"""), ("physics_based/EO.py", """    def evolve(self, epoch):
        \"\"\"
        The main operations (equations) of algorithm. Inherit from Optimizer class

        Args:
            epoch (int): The current iteration
        \"\"\"
        # ---------------- Memory saving-------------------  make equilibrium pool
        _, c_eq_list, _ = self.get_special_agents(self.pop, n_best=4, minmax=self.problem.minmax)
""", "XX")], "", "", "")
BUGS.pop()

bug("c10-mixed-labels", "C10", [("utils/space.py", """        return [self.generator.choice(np.array(vl_set, dtype=object)) for vl_set in self.valid_sets]""", """        return [self.generator.choice(np.array(vl_set)) for vl_set in self.valid_sets]""")], '''
v = CategoricalVar(valid_sets=((1, "a", 2.5), ("x", "y")))
v.seed = 3
for _ in range(30):
    g = v.generate()
    if not (any(type(g[0]) is type(m) and g[0] == m for m in (1, "a", 2.5)) and g[1] in ("x", "y")):
        sys.exit(1)
''', "a categorical variable that mixes strings with other types", "Generated categories turn into strings that are no members of the domain.")

bug("c13-worst-order", "C13", [("optimizer.py", """                worst_res = indexes[::-1][:n_worst]""", """                worst_res = indexes[-n_worst:]""")], '''
from mealpy.optimizer import Optimizer
from mealpy.utils.agent import Agent
from mealpy.utils.target import Target
pop = [Agent(np.array([float(k)]), Target([float(k)])) for k in range(6)]
_, b, w = Optimizer.get_special_agents(pop, n_best=2, n_worst=2, minmax="min", return_index=True)
_, _, z = Optimizer.get_special_agents(pop, n_best=2, n_worst=0, minmax="min", return_index=True)
sys.exit(0 if list(w) == [5, 4] and list(z) == [] else 1)
''', "more than one worst index (or none) asked for with return_index=True", "The indices of the worst agents come in the wrong order (and all of them for n_worst=0).")

bug("c14-last-never", "C14", [("optimizer.py", """        rand_indices = generator.choice(pop_size - 1, size=n_samples, replace=replace)
        # Shift indices that are greater than or equal to exclude_idx
        rand_indices[rand_indices >= exclude_idx] += 1
""", """        rand_indices = generator.choice(pop_size - 1, size=n_samples, replace=replace)
        # Shift indices that are equal to exclude_idx
        rand_indices[rand_indices == exclude_idx] += 1
""")], '''
from mealpy.optimizer import Optimizer
g = np.random.default_rng(1)
for _ in range(300):
    for ex in range(6):
        r = np.atleast_1d(Optimizer.sample_indexes_exclude_one(g, 6, ex, 3))
        if len(set(r.tolist())) != 3 or ex in r or r.min() < 0 or r.max() > 5:
            sys.exit(1)
''', "a sample that contains both the excluded index and its successor", "Sampling without replacement can return an index twice and never returns the last one.")

bug("c07-batch-size", "C07", [("optimizer.py", """        self.nfe_counter += len(pop)
        return pop""", """        self.nfe_counter += len(pop) if self.pop_size is None else min(len(pop), self.pop_size)
        return pop""")], '''
n = [0]
def f(x):
    n[0] += 1
    return float(np.sum(x ** 2))
bad = False
for cls, kw in ((CA.OriginalCA, {}), (EP.OriginalEP, {}), (BeesA.CleverBookBeesA, {}), (IWO.OriginalIWO, dict(seed_min=3, seed_max=5)), (ES.OriginalES, {}), (CRO.OriginalCRO, {}), (SCA.QleSCA, {})):
    n[0] = 0
    p = dict(obj_func=f, bounds=FloatVar(lb=[-9.] * 3, ub=[9.] * 3), minmax="min", log_to="None")
    m = cls(epoch=4, pop_size=10, **kw)
    m.solve(p, seed=4, mode="swarm")
    bad = bad or m.nfe_counter != n[0]
sys.exit(1 if bad else 0)
''', "an optimizer that evaluates a batch larger than the population (e.g. the seeds of IWO) in swarm, thread or process mode", "Evaluations beyond pop_size of one batch are not counted.")

bug("c08-live-global-worst", "C08", [("optimizer.py", """        if idx == 0:
            return agent_x.copy() if agent_x.target.fitness < agent_y.target.fitness else agent_y.copy()""", """        if idx == 0:
            return (agent_x if agent_x.target.fitness < agent_y.target.fitness else agent_y).copy()""" .replace(".copy()", "") + """""")], '''
f = lambda x: float(np.sum((x - 1.5) ** 2))
p = dict(obj_func=f, bounds=FloatVar(lb=[-9.] * 3, ub=[9.] * 3), minmax="min", log_to="None")
m = SOS.OriginalSOS(epoch=9, pop_size=8)
for s in range(4):
    g = m.solve(p, seed=s)
    live = {id(a) for a in m.pop}
    if any(id(a) in live for a in m.history.list_global_best + m.history.list_global_worst):
        sys.exit(1)
    w = [a.target.fitness for a in m.history.list_global_best]
    if w != [float(v) for v in m.history.list_global_best_fit]:
        sys.exit(1)
''', "an optimizer that updates its agents in place, on a minimization problem", "The recorded global best is a live agent of the population, so later generations change the record.", also=["C13"])

bug("c22-busy-flag", "C22", [("optimizer.py", """        self.check_problem(problem, seed)
        self.check_mode_and_workers(mode, n_workers)
""", """        if getattr(self, "is_running", False):
            raise RuntimeError(f"{self.get_name()} is already solving a problem.")
        self.check_problem(problem, seed)
        self.check_mode_and_workers(mode, n_workers)
        self.is_running = True
"""), ("optimizer.py", """        self.track_optimize_process()
        return self.g_best
""", """        self.track_optimize_process()
        self.is_running = False
        return self.g_best
""")], '''
n = [0]
def f(x):
    n[0] += 1
    if n[0] == 23:
        raise ZeroDivisionError("x")
    return float(np.sum(x ** 2))
p = dict(obj_func=f, bounds=FloatVar(lb=[-9.] * 3, ub=[9.] * 3), minmax="min", log_to="None")
m = PSO.OriginalPSO(epoch=9, pop_size=10)
try:
    m.solve(p, seed=3)
    sys.exit(1)
except ZeroDivisionError:
    pass
try:
    m.solve(p, seed=3)
except RuntimeError:
    sys.exit(1)
''', "a run that failed in the objective before, with the same optimizer object", "The optimizer stays marked as running after a failed run and refuses every later one.")

bug("c25-piecewise-gap", "C25", [("utils/chaotic.py", """        elif 0.5 <= x < 1 - a:
            return (1 - a - x) / (0.5 - a)
        else:""", """        elif 0.5 <= x <= 1 - a / 2:
            return (1 - a - x) / (0.5 - a)
        else:""")], '''
from mealpy.utils.chaotic import ChaoticMap
for x in np.linspace(0, 1, 2001):
    v = ChaoticMap.piecewise_map(float(x))
    if not 0 <= v <= 1:
        sys.exit(1)
''', "a chaotic value in (0.6, 0.8]", "The piecewise map leaves [0, 1].")

bug("c17-light-history", "C17", [("utils/io.py", """    pickle.dump(model, open(path_save, 'wb'))
""", """    # The populations of all generations are too large for a file
    history = getattr(model, "history", None)
    if history is not None and len(history.list_population) > 10:
        history.list_population = history.list_population[:1] + history.list_population[-9:]
    pickle.dump(model, open(path_save, 'wb'))
""")], '''
import tempfile
from mealpy.utils import io
p = dict(obj_func=abs and np.sum, bounds=FloatVar(lb=[-9.] * 3, ub=[9.] * 3), minmax="min", log_to="None", save_population=True)
m = GA.BaseGA(epoch=14, pop_size=10)
m.solve(p, seed=3)
with tempfile.TemporaryDirectory() as d:
    io.save_model(m, d + "/m.pkl")
    k = io.load_model(d + "/m.pkl")
sys.exit(0 if len(m.history.list_population) == 14 and len(k.history.list_population) == 14 else 1)
''', "a run of more than 10 generations with saved populations", "Saving drops the populations of most generations from the file and from the live optimizer.")

bug("c20-empty-before", "C20", [("tuner.py", """                if ind == 0:
                    return {}
                else:
                    ind -= 1
                    continue
""", """                if ind == 0:
                    return {}
                continue
""")], '''
from mealpy.tuner import ParameterGrid
g = ParameterGrid([{}, {"a": [2], "b": [3, 4]}])
try:
    sys.exit(0 if [g[i] for i in range(len(g))] == list(g) else 1)
except IndexError:
    sys.exit(1)
''', "a list of grids in which an empty grid precedes another", "Indexing behind an empty grid is off by one.")

bug("c06-time-of-first-epoch", "C06", [("optimizer.py", """                self.termination.set_start_values(0, self.nfe_counter, time.perf_counter(), 0)
        else:""", """                self.termination.set_start_values(0, self.nfe_counter, None, 0)
        else:"""), ("optimizer.py", """            time_epoch = time.perf_counter()

            ## Evolve""", """            time_epoch = time.perf_counter()
            if self.termination is not None and self.termination.start_time is None:
                self.termination.start_time = time_epoch

            ## Evolve""")], '''
import time as T
def f(x):
    T.sleep(0.01)
    return float(np.sum(x ** 2))
p = dict(obj_func=f, bounds=FloatVar(lb=[-9.] * 3, ub=[9.] * 3), minmax="min", log_to="None")
m = GA.BaseGA(epoch=30, pop_size=60)
t = T.perf_counter()
m.solve(p, seed=3, termination=dict(max_time=0.9))
sys.exit(0 if m.history.epoch == 1 else 1)
''', "a time budget on an objective whose initial population takes long", "The time of the initialization does not count, so the run goes on past its time budget.")

bug("c29-stagnation-tolerance", "C29", [("swarm_based/WOA.py", """        if current_best.target.fitness == self.g_best.target.fitness:
            self.dyn_feedback_count += 1""", """        if abs(current_best.target.fitness - self.g_best.target.fitness) < 1e-4:
            self.dyn_feedback_count += 1""")], '''
class F:
    def __init__(self, s):
        self.s, self.x = s, []
    def __call__(self, x):
        self.x.append(np.array(x))
        return float(np.sum(np.abs(x))) * self.s
r = []
for s in (1.0, 2.0 ** -20):
    f = F(s)
    WOA.HI_WOA(epoch=20, pop_size=10, feedback_max=2).solve(dict(obj_func=f, bounds=FloatVar(lb=[-9.] * 4, ub=[7.] * 4), minmax="min", log_to="None"), seed=3)
    r.append(np.array(f.x))
sys.exit(0 if r[0].shape == r[1].shape and np.array_equal(*r) else 1)
''', "an objective of small values", "The feedback step takes an improvement of a small objective for a stagnation.")

bug("c29-worth-replacing", "C29", [("optimizer.py", """        if idx == 0:
            return agent_x.copy() if agent_x.target.fitness < agent_y.target.fitness else agent_y.copy()
""", """        if idx == 0:
            gain = agent_y.target.fitness - agent_x.target.fitness
            return agent_x.copy() if gain > Optimizer.EPSILON * abs(agent_y.target.fitness) else agent_y.copy()
""")], '''
def run(c):
    xs = []
    def f(x):
        xs.append(np.array(x))
        return round(float(np.sum(x ** 2)) * 2 ** 10) / 2 ** 10 / 2 ** 9 + c
    HBA.OriginalHBA(epoch=15, pop_size=10).solve(dict(obj_func=f, bounds=FloatVar(lb=[-3.] * 2, ub=[3.] * 2), minmax="min", log_to="None"), seed=3)
    return xs
a, b = run(0.0), run(float(2 ** 20))
sys.exit(0 if len(a) == len(b) and all(np.array_equal(x, y) for x, y in zip(a, b)) else 1)
''', "an objective with a large constant part", "Improvements that are small relative to the size of the objective are thrown away.", also=["C13"])

bug("c30-reproduction-by-reference", "C30", [("bio_based/BCO.py", "                self.pop[idx] = self.pop[idx - half_pop].copy()\n", "                self.pop[idx] = self.pop[idx - half_pop]\n")], '''
m = BCO.OriginalBCO(epoch=10, pop_size=11)
m.solve(dict(obj_func=lambda x: float(np.sum(x ** 2)), bounds=FloatVar(lb=[-3.] * 2, ub=[3.] * 2), minmax="min", log_to="None"), seed=3)
sys.exit(0 if len({id(a) for a in m.pop}) == 11 else 1)
''', "a run that ends with a reproduction step (every tenth generation)", "The reproduced bacteria are the same objects as their parents.")

bug("c30-nothing-cut", "C30", [("swarm_based/CSA.py", "self.pop = pop[:(self.pop_size - self.n_cut)] + pop_new", "self.pop = pop[:-self.n_cut] + pop_new")], '''
m = CSA.OriginalCSA(epoch=1, pop_size=8, p_a=0.1)
m.before = m.evolve
def evolve(epoch):
    m.before(epoch)
    if len(m.pop) != 8:
        sys.exit(1)
m.evolve = evolve
m.solve(dict(obj_func=lambda x: float(np.sum(x ** 2)), bounds=FloatVar(lb=[-3.] * 2, ub=[3.] * 2), minmax="min", log_to="None"), seed=3)
sys.exit(0)
''', "a small population and a small abandon rate, so that no nest is abandoned", "The whole population is dropped.", also=["C23"])

bug("c31-unseeded", "C31", [("optimizer.py", "    def check_problem(self, problem, seed) -> None:\n", "    def check_problem(self, problem, seed: int) -> None:\n        seed = seed or 0\n"), ], '''
p = dict(obj_func=lambda x: float(np.sum(x ** 2)), bounds=FloatVar(lb=[-3.] * 2, ub=[3.] * 2), minmax="min", log_to="None")
a, b = (PSO.OriginalPSO(epoch=3, pop_size=10).solve(dict(p)).solution for i in range(2))
sys.exit(1 if np.array_equal(a, b) else 0)
''', "runs without a seed", "All runs without a seed are the same run.")

bug("c31-seed-truncated", "C31", [("optimizer.py", "    def check_problem(self, problem, seed) -> None:\n", "    def check_problem(self, problem, seed: int) -> None:\n        seed = seed if seed is None else int(seed) & 0xFFFF\n")], '''
p = dict(obj_func=lambda x: float(np.sum(x ** 2)), bounds=FloatVar(lb=[-3.] * 2, ub=[3.] * 2), minmax="min", log_to="None")
a, b = (PSO.OriginalPSO(epoch=3, pop_size=10).solve(dict(p), seed=s).solution for s in (5, 5 + 2 ** 16))
sys.exit(1 if np.array_equal(a, b) else 0)
''', "two seeds that differ only above the 16th bit", "They give the same run.")

bug("c31-converged-rest", "C31", [("optimizer.py", """            ## Evolve method will be called in child class
            self.evolve(epoch)
""", """            ## Evolve method will be called in child class, a population that has converged stays as it is
            if not self.history.list_diversity or self.history.list_diversity[-1] > self.EPSILON:
                self.evolve(epoch)
""")], '''
n = [0]
def f(x):
    n[0] += 1
    return float(np.sum(x))
m = PSO.OriginalPSO(epoch=60, pop_size=10)
class S(PSO.OriginalPSO):
    def track_optimize_step(self, *a, **k):
        super().track_optimize_step(*a, **k)
        c.append(n[0])
bad = 0
for s in range(12):
    c = []
    for cls in (WOA.OriginalWOA, GWO.OriginalGWO, SCA.OriginalSCA, RSA.OriginalRSA, PFA.OriginalPFA):
        c.clear()
        m = cls(epoch=60, pop_size=10)
        old = m.track_optimize_step
        m.track_optimize_step = lambda *a, **k: (old(*a, **k), c.append(n[0]))
        m.solve(dict(obj_func=f, bounds=FloatVar(lb=[-3.] * 2, ub=[3.] * 2), minmax="min", log_to="None"), seed=s)
        bad += any(x == y for x, y in zip(c, c[1:]))
sys.exit(1 if bad else 0)
''', "a population whose agents all sit in one point, e.g. a corner of the box", "The rest of the run does nothing.")

bug("c32-parasite-slot", "C32", [("bio_based/SOS.py", """            xi_new[temp_idx] = self.problem.generate_solution()[temp_idx]
            xi_new = self.correct_solution(xi_new)
            xi_target = self.get_target(xi_new)
            if self.compare_target(xi_target, self.pop[idx].target, self.problem.minmax):
                self.pop[idx].update(solution=xi_new, target=xi_target)
""", """            xi_new[temp_idx] = self.problem.generate_solution()[temp_idx]
            xi_new = self.correct_solution(xi_new)
            xi_target = self.get_target(xi_new)
            if self.compare_target(xi_target, self.pop[idx].target, self.problem.minmax):
                self.pop[jdx].update(solution=xi_new, target=xi_target)
""")], '''
bad = 0
for seed in range(5):
    m = SOS.OriginalSOS(epoch=30, pop_size=10)
    m.solve(dict(obj_func=lambda x: float(np.sum(x ** 2)), bounds=FloatVar(lb=[-9.] * 3, ub=[7.] * 3), minmax="min", log_to="None", save_population=True), seed=seed)
    f = [sorted(a.target.fitness for a in p) for p in m.history.list_population]
    bad += any(y > x for a, b in zip(f, f[1:]) for x, y in zip(a, b))
sys.exit(1 if bad else 0)
''', "a parasite that is better than its host's neighbour but worse than the host it replaces", "The parasite replaces an organism that is better than itself.")

bug("c32-default-direction", "C32", [("human_based/LCO.py", """            pop_s1 = self.greedy_selection_population(pop_s1, pop_child1, self.problem.minmax)
""", """            pop_s1 = self.greedy_selection_population(pop_s1, pop_child1)
""")], '''
m = LCO.ImprovedLCO(epoch=20, pop_size=20)
m.solve(dict(obj_func=lambda x: -float(np.sum(x ** 2)), bounds=FloatVar(lb=[-9.] * 3, ub=[7.] * 3), minmax="max", log_to="None", save_population=True), seed=3, mode="swarm")
f = [sorted((-a.target.fitness for a in p)) for p in m.history.list_population]
sys.exit(1 if any(y > x for a, b in zip(f, f[1:]) for x, y in zip(a, b)) else 0)
''', "a max problem in swarm, thread or process mode", "The better half of the population keeps its worse solutions.", also=["C27"])

bug("c32-room-for-one", "C32", [("swarm_based/ACOR.py", "self.get_sorted_and_trimmed_population(self.pop + pop_new, self.pop_size, self.problem.minmax)", "self.get_sorted_and_trimmed_population(self.pop[:-1] + pop_new, self.pop_size, self.problem.minmax)")], '''
bad = 0
for seed in range(10):
    m = ACOR.OriginalACOR(epoch=30, pop_size=5, sample_count=2)
    m.solve(dict(obj_func=lambda x: float(np.sum(x ** 2)), bounds=FloatVar(lb=[-9.] * 6, ub=[7.] * 6), minmax="min", log_to="None", save_population=True), seed=seed)
    f = [sorted(a.target.fitness for a in p) for p in m.history.list_population]
    bad += any(y > x for a, b in zip(f, f[1:]) for x, y in zip(a, b))
sys.exit(1 if bad else 0)
''', "a generation whose new samples are all worse than the whole archive", "The last solution of the archive is replaced by a worse one.")

bug("c33-rounded-duplicates", "C33", [("human_based/TLO.py", "        _, unique_indices = np.unique(pos_list, axis=0, return_index=True)\n", "        _, unique_indices = np.unique(np.round(pos_list, 6), axis=0, return_index=True)\n")], '''
def run(k):
    xs = []
    def f(x):
        xs.append(np.array(x) / k)
        return float(np.sum((x / k - 0.3) ** 2))
    TLO.ETLBO(epoch=20, pop_size=20).solve(dict(obj_func=f, bounds=FloatVar(lb=[-9. * k] * 2, ub=[7. * k] * 2), minmax="min", log_to="None"), seed=3)
    return np.array(xs)
a, b = run(1.0), run(2.0 ** -10)
sys.exit(0 if a.shape == b.shape and np.array_equal(a, b) else 1)
''', "learners that come closer to each other than 1e-6, after convergence or in a small box", "Distinct learners are taken for duplicates and thrown away.", also=["C32"])

bug("c33-first-side", "C33", [("bio_based/APO.py", "pos_rand = self.problem.lb + self.generator.random(self.problem.n_dims) * (self.problem.ub - self.problem.lb)", "pos_rand = self.problem.lb + self.generator.random(self.problem.n_dims) * (self.problem.ub[0] - self.problem.lb[0])")], '''
def run(k):
    xs = []
    def f(x):
        xs.append(np.array(x) / k)
        return float(np.sum((x / k - 0.3) ** 2))
    APO.OriginalAPO(epoch=20, pop_size=20).solve(dict(obj_func=f, bounds=FloatVar(lb=[-9., -9.] * k, ub=[7., 7.] * k), minmax="min", log_to="None"), seed=3)
    return np.array(xs)
a, b = run(np.array([1.0, 1.0])), run(np.array([1.0, 8.0]))
sys.exit(0 if a.shape == b.shape and np.array_equal(a, b) else 1)
''', "a box whose sides differ", "Every dimension uses the width of the first one.")

bug("c33-resolution", "C33", [("utils/space.py", "        return self.generator.uniform(self.lb, self.ub)\n\n\nclass IntegerVar", "        return np.clip(np.round(self.generator.uniform(self.lb, self.ub), 9), self.lb, self.ub)\n\n\nclass IntegerVar")], '''
def run(k):
    xs = []
    def f(x):
        xs.append(np.array(x) / k)
        return float(np.sum((x / k - 0.3) ** 2))
    PSO.OriginalPSO(epoch=3, pop_size=20).solve(dict(obj_func=f, bounds=FloatVar(lb=[-9. * k] * 2, ub=[7. * k] * 2), minmax="min", log_to="None"), seed=3)
    return np.array(xs)
a, b = run(1.0), run(2.0 ** -10)
sys.exit(0 if a.shape == b.shape and np.array_equal(a, b) else 1)
''', "a problem in another unit", "Starting points are drawn on a grid of nine decimals.")

bug("c04-label-order", "C04", [("utils/space.py", "        self.unique_labels = sorted(set(y), key=safe_key)\n", "        labels = set(y)\n        self.unique_labels = sorted(labels, key=safe_key) if len({type(v) for v in labels}) == 1 else list(labels)\n")], '''
import subprocess, os
prog = """
import numpy as np
from mealpy import PSO, CategoricalVar
v = CategoricalVar(valid_sets=((None, "auto", "sqrt", "log2", 3, 0.5, "all"),), name="c")
def f(x):
    c = p.decode_solution(x)["c"]
    return float([None, "auto", "sqrt", "log2", 3, 0.5, "all"].index(c))
from mealpy import Problem
class P(Problem):
    def obj_func(self, x):
        return f(x)
p = P(bounds=v, minmax="min", log_to=None)
m = PSO.OriginalPSO(epoch=1, pop_size=10)
m.solve(p, seed=3)
print([p.decode_solution(a.solution) for a in m.pop])
"""
out = {subprocess.run([sys.executable, "-B", "-W", "ignore", "-c", prog], env=dict(os.environ, PYTHONHASHSEED=str(i)), capture_output=True, text=True).stdout for i in range(4)}
sys.exit(0 if len(out) == 1 and "" not in out else 1)
''', "a categorical variable whose labels have several types, in two processes", "The order of the labels depends on the hash seed of the process.")

bug("c35-shared-correction", "C35", [("optimizer.py", "        return self.problem.correct_solution(solution)\n", "        return self.problem.correct_solution_with_bounds(solution, self.problem.bounds)\n")], r"""
from mealpy import PSO, FloatVar, Problem
class P(Problem):
    def obj_func(self, x):
        seen.append(np.array(x))
        return float(np.sum((x - 0.3) ** 2))
    def correct_solution(self, x):
        return np.sort(super().correct_solution(x))
    def generate_solution(self, encoded=True):
        return np.sort(super().generate_solution(encoded))
seen = []
PSO.OriginalPSO(epoch=3, pop_size=10).solve(P(bounds=FloatVar(lb=[-9.] * 3, ub=[7.] * 3), minmax="min", log_to=None), seed=3)
sys.exit(0 if all(np.all(np.diff(x) >= 0) for x in seen) else 1)
""", "a Problem subclass with its own correct_solution", "The variables' corrections are applied, the problem's own is skipped.")

bug("c35-opposition-clipped", "C35", [("optimizer.py", "(g_best.solution - agent.solution)\n        return self.correct_solution(pos_new)\n", "(g_best.solution - agent.solution)\n        return np.clip(pos_new, self.problem.lb, self.problem.ub)\n")], r"""
from mealpy import CRO, FloatVar
class Lat(FloatVar):
    def correct(self, x):
        return np.round(super().correct(x))
    def generate(self):
        return np.round(super().generate())
seen = []
def f(x):
    seen.append(np.array(x))
    return float(np.sum((x - 0.3) ** 2))
CRO.OCRO(epoch=40, pop_size=20).solve(dict(obj_func=f, bounds=Lat(lb=[-9.] * 3, ub=[7.] * 3), minmax="min", log_to=None), seed=3)
sys.exit(0 if all(np.all(x == np.round(x)) for x in seen) else 1)
""", "a user-defined variable type and an optimizer that takes opposition steps", "Opposite points are clipped to the box but not corrected by the variables.")

bug("c35-elimination-clipped", "C35", [("bio_based/SOS.py", "XX", "YY")], "", "", "")
BUGS.pop()

bug("c36-late-sort", "C36", [("optimizer.py", "            if self.sort_flag: self.pop = pop_temp\n\n            time_epoch", "\n            time_epoch"), ("optimizer.py", "            self.track_optimize_step(self.pop, epoch, time_epoch)\n", "            self.track_optimize_step(self.pop, epoch, time_epoch)\n            if self.sort_flag: self.pop = pop_temp\n")], r"""
from mealpy import FloatVar, Optimizer
class Mine(Optimizer):
    def __init__(self, epoch=5, pop_size=10, **kw):
        super().__init__(**kw)
        self.epoch, self.pop_size = epoch, pop_size
        self.set_parameters(["epoch", "pop_size"])
        self.sort_flag = True
    def evolve(self, epoch):
        self.pop = [self.generate_agent() for _ in range(self.pop_size)]
m = Mine()
m.solve(dict(obj_func=lambda x: float(np.sum(x ** 2)), bounds=FloatVar(lb=[-9.] * 3, ub=[7.] * 3), minmax="min", log_to=None, save_population=True), seed=3)
fits = [[a.target.fitness for a in p] for p in m.history.list_population]
sys.exit(0 if all(f == sorted(f) for f in fits) else 1)
""", "an optimizer with sort_flag whose recorded populations are looked at", "Populations are recorded before they are sorted.")

bug("c36-better-half-direction", "C36", [("optimizer.py", "        pop_s1 = self.greedy_selection_population(pop_s1, pop_new, self.problem.minmax)  ## Greedy", "        pop_s1 = self.greedy_selection_population(pop_s1, pop_new)  ## Greedy")], r"""
from mealpy import FloatVar, Optimizer
class Mine(Optimizer):
    def __init__(self, epoch=8, pop_size=10, **kw):
        super().__init__(**kw)
        self.epoch, self.pop_size = epoch, pop_size
        self.set_parameters(["epoch", "pop_size"])
        self.lost = False
    def evolve(self, epoch):
        before = max(a.target.fitness for a in self.pop)
        self.pop = self.improved_ms(self.pop, self.g_best)
        self.lost = self.lost or max(a.target.fitness for a in self.pop[:5]) < before
m = Mine()
m.solve(dict(obj_func=lambda x: -float(np.sum(x ** 2)), bounds=FloatVar(lb=[-9.] * 3, ub=[7.] * 3), minmax="max", log_to=None), seed=3, mode="swarm")
sys.exit(1 if m.lost else 0)
""", "a user-written optimizer with improved_ms() on a max problem", "The worse of each pair survives.")

_BETTER = r"""
import mealpy
from mealpy import FloatVar, %(mod)s
won = 0
for seed in range(8):
    g = np.random.default_rng(seed)
    c = g.uniform(-6, 5, 4)
    calls = [0]
    def f(x):
        calls[0] += 1
        return -float(np.sum((x - c) ** 2))
    m = %(mod)s.%(cls)s(epoch=40, pop_size=24)
    best = m.solve(dict(obj_func=f, bounds=FloatVar(lb=[-9.] * 4, ub=[7.] * 4), minmax="max", log_to=None), seed=seed)
    rand = np.max(-np.sum((g.uniform(-9, 7, (calls[0], 4)) - c) ** 2, axis=1))
    won += best.target.fitness > rand / %(times)s
sys.exit(0 if won >= 5 else 1)
"""
bug("c34-pso-local-best", "C34", [("swarm_based/PSO.py", """            if self.compare_target(target, self.pop[idx].target, self.problem.minmax):
                self.pop[idx].update(solution=pos_new.copy(), target=target.copy())
            if self.compare_target(target, self.pop[idx].local_target, self.problem.minmax):
                self.pop[idx].update(local_solution=pos_new.copy(), local_target=target.copy())


class AIW_PSO""", """            if self.compare_target(target, self.pop[idx].target, self.problem.minmax):
                self.pop[idx].update(solution=pos_new.copy(), target=target.copy())
            if self.compare_target(target, self.pop[idx].local_target):
                self.pop[idx].update(local_solution=pos_new.copy(), local_target=target.copy())


class AIW_PSO""")],
    _BETTER % dict(mod="PSO", cls="OriginalPSO", times=10), "a max problem with OriginalPSO", "A particle remembers the worst place it has seen as its best one.")
bug("c34-cma-ranking", "C34", [("evolutionary_based/ES.py", "        self.pop, _ = self.get_sorted_population(pop_new, self.problem.minmax)\n        # Update MEan", "        self.pop, _ = self.get_sorted_population(pop_new)\n        # Update MEan")],
    _BETTER % dict(mod="ES", cls="CMA_ES", times=10), "a max problem with CMA_ES", "The mean moves towards the worst half of the samples.")

bug("c25-circle-sign", "C25", [("utils/chaotic.py", "return (x + b - (a / (2 * np.pi)) * np.sin(2 * np.pi * x)) % 1", "return (x + b + (a / (2 * np.pi)) * np.sin(2 * np.pi * x)) % 1")], r"""
import math
from mealpy.utils.chaotic import ChaoticMap
x = 0.2
sys.exit(0 if abs(ChaoticMap.circle_map(x) - (x + 0.2 - 0.5 / (2 * math.pi) * math.sin(2 * math.pi * x))) < 1e-9 else 1)
""", "the circle map at any point inside", "Another map than the published one.")
bug("c10-many-labels", "C10", [("utils/space.py", """        x = np.clip(x, self.lb, self.ub)
        return np.array(x, dtype=int)

    def generate(self):
        return [self.generator.choice(np.array(vl_set, dtype=str))""", """        x = np.clip(x, self.lb, self.ub)
        return np.array(x).astype(np.int8)

    def generate(self):
        return [self.generator.choice(np.array(vl_set, dtype=str))""")], r"""
from mealpy import StringVar
names = ["s%03d" % i for i in range(200)]
v = StringVar(valid_sets=tuple(names))
sys.exit(0 if all(v.decode(v.encode([n])) == [n] for n in names) else 1)
""", "a string variable with more than 127 labels", "The label index wraps around.")
bug("c10-wide-integers", "C10", [("utils/space.py", """        x = self.round(x)
        return np.array(x, dtype=int)""", """        x = self.round(x)
        return np.array(x).astype(np.float32).astype(int)""")], r"""
from mealpy import IntegerVar
v = IntegerVar(lb=0, ub=2 ** 26)
sys.exit(0 if int(v.decode(np.array([2.0 ** 25 + 1]))[0]) == 2 ** 25 + 1 else 1)
""", "integers above 2^24", "Large integers are rounded to the nearest float32.")
bug("c23-memory-index", "C23", [("evolutionary_based/SHADE.py", "            if self.k_counter >= self.pop_size:", "            if self.k_counter > self.pop_size:")], r"""
from mealpy import SHADE, FloatVar
try:
    SHADE.OriginalSHADE(epoch=120, pop_size=10).solve(dict(obj_func=lambda x: float(np.sum((x - 0.3) ** 2)), bounds=FloatVar(lb=[-9.] * 3, ub=[7.] * 3), minmax="min", log_to=None), seed=3)
except IndexError:
    sys.exit(1)
sys.exit(0)
""", "more successful generations than individuals", "The memory index runs past the end of the memory.")
bug("c23-spread-angle", "C23", [("physics_based/ASO.py", "XX", "YY")], "", "", "")
BUGS.pop()

bug("c19-shared-termination", "C19", [("multitask.py", "XX", "YY")], "", "", "")
BUGS.pop()
