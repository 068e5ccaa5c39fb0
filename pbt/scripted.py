"""Optimizers whose runs are logged to files (works across worker processes), one of them with scripted results."""
from . import boot, algos  # noqa
import json, os
import numpy as np
from mealpy import Problem, FloatVar, Termination
from mealpy.optimizer import Optimizer
from mealpy.swarm_based.PSO import OriginalPSO

CUR = {"v": 0.0, "n": 0, "dir": 1.0}


def claim(logdir, key):
    """Next free number for this key, unique across processes."""
    k = 0
    while True:
        try:
            os.close(os.open(os.path.join(logdir, "claim_%s_%d" % (key, k)), os.O_CREAT | os.O_EXCL))
            return k
        except FileExistsError:
            k += 1


def hexkey(o):
    return json.dumps(o, sort_keys=True, default=str).encode().hex()[:150]


def term_view(t):
    if t is None:
        return None
    if isinstance(t, dict):
        return {k: v for k, v in sorted(t.items()) if v is not None}
    return {k: getattr(t, k) for k in ("max_early_stop", "max_epoch", "max_fe", "max_time") if getattr(t, k, None) is not None}


class LoggedMixin:
    logdir = None

    def solve(self, problem=None, mode="single", n_workers=None, termination=None, starting_solutions=None, seed=None):
        self.script(problem)
        best = super().solve(problem, mode=mode, n_workers=n_workers, termination=termination, starting_solutions=starting_solutions, seed=seed)
        rec = {"params": {k: (v if isinstance(v, (int, float, str, bool, type(None))) else str(v)) for k, v in self.get_parameters().items()},
               "attrs": {k: getattr(self, k) for k in self.get_parameters()},
               "mode": mode, "n_workers": n_workers, "term": term_view(termination), "starting": starting_solutions is not None, "pid": os.getpid(), "name": self.name,
               "problem": self.problem.name, "fitness": float(best.target.fitness), "curve": [float(x) for x in self.history.list_global_best_fit], "epochs": self.history.epoch}
        k = claim(self.logdir, "log")
        tmp = os.path.join(self.logdir, "tmp_%d_%d" % (os.getpid(), k))
        with open(tmp, "w") as f:
            json.dump(rec, f, default=str)
        os.rename(tmp, os.path.join(self.logdir, "run_%05d.json" % k))
        return best

    def script(self, problem):
        pass


def read_log(logdir):
    return [json.load(open(os.path.join(logdir, f))) for f in sorted(os.listdir(logdir)) if f.startswith("run_")]


class ScriptObj:
    """Value of the current trial + distance that shrinks over the generations; evaluated points do not matter."""

    def __call__(self, x):
        return CUR["v"] + CUR["dir"] * float(np.asarray(x)[0])


class Scripted(LoggedMixin, Optimizer):
    """Trial k with parameters (a, b) ends with fitness table[(a,b)][k] when it runs all its generations."""
    table = None          # {hexkey([a, b, problem]): [values]}
    shape = 0.25          # distance to the final value per missing generation

    def __init__(self, epoch=3, pop_size=2, a=0, b=0, **kwargs):
        super().__init__(**kwargs)
        self.epoch = self.validator.check_int("epoch", epoch, [1, 100000])
        self.pop_size = self.validator.check_int("pop_size", pop_size, [2, 10000])
        self.a, self.b = a, b
        self.set_parameters(["epoch", "pop_size", "a", "b"])
        self.sort_flag = False

    def script(self, problem):
        name, mm = (problem.get("name", "P"), problem.get("minmax", "min")) if isinstance(problem, dict) else (problem.name, problem.minmax)
        key = hexkey([self.a, self.b, name])
        vals = self.table.get(key, [0.0])
        CUR["v"], CUR["dir"] = vals[claim(self.logdir, key) % len(vals)], 1.0 if mm == "min" else -1.0

    def place(self, epoch):
        """Best first: all agents at the distance of this generation, the others farther away."""
        x = max(0.0, (self.epoch - epoch) * self.shape)
        return [self.generate_agent(np.array([x + 0.5 * i])) for i in range(self.pop_size)]

    def initialization(self):
        self.pop = self.place(0)

    def evolve(self, epoch):
        self.pop = self.place(epoch)


class LoggedPSO(LoggedMixin, OriginalPSO):
    pass


def script_problem(name, minmax, form="dict", **kw):
    kw = dict(bounds=FloatVar(lb=[0.], ub=[100.]), minmax=minmax, name=name, log_to=None, **kw)
    if form == "dict":
        return dict(kw, obj_func=ScriptObj())
    return ScriptProblem(**kw)


class ScriptProblem(Problem):
    def obj_func(self, x):
        return CUR["v"] + CUR["dir"] * float(np.asarray(x)[0])


def curve(v, minmax, epoch, n, shape=0.25):
    d = 1.0 if minmax == "min" else -1.0
    return [v + d * max(0.0, (epoch - e) * shape) for e in range(1, n + 1)]
