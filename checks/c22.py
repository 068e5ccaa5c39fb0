"""C22: a failing objective surfaces unchanged and leaves optimizer and problem reusable."""
from pbt import boot, scen
from pbt.engine import Outcome
from hypothesis import strategies as st
PID = "C22"
RULE = ("generated solves of every optimizer class in which the k-th objective call raises a generated exception (k anywhere in the run, fault injection), in single/swarm/thread mode; oracle: exactly that exception "
        "object reaches the caller; then the same optimizer and problem are solved again without fault and must reproduce the run of a fresh optimizer evaluation by evaluation; "
        "non-trivial = the fault was reached")


def units(tier):
    return scen.algo_units(20 if tier == "quick" else 600)


EXC = {"runtime": RuntimeError, "value": ValueError, "zero": ZeroDivisionError, "key": KeyError, "index": IndexError, "type": TypeError, "attr": AttributeError, "os": OSError, "arith": ArithmeticError,
       "assert": AssertionError, "linalg": None, "base": Exception, "interrupt": KeyboardInterrupt}


@st.composite
def strategy_(draw, a):
    c = draw(scen.scenario(a, modes=("single", "swarm", "single", "swarm", "thread"), epochs=(1, 5)))
    if c["mode"] == "thread":
        c["epoch"] = min(c["epoch"], 2)
    c["exc"] = draw(st.sampled_from(sorted(EXC)))
    c["at"] = draw(st.one_of(st.integers(1, 30), st.integers(1, 200)))
    return c


def strategy(unit):
    return strategy_(unit["name"])


def check(unit, case):
    o = Outcome()
    site = case["algo"]
    kw = {"n_workers": 2} if case["mode"] == "thread" else {}
    ref = scen.Run(case, **kw)
    if ref.error is not None or len(ref.calls) == 0:
        o.label("crashed")
        return o
    at = 1 + (case["at"] - 1) % len(ref.calls)
    opt = scen.build(case)
    prob = scen.make_problem(case, scen.call_limit(case))
    rec = prob[1]
    cls = EXC[case["exc"]]
    if cls is None:
        import numpy as np
        cls = np.linalg.LinAlgError
    rec.exc = cls("injected")
    rec.fail_at = at
    got = None
    try:
        r1 = scen.Run(case, opt=opt, problem=prob, **kw)
        got = r1.error
    except KeyboardInterrupt as e:
        got = e
    if got is not rec.exc:
        o.bad(site, "exception", "%s raised by evaluation %d of %d (mode %s), caller got %r" % (cls.__name__, at, len(ref.calls), case["mode"], got))
    rec.fail_at, rec.count = None, 0
    r2 = scen.Run(case, opt=opt, problem=prob, **kw)
    if r2.error is not None:
        o.bad(site, "reuse_crash", "solving again after the failure: %s %s" % (r2.sig(), r2.error))
    elif case["mode"] == "thread":
        if not scen.same(ref.best.solution, r2.best.solution) or not scen.same(ref.opt.history.list_global_best_fit, r2.opt.history.list_global_best_fit):
            o.bad(site, "reuse_differs", "thread")
    else:
        d = next((i for i, (x, y) in enumerate(zip(ref.calls, r2.calls)) if not scen.same(x[0], y[0])), None)
        if d is not None or len(ref.calls) != len(r2.calls):
            o.bad(site, "reuse_differs", "after a failure at evaluation %d the next run differs from a fresh one at evaluation %s" % (at, d))
        elif not scen.same(ref.best.solution, r2.best.solution):
            o.bad(site, "reuse_differs", "result")
    o.nontrivial = True
    o.label(case["mode"], case["exc"], "init" if at <= case["pop"] else "loop")
    o.info = {"fault_at": at, "of": len(ref.calls)}
    return o
