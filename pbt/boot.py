"""Process set-up: paths, hypothesis, controllable clock, quiet logging, mealpy from the repo's working tree."""
import os, sys, warnings
for k, v in dict(OMP_NUM_THREADS="1", OPENBLAS_NUM_THREADS="1", MPLBACKEND="Agg", TQDM_DISABLE="1").items():
    os.environ.setdefault(k, v)
REPO = os.environ.get("VERIF_REPO", "/repo")
VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, REPO)
if VERIF not in sys.path:
    sys.path.insert(1, VERIF)
for _p in ("/opt/veriftools/pyvenv/lib/python3.12/site-packages",):
    if _p not in sys.path:
        sys.path.append(_p)          # last: numpy/pandas/... come from the project's own venv
import hypothesis                     # noqa: E402
import hypothesis.strategies          # noqa: E402,F401
import logging                        # noqa: E402
import random                         # noqa: E402
import time                           # noqa: E402

real_perf_counter = time.perf_counter
real_time = time.time


class Clock:
    """Replaces time.perf_counter/time.time before mealpy is imported.  Passes through unless a fake is active."""
    fake = None

    @staticmethod
    def perf_counter():
        return real_perf_counter() if Clock.fake is None else Clock.fake()

    @staticmethod
    def time():
        return real_time() if Clock.fake is None else Clock.fake()


time.perf_counter = Clock.perf_counter
time.time = Clock.time

import numpy as np                    # noqa: E402
warnings.simplefilter("ignore")
np.seterr(all="ignore")
import mealpy                         # noqa: E402
assert os.path.realpath(mealpy.__file__).startswith(os.path.realpath(REPO) + os.sep), mealpy.__file__
warnings.simplefilter("ignore")
logging.disable(logging.CRITICAL)


def reset_globals():
    """Same process-global state at the start of every case."""
    random.seed(12345)
    np.random.seed(12345)
    np.seterr(all="ignore")
    try:
        from mealpy.utils.agent import Agent
        Agent.ID = 0
    except Exception:
        pass


# development aid: VERIF_COV=DIR collects the lines of the package that a check executes (tools/cover.py reads them)
COV = None
if os.environ.get("VERIF_COV"):
    COV = set()
    _root = os.path.join(os.path.realpath(REPO), "mealpy") + os.sep
    _mon = sys.monitoring
    _mon.use_tool_id(_mon.COVERAGE_ID, "verif")

    def _line(code, line):
        f = code.co_filename
        if f.startswith(_root) or os.path.realpath(f).startswith(_root):
            COV.add((f, line))
        return _mon.DISABLE
    _mon.register_callback(_mon.COVERAGE_ID, _mon.events.LINE, _line)
    _mon.set_events(_mon.COVERAGE_ID, _mon.events.LINE)


def dump_cov(tag):
    if COV:
        with open(os.path.join(os.environ["VERIF_COV"], "%s-%d.txt" % (tag, os.getpid())), "a") as fo:
            fo.writelines("%s:%d\n" % t for t in COV)
        COV.clear()
