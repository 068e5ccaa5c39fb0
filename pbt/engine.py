"""Generic generated-input search: runs check modules unit by unit under Hypothesis, shrinks, writes replay + evidence."""
from . import boot
import base64, collections, concurrent.futures, contextlib, hashlib, importlib, io, json, multiprocessing, os, signal, sys, traceback
import hypothesis
from hypothesis import given, settings, HealthCheck, Phase

VERIF = boot.VERIF
CASE_SECONDS = 20          # CPU seconds of this process: machine load cannot turn a slow case into a "hang"
WALL_SECONDS = 150         # beyond this the case is only counted as inconclusive
SHRINK_SECONDS = 25
SURVEY = os.environ.get("VERIF_SURVEY")          # development aid: list every (site, kind) instead of stopping at the first


class CaseTimeout(BaseException):
    pass


class WallTimeout(CaseTimeout):
    pass


class Reject(Exception):
    """Case outside the stated domain (e.g. the constructor refused the parameters)."""


class Outcome:
    __slots__ = ("violations", "labels", "nontrivial", "info")

    def __init__(self):
        self.violations, self.labels, self.nontrivial, self.info = [], [], False, None

    def bad(self, site, kind, msg=""):
        self.violations.append((site, kind, str(msg)[:600]))

    def label(self, *ls):
        self.labels.extend(ls)


class Found(Exception):
    pass


def canon(case):
    return json.dumps(case, sort_keys=True)


def load_known(pid):
    """known_findings.txt -> {(site, kind): (what, case or None)} for this property."""
    out = {}
    path = os.path.join(VERIF, "known_findings.txt")
    if os.path.exists(path):
        for line in open(path):
            line = line.strip()
            if not line.startswith("known: "):
                continue
            head, _, rest = line.partition(" :: ")
            what, _, case = rest.partition(" :: case=")
            f = dict(p.split("=", 1) for p in head[len("known: "):].split())
            if f["property"] == pid:
                out[(f["site"], f["kind"])] = (what, json.loads(case) if case else None)
    return out


@contextlib.contextmanager
def alarm(seconds):
    def h(*a):
        raise CaseTimeout()

    def w(*a):
        raise WallTimeout()
    old = signal.signal(signal.SIGPROF, h), signal.signal(signal.SIGALRM, w)
    signal.setitimer(signal.ITIMER_PROF, seconds)
    signal.setitimer(signal.ITIMER_REAL, WALL_SECONDS)
    try:
        yield
    finally:
        signal.setitimer(signal.ITIMER_PROF, 0)
        signal.setitimer(signal.ITIMER_REAL, 0)
        signal.signal(signal.SIGPROF, old[0])
        signal.signal(signal.SIGALRM, old[1])


def run_case(mod, unit, case):
    """Plain execution of one case (also the replay path). Returns Outcome."""
    case = json.loads(json.dumps(case))
    timeout = unit.get("seconds", CASE_SECONDS)
    boot.reset_globals()
    try:
        with alarm(timeout):
            with contextlib.redirect_stdout(io.StringIO()):
                return mod.check(unit, case)
    except WallTimeout:
        o = Outcome()
        o.label("inconclusive:wall")
        return o
    except CaseTimeout:
        o = Outcome()
        o.label("inconclusive:timeout")
        if getattr(mod, "TIMEOUT_IS_VIOLATION", False):
            o.bad(unit["name"], "hang", "no result within %d CPU seconds" % timeout)
        return o
    except Reject as e:
        o = Outcome()
        o.label("rejected")
        return o
    except Exception as e:
        # nothing the checks do may raise on a correct tree: report it with its place instead of dying without an answer
        tb = traceback.extract_tb(e.__traceback__)
        root = os.path.realpath(boot.REPO) + os.sep
        inner = [fr for fr in tb if os.path.realpath(fr.filename).startswith(root)]
        fr = (inner or tb)[-1]
        o = Outcome()
        o.label("unexpected-exception")
        o.bad(unit["name"], "unexpected_%s" % type(e).__name__, "%s (%s:%s in %s)" % (e, os.path.basename(fr.filename), fr.lineno, fr.name))
        return o
    finally:
        boot.Clock.fake = None


def run_unit(modname, unit, seed, tier):
    mod = importlib.import_module(modname)
    known = load_known(mod.PID)
    st = dict(unit=unit["name"], evals=0, labels=collections.Counter(), nontrivial=set(), samples=[], known=collections.Counter(), fail=None, error=None, nfail=0, survey={})
    tstart = boot.real_perf_counter()
    state = dict(t_fail=None, sig=None)

    def body(case):
        if state["t_fail"] is not None and boot.real_perf_counter() - state["t_fail"] > SHRINK_SECONDS:
            return
        out = run_case(mod, unit, case)
        st["evals"] += 1
        for l in out.labels:
            st["labels"][l] += 1
        if out.nontrivial:
            h = hashlib.blake2b(canon(case).encode(), digest_size=8).digest()
            if h not in st["nontrivial"]:
                st["nontrivial"].add(h)
                if len(st["samples"]) < 1:
                    st["samples"].append(dict(unit=unit["name"], case=case, info=out.info))
        for site, kind, msg in out.violations:
            if SURVEY:
                e = st["survey"].setdefault((site, kind), [0, None, None])
                e[0] += 1
                if e[1] is None or len(canon(case)) < len(canon(e[1])):
                    e[1], e[2] = case, msg
                continue
            if (site, kind) in known:
                st["known"]["%s|%s" % (site, kind)] += 1
                continue
            if state["sig"] is None:
                state["sig"], state["t_fail"] = (site, kind), boot.real_perf_counter()
            if (site, kind) == state["sig"]:
                st["nfail"] += 1
                st["fail"] = dict(site=site, kind=kind, msg=msg, case=case)
                raise Found("%s %s" % (site, kind))

    derived = int.from_bytes(hashlib.blake2b(("%s|%s|%s" % (seed, mod.PID, unit["name"])).encode(), digest_size=7).digest(), "big")
    test = given(case=mod.strategy(unit))(body)
    test = settings(max_examples=unit.get("n", 50), database=None, deadline=None, report_multiple_bugs=False, print_blob=False,
                    suppress_health_check=list(HealthCheck), phases=[Phase.explicit, Phase.generate, Phase.shrink])(test)
    test = hypothesis.seed(derived)(test)
    try:
        with contextlib.redirect_stdout(io.StringIO()), contextlib.redirect_stderr(io.StringIO()):
            test()
    except BaseException as e:
        if isinstance(e, (KeyboardInterrupt, MemoryError)):
            raise
        if st["fail"] is None:
            st["error"] = "".join(traceback.format_exception(e))[-4000:]
    st["nontrivial"] = len(st["nontrivial"])
    st["wall"] = boot.real_perf_counter() - tstart
    boot.dump_cov(mod.PID)
    return st


def run_pins(modname, pid):
    """Re-execute the pinned case of each listed finding. -> {(site,kind): bool reproduced}"""
    mod = importlib.import_module(modname)
    res = {}
    for (site, kind), (what, pin) in load_known(pid).items():
        if pin is None:
            res["%s|%s" % (site, kind)] = None
            continue
        try:
            with contextlib.redirect_stdout(io.StringIO()), contextlib.redirect_stderr(io.StringIO()):
                out = run_case(mod, pin["unit"], pin["case"])
            res["%s|%s" % (site, kind)] = any((s, k) == (site, kind) for s, k, _ in out.violations)
        except BaseException as e:
            res["%s|%s" % (site, kind)] = "error %r" % (e,)
    return res


def main(pid):
    t0 = boot.real_perf_counter()
    seed = int(os.environ.get("VERIF_SEED", "1") or 1)
    tier = os.environ.get("VERIF_TIER", "quick") or "quick"
    modname = "checks.%s" % pid.lower()
    mod = importlib.import_module(modname)
    units = mod.units(tier)
    scale = float(os.environ.get("VERIF_SCALE", "1"))
    only = os.environ.get("VERIF_ONLY")
    if only:
        units = [u for u in units if only in u["name"]]
    for u in units:
        u["n"] = max(1, int(u.get("n", 50) * scale))
    budget = float(os.environ.get("VERIF_BUDGET", "600" if tier == "quick" else "14400"))
    nproc = min(8, os.cpu_count() or 1, max(1, len(units)))
    results, errors, skipped, fails = [], [], 0, []
    maxfail = int(os.environ.get("VERIF_MAXFAIL", "3"))
    ctx = multiprocessing.get_context("fork")
    units = sorted(units, key=lambda u: -u.get("weight", 1))
    with concurrent.futures.ProcessPoolExecutor(nproc, mp_context=ctx) as ex:
        pins_f = ex.submit(run_pins, modname, pid)
        it = iter(units)
        pending = {}
        stop = False

        def feed():
            nonlocal skipped, stop
            while len(pending) < nproc + 2:
                u = next(it, None)
                if u is None:
                    return
                if stop or boot.real_perf_counter() - t0 > budget:
                    skipped += 1
                    continue
                pending[ex.submit(run_unit, modname, u, seed, tier)] = u
        feed()
        while pending:
            done, _ = concurrent.futures.wait(pending, return_when=concurrent.futures.FIRST_COMPLETED)
            for f in done:
                u = pending.pop(f)
                try:
                    r = f.result()
                except BaseException as e:
                    errors.append((u["name"], repr(e)))
                    continue
                results.append(r)
                if r["error"]:
                    errors.append((u["name"], r["error"]))
                if r["fail"]:
                    fails.append((u, r))
                    if len(fails) >= maxfail:
                        stop = True
            feed()
        pins = pins_f.result()
    known = load_known(pid)
    labels, hits = collections.Counter(), collections.Counter()
    for r in results:
        labels.update(r["labels"])
        hits.update(r["known"])
    evals = sum(r["evals"] for r in results)
    nontriv = sum(r["nontrivial"] for r in results)
    fails.sort(key=lambda t: t[0]["name"])
    rep = []
    for u, r in fails:
        f = r["fail"]
        d = os.path.join(VERIF, "replays", pid)
        os.makedirs(d, exist_ok=True)
        body = dict(property=pid, unit=u, case=f["case"], site=f["site"], kind=f["kind"], msg=f["msg"], verif_seed=seed)
        p = os.path.join(d, "%s-%s-%s.json" % (f["site"].replace("/", "_"), f["kind"], hashlib.blake2b(canon(f["case"]).encode(), digest_size=4).hexdigest()))
        json.dump(body, open(p, "w"), indent=1)
        rep.append(p)
        print("VIOLATION property=%s replay=%s" % (pid, p))
        print("  %s: %s: %s" % (f["site"], f["kind"], f["msg"]))
        print("  minimal case: %s" % canon(f["case"])[:1500])
    for (site, kind), (what, pin) in sorted(known.items()):
        r = pins.get("%s|%s" % (site, kind))
        print("KNOWN-FINDING: property=%s %s %s: %s [pinned case %s; met %d times in this run]" % (
            pid, site, kind, what, {True: "still fails", False: "no longer fails", None: "none"}.get(r, r), hits.get("%s|%s" % (site, kind), 0)))
    samples = []
    for r in sorted(results, key=lambda r: r["unit"]):
        samples.extend(r["samples"])
    step = max(1, len(samples) // 6)
    wall = boot.real_perf_counter() - t0
    ev = dict(property=pid, tier=tier, seed=seed, level=getattr(mod, "LEVEL", "exploration"),
              coverage=dict(evaluations=evals, distinct_nontrivial=nontriv, rule=mod.RULE, samples=samples[::step][:8],
                            units=len(results), units_skipped_after_stop_or_budget=skipped,
                            labels=dict(sorted(labels.items())), excluded_known=dict(hits),
                            pinned_known={k: str(v) for k, v in pins.items()}),
              assumptions=getattr(mod, "ASSUMPTIONS", []), wall_s=round(wall, 2), violations=len(fails))
    os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
    with open(os.path.join(VERIF, "evidence", pid + ".json"), "w") as fh:
        json.dump(ev, fh, indent=1, default=str)
    print("%s tier=%s seed=%d units=%d evaluations=%d nontrivial=%d known_hits=%d wall=%.1fs" % (pid, tier, seed, len(results), evals, nontriv, sum(hits.values()), wall))
    if SURVEY:
        with open(SURVEY, "w") as fh:
            for r in sorted(results, key=lambda r: r["unit"]):
                for (site, kind), (n, case, msg) in sorted(r["survey"].items()):
                    fh.write(json.dumps(dict(unit=next(u for u in units if u["name"] == r["unit"]), site=site, kind=kind, n=n, evals=r["evals"], msg=msg, case=case)) + "\n")
                    print("SURVEY", site, kind, "%d/%d" % (n, r["evals"]), msg[:160])
    if os.environ.get("VERIF_LABELS"):
        for k, v in sorted(labels.items()):
            print("   ", k, v)
        slow = sorted(results, key=lambda r: -r["wall"])[:6]
        print("    slowest:", [(r["unit"], round(r["wall"], 1)) for r in slow])
    if fails:
        sys.stdout.flush()
        return 1
    if errors:
        for n, e in errors[:5]:
            print("HARNESS-ERROR unit=%s\n%s" % (n, e), file=sys.stderr)
        return 4
    if evals == 0 or nontriv == 0:
        print("HARNESS-ERROR nothing explored", file=sys.stderr)
        return 5
    return 0
