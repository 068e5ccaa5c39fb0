"""C26: logging goes where the problem says and never influences the run."""
from pbt import boot, scen, algos  # noqa
from pbt.engine import Outcome
from hypothesis import strategies as st
from mealpy import Problem
import contextlib, io, logging, os, re, shutil, tempfile
import numpy as np
PID = "C26"
RULE = ("generated sequences of 1-4 solves (any optimizer classes, fresh or reused optimizers, dict or Problem instances, terminations) with different log destinations (console, one of two named files, the default file, none) in one process; "
        "oracle: the text newly written to stderr, stdout and every file during each solve must hold the optimizer's line, one record per executed generation with that generation's recorded current and global best, and the stopping message exactly at the "
        "run's own destination and nowhere else; and each run must equal (evaluation by evaluation) the same run of a fresh optimizer without logging and without saved populations; non-trivial = at least two runs with different destinations or a "
        "run judged at a file/console")
REC = re.compile(r"Epoch: (\d+), Current best: (\S+), Global best: (\S+),")
DEST = ["console", "fileA", "fileB", "default", "none", "none_str"]


def units(tier):
    n = 40 if tier == "quick" else 1200
    return [{"name": "sequence%d" % i, "n": n} for i in range(8)] + [{"name": "same%d" % i, "n": n, "same": True} for i in range(4)]


@st.composite
def strategy_(draw, unit):
    names = list(algos.all_classes())
    pool = [draw(st.sampled_from(names))] if unit.get("same") else [draw(st.sampled_from(names)) for _ in range(2)]
    runs = []
    for i in range(draw(st.integers(1, 4))):
        c = draw(scen.scenario(draw(st.sampled_from(pool)), modes=("single", "swarm", "thread"), epochs=(1, 6), pops=(0, 6), params=False, tail=False))
        c["dest"] = draw(st.sampled_from(DEST))
        c["term"] = draw(st.sampled_from([None, None, {"max_epoch": 2}, {"max_fe": 30}, {"max_early_stop": 2}]))
        c["reuse"] = draw(st.booleans())
        c["save_pop"] = draw(st.booleans())
        c["pname"] = draw(st.sampled_from([None, "P1", "my problem"]))
        runs.append(c)
    return {"runs": runs}


def strategy(unit):
    return strategy_(unit)


def forget_loggers():
    for name, lg in list(logging.root.manager.loggerDict.items()):
        if name.startswith("mealpy") and isinstance(lg, logging.Logger):
            for h in list(lg.handlers):
                lg.removeHandler(h)
                with contextlib.suppress(Exception):
                    h.close()
            lg.setLevel(logging.NOTSET)


def sizes(d):
    return {f: os.path.getsize(os.path.join(d, f)) for f in sorted(os.listdir(d))}


def num(t):
    try:
        return float(t)
    except ValueError:
        return None


def check(unit, case):
    o = Outcome()
    tmp = tempfile.mkdtemp(prefix="verifc26")
    old = os.getcwd()
    logging.disable(logging.NOTSET)
    forget_loggers()
    opts = {}
    dests, done = set(), []
    try:
        os.chdir(tmp)
        for i, c in enumerate(case["runs"]):
            kw = {"console": dict(log_to="console"), "fileA": dict(log_to="file", log_file="a.log"), "fileB": dict(log_to="file", log_file="b.log"), "default": dict(log_to="file"),
                  "none": dict(log_to=None), "none_str": dict(log_to="none")}[c["dest"]]
            if c["pname"]:
                kw["name"] = c["pname"]
            opt = opts[c["algo"]] if c["reuse"] and c["algo"] in opts else scen.build(c)
            if opt is not opts.get(c["algo"]):
                opts[c["algo"]] = opt
            else:
                opt.set_parameters({"epoch": c["epoch"], "pop_size": c["pop"]})
            text = str(opt)
            before = sizes(tmp)
            err, out = io.StringIO(), io.StringIO()
            with contextlib.redirect_stderr(err), contextlib.redirect_stdout(out):
                r = scen.Run(c, opt=opt, problem=scen.make_problem(c, scen.call_limit(c), c["save_pop"], **kw), termination=dict(c["term"]) if c["term"] else None)
            for lg in logging.root.manager.loggerDict.values():
                if isinstance(lg, logging.Logger):
                    for h in lg.handlers:
                        h.flush()
            after = sizes(tmp)
            new = {}
            for f, s in after.items():
                with open(os.path.join(tmp, f), errors="replace") as fh:
                    fh.seek(before.get(f, 0))
                    new[f] = fh.read()
            new["<stderr>"], new["<stdout>"] = err.getvalue(), out.getvalue()
            if r.error is not None:
                o.label("error")
                return o
            dests.add(c["dest"])
            site = c["dest"]
            dest = {"console": "<stderr>", "fileA": "a.log", "fileB": "b.log", "default": None, "none": "", "none_str": ""}[c["dest"]]
            if dest is None:                              # the default file: whatever single file the run wrote
                own = [f for f, t in new.items() if f not in ("<stderr>", "<stdout>", "a.log", "b.log") and t]
                if len(own) != 1:
                    o.bad(site, "default_file", "files written: %s" % own)
                    return o
                dest = own[0]
            for f, t in new.items():
                if f == dest:
                    continue
                if ">>>" in t or REC.search(t) or text in t or "Stopping criterion" in t:
                    o.bad(site, "written_elsewhere", "run %d (%s) wrote to %s: %s" % (i, c["dest"], f, t[:200]))
                    return o
                if f not in ("<stderr>", "<stdout>") and f not in before and not t and dest == "":
                    o.bad(site, "file_created", "run %d with log_to=%r created %s" % (i, kw["log_to"], f))
                elif t and f not in ("<stderr>", "<stdout>"):
                    o.bad(site, "written_elsewhere", "run %d (%s) wrote to %s: %s" % (i, c["dest"], f, t[:200]))
                    return o
            h = opt.history
            if dest == "":
                if new["<stderr>"].strip() and "Epoch" in new["<stderr>"]:
                    o.bad(site, "not_silent", new["<stderr>"][:200])
            else:
                o.nontrivial = True
                t = new.get(dest, "")
                recs = [m.groups() for m in REC.finditer(t)]
                n = len(h.list_epoch_time)
                if [int(a) for a, _, _ in recs] != list(range(1, n + 1)):
                    o.bad(site, "generation_records", "records for generations %s, %d were executed" % ([int(a) for a, _, _ in recs][:12], n))
                    return o
                for k, (_, cb, gb) in enumerate(recs):
                    if num(cb) != float(h.list_current_best_fit[k]) or num(gb) != float(h.list_global_best_fit[k]):
                        o.bad(site, "logged_values", "generation %d logged as %s/%s, recorded %r/%r" % (k + 1, cb, gb, h.list_current_best_fit[k], h.list_global_best_fit[k]))
                        break
                if t.count(text) != 1:
                    o.bad(site, "optimizer_line", "%d times: %s" % (t.count(text), text))
                elif recs and t.index(text) > REC.search(t).start():
                    o.bad(site, "optimizer_line_late", text)
                if c["pname"] and any(c["pname"] not in l for l in t.splitlines() if REC.search(l)):
                    o.bad(site, "problem_name", c["pname"])
                msg = opt.termination.message if opt.termination is not None else ""
                stops = t.count("Stopping criterion")
                if stops != (1 if msg else 0) or (msg and t.rindex(msg) < [m.start() for m in REC.finditer(t)][-1]):
                    o.bad(site, "stopping_reason", "message %r, logged %d times" % (msg, stops))
            if bool(h.list_population) != c["save_pop"]:
                o.bad(site, "save_population", "save_population=%s but %d populations recorded" % (c["save_pop"], len(h.list_population)))
            o.label(c["dest"])
            done.append((c, r, site, list(h.list_global_best_fit)))
            if o.violations:
                return o
        logging.disable(logging.CRITICAL)
        for c, r, site, gbf in done:                     # ---- no influence
            with contextlib.redirect_stderr(io.StringIO()), contextlib.redirect_stdout(io.StringIO()):
                q = scen.Run(c, opt=scen.build(c), problem=scen.make_problem(c, scen.call_limit(c), False), termination=dict(c["term"]) if c["term"] else None)
            if q.error is not None:
                o.bad(site, "reference_failed", q.sig())
                return o
            a, b = [x for x, _ in r.calls], [x for x, _ in q.calls]
            if c["mode"] == "thread":
                a, b = sorted(a, key=lambda v: v.tolist()), sorted(b, key=lambda v: v.tolist())
            if len(a) != len(b) or not all(np.array_equal(x, y) for x, y in zip(a, b)):
                o.bad(site, "influences_evaluations", "%s: %d evaluations with destination %s, %d without" % (c["algo"], len(a), c["dest"], len(b)))
            elif not scen.same(r.best.solution, q.best.solution) or not scen.same(gbf, q.opt.history.list_global_best_fit):
                o.bad(site, "influences_result", c["algo"])
        if len(dests) >= 2:
            o.nontrivial = True
            o.label("several-destinations")
        return o
    finally:
        forget_loggers()
        logging.disable(logging.CRITICAL)
        os.chdir(old)
        shutil.rmtree(tmp, ignore_errors=True)
