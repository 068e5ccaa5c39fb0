"""A second interpreter with another hash seed (and other addresses): runs the same case and reports a digest of the run.
As a module (python -m pbt.sibling) it is the server; run(case) is the client."""
import hashlib, json, os, signal, subprocess, sys
VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))


def digest(run):
    """[calls, hash of calls, hash of decoded points, hash of the result, error]"""
    if run.error is not None:
        return [len(run.calls), run.sig()]
    h, d = hashlib.sha1(), hashlib.sha1()
    for x, _ in run.calls:
        h.update(x.tobytes())
    for x, _ in run.calls[:20] + run.calls[-5:]:
        d.update(repr(sorted((k, str(v)) for k, v in run.problem_object.decode_solution(x).items())).encode())
    d.update(repr(sorted((k, str(v)) for k, v in run.problem_object.decode_solution(run.best.solution).items())).encode())
    r = hashlib.sha1(repr([run.best.solution.tolist(), run.best.target.objectives.tolist(), [float(v) for v in run.opt.history.list_global_best_fit]]).encode())
    return [len(run.calls), h.hexdigest()[:16], d.hexdigest()[:16], r.hexdigest()[:16]]


class Client:
    proc = None

    @classmethod
    def run(cls, case):
        if cls.proc is None or cls.proc.poll() is not None or cls.owner != os.getpid():
            cls.owner = os.getpid()
            env = dict(os.environ, PYTHONHASHSEED=str(1 + os.getpid() % 1000), VERIF_COV="")
            cls.proc = subprocess.Popen([sys.executable, "-B", "-W", "ignore", "-m", "pbt.sibling"], cwd=VERIF, env=env, stdin=subprocess.PIPE, stdout=subprocess.PIPE, stderr=subprocess.DEVNULL, text=True)
        try:
            cls.proc.stdin.write(json.dumps(case) + "\n")
            cls.proc.stdin.flush()
            line = cls.proc.stdout.readline()
            while line and not line.startswith("DIGEST "):
                line = cls.proc.stdout.readline()
        except BaseException:            # the case's time is up, or the sibling died: a fresh one next time
            cls.proc.kill()
            cls.proc.wait()
            cls.proc = None
            raise
        if not line:
            cls.proc.wait()
            cls.proc = None
            return None
        return json.loads(line[7:])


def serve():
    out = os.fdopen(os.dup(1), "w")
    os.dup2(2, 1)
    from pbt import boot, scen
    for line in sys.stdin:
        boot.reset_globals()
        signal.setitimer(signal.ITIMER_REAL, 200)
        r = digest_of(scen, json.loads(line))
        signal.setitimer(signal.ITIMER_REAL, 0)
        out.write("DIGEST " + json.dumps(r) + "\n")
        out.flush()


def digest_of(scen, case):
    r = scen.Run(case)
    r.problem_object = r.opt.problem
    return digest(r)


if __name__ == "__main__":
    serve()
