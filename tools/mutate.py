"""Development aid: mass mutation of the algorithm sources. For every mutant the checks named for its operator run on the optimizer(s) that use the class.
usage: python3 tools/mutate.py N SEED [op ...]   -> prints survivors, /tmp/mut/result.jsonl"""
import ast, glob, json, os, random, re, subprocess, sys, shutil, concurrent.futures as cf
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
R = "/repo"
N, SEED = int(sys.argv[1]), int(sys.argv[2])
OPS_WANTED = set(sys.argv[3:])
OUT = os.environ.get("MUT_OUT", "/tmp/mut/result.jsonl")
WORKERS = int(os.environ.get("MUT_WORKERS", "7"))
OPS = [
    ("nocorrect", r"self\.correct_solution\(((?:[^()]|\([^()]*\))*)\)", r"(\1)", ["C02", "C23"]),
    ("uncounted", r"self\.get_target\(", r"self.problem.get_target(", ["C07"]),
    ("nocopy", r"\.copy\(\)", "", ["C01", "C08", "C03", "C02"]),
    ("maxguard", r"max\((?:1|2), ((?:[^()]|\((?:[^()]|\([^()]*\))*\))*)\)", r"(\1)", ["C23"]),
    ("eps", r" \+ self\.EPSILON", "", ["C23"]),
    ("mode", r"self\.mode not in self\.AVAILABLE_MODES", "self.mode not in self.PARALLEL_MODES", ["C05", "C07"]),
    ("mode2", r"if self\.mode in self\.AVAILABLE_MODES", "if self.mode in self.PARALLEL_MODES", ["C05", "C01", "C07"]),
    ("gendirect", r"self\.generator\.(random|uniform|normal)\(", r"np.random.\1(", ["C04"]),
    ("agentsol", r"self\.pop\[(\w+)\] = agent$", r"self.pop[\1].solution = agent.solution", ["C01"]),
    ("empty", r"self\.generate_agent\(", "self.generate_empty_agent(", ["C01", "C23"]),
    ("minmax", r"self\.problem\.minmax", '"min"', ["C27"]),
    ("posdefault", r"= self\.generator\.integers\(0, self\.pop_size\)", "= self.generator.integers(0, self.pop_size + 1)", ["C23"]),
    ("seedstate", r"^(\s+)self\.(\w+) = (.+)$", r"\1self.\2 = getattr(self, '\2', \3)", ["C04", "C15"]),
]


def sites():
    out = []
    for f in sorted(glob.glob(R + "/mealpy/*_based/*.py")):
        src = open(f).read()
        lines = src.split("\n")
        tree = ast.parse(src)
        for c in tree.body:
            if not isinstance(c, ast.ClassDef):
                continue
            for m in c.body:
                if not isinstance(m, ast.FunctionDef) or m.name == "__init__":
                    continue
                doc = 0
                if ast.get_docstring(m):
                    doc = m.body[0].end_lineno
                for ln in range(max(m.lineno, doc), m.end_lineno):
                    s = lines[ln]
                    code = s.split("#")[0].rstrip()
                    for op, pat, rep, chk in OPS:
                        if OPS_WANTED and op not in OPS_WANTED:
                            continue
                        if op == "seedstate" and m.name not in ("initialize_variables", "before_main_loop", "initialization"):
                            continue
                        if op in ("gendirect",) and m.name == "__init__":
                            continue
                        if re.search(pat, code):
                            n = re.sub(pat, rep, code, count=1)
                            if n != code:
                                out.append((os.path.relpath(f, R), c.name, m.name, ln, op, code, n, chk))
    return out


def users(cls):
    """Optimizer classes (leaf names) that inherit cls, cls itself first when it is registered."""
    return MAP.get(cls, [])


def run(args):
    k, (f, cls, meth, ln, op, old, new, chk) = args
    who = users(cls)
    if not who:
        return dict(skip=True)
    name = who[0]
    w = "/tmp/mut/w%d" % os.getpid()
    if not os.path.isdir(w):
        subprocess.run(["cp", "-a", R, w])
    p = os.path.join(w, f)
    orig = open(os.path.join(R, f)).read()
    ls = orig.split("\n")
    assert ls[ln].startswith(old[:5])
    ls[ln] = new
    res = dict(file=f, cls=cls, meth=meth, line=ln + 1, op=op, old=old.strip(), new=new.strip(), by=None)
    try:
        compile("\n".join(ls), p, "exec")
    except SyntaxError:
        return dict(skip=True)
    open(p, "w").write("\n".join(ls))
    try:
        for c in chk:
            if not os.path.exists(V + "/checks/%s.py" % c.lower()):
                continue
            e = dict(os.environ, VERIF_REPO=w, VERIF_ONLY=name, VERIF_MAXFAIL="1", VERIF_SEED="1", VERIF_TIER="quick", VERIF_JOBS="1", VERIF_EVIDENCE="/tmp/mut/ev%d" % os.getpid())
            try:
                r = subprocess.run(["bash", V + "/check.sh", c], capture_output=True, text=True, env=e, timeout=400)
            except subprocess.TimeoutExpired:
                res["by"] = c + ":timeout"
                break
            if r.returncode == 1 and "VIOLATION" in r.stdout:
                res["by"] = c
                break
            if r.returncode not in (0, 1):
                res["by"] = c + ":rc%d" % r.returncode + (r.stdout + r.stderr)[-200:]
    finally:
        open(p, "w").write(orig)
    return res


MAP = {}
code = r'''
import sys, inspect, json
sys.path.insert(0, "/repo")
import mealpy
d = {}
cl = mealpy.get_all_optimizers(verbose=False)
for n, c in cl.items():
    for b in c.__mro__:
        d.setdefault(b.__name__, []).append((len(c.__mro__), c.__module__.split(".")[-1] + "." + n))
print(json.dumps({k: [n for _, n in sorted(v, key=lambda t: (t[1].split(".")[1] != k, t))] for k, v in d.items()}))
'''
MAP = json.loads(subprocess.run(["/opt/venv/bin/python", "-c", code], capture_output=True, text=True).stdout)
if __name__ == "__main__":
    os.makedirs("/tmp/mut", exist_ok=True)
    s = sites()
    import collections
    cnt = collections.Counter(t[4] for t in s)
    print(dict(cnt), flush=True)
    random.Random(SEED).shuffle(s)
    # the same share of every operator
    per, sel = collections.Counter(), []
    quota = max(1, N // len(cnt))
    for t in s:
        if per[t[4]] < quota:
            per[t[4]] += 1
            sel.append(t)
    res = []
    with cf.ProcessPoolExecutor(WORKERS) as ex, open(OUT, "a") as fo:
        for r in ex.map(run, list(enumerate(sel))):
            if r.get("skip"):
                continue
            fo.write(json.dumps(r) + "\n"); fo.flush()
            res.append(r)
            if r["by"] is None:
                print("SURVIVED", r["op"], r["file"], r["cls"], r["line"], "|", r["old"][:140], "->", r["new"][:140], flush=True)
    by = collections.Counter((r["op"], r["by"] and r["by"].split(":")[0]) for r in res)
    for k in sorted(by, key=str):
        print(k, by[k])
    for d in glob.glob("/tmp/mut/w*"):
        shutil.rmtree(d)
