"""Development aid: generic mutation (operators, constants, conditions, dropped statements) of the framework files. Each mutant is run against the checks named for its file.
usage: python3 tools/mutfw.py N SEED [file-substring ...]  -> survivors on stdout, /tmp/mut/fw.jsonl"""
import ast, copy, json, os, random, subprocess, sys, concurrent.futures as cf, collections
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
R = "/repo"
FILES = {
    "optimizer.py": ["C13", "C14", "C06", "C07", "C08", "C09", "C03", "C26", "C17", "C22", "C15", "C05", "C12"],
    "tuner.py": ["C18", "C20"], "multitask.py": ["C19"],
    "utils/history.py": ["C08", "C24", "C03"], "utils/visualize/linechart.py": ["C24"], "utils/logger.py": ["C26"], "utils/problem.py": ["C11", "C12", "C28", "C22", "C26"],
    "utils/space.py": ["C10", "C11"], "utils/target.py": ["C12", "C13"], "utils/agent.py": ["C13", "C08", "C12"], "utils/termination.py": ["C06"], "utils/validator.py": ["C16"],
    "utils/io.py": ["C17"], "utils/transfer.py": ["C25"], "utils/chaotic.py": ["C25"], "utils/fuzzy.py": ["C25"], "__init__.py": ["C21"],
}
CMP = {ast.Lt: [ast.LtE, ast.Gt], ast.LtE: [ast.Lt], ast.Gt: [ast.GtE, ast.Lt], ast.GtE: [ast.Gt], ast.Eq: [ast.NotEq], ast.NotEq: [ast.Eq], ast.Is: [ast.IsNot], ast.IsNot: [ast.Is], ast.In: [ast.NotIn], ast.NotIn: [ast.In]}
BIN = {ast.Add: ast.Sub, ast.Sub: ast.Add, ast.Mult: ast.Add, ast.Div: ast.Mult, ast.FloorDiv: ast.Div, ast.Pow: ast.Mult, ast.Mod: ast.Add}


def mutants(path):
    src = open(path).read()
    tree = ast.parse(src)
    out = []
    for node in ast.walk(tree):
        for par, fld, val in [(node, f, v) for f, v in ast.iter_fields(node)]:
            if fld == "body" and isinstance(val, list) and isinstance(node, (ast.FunctionDef, ast.If, ast.For, ast.While, ast.With, ast.Try)):
                for i, s in enumerate(val):
                    if isinstance(s, (ast.Assign, ast.AugAssign, ast.Expr, ast.Raise)) and not (isinstance(s, ast.Expr) and isinstance(s.value, ast.Constant)):
                        out.append(("drop", s, ast.Pass()))
        if isinstance(node, ast.Compare) and len(node.ops) == 1:
            for o in CMP.get(type(node.ops[0]), []):
                n = copy.deepcopy(node); n.ops = [o()]
                out.append(("cmp", node, n))
        elif isinstance(node, ast.BinOp) and type(node.op) in BIN:
            n = copy.deepcopy(node); n.op = BIN[type(node.op)]()
            out.append(("bin", node, n))
        elif isinstance(node, ast.BoolOp):
            n = copy.deepcopy(node); n.op = ast.Or() if isinstance(node.op, ast.And) else ast.And()
            out.append(("bool", node, n))
        elif isinstance(node, ast.UnaryOp) and isinstance(node.op, (ast.Not, ast.USub)):
            out.append(("unary", node, node.operand))
        elif isinstance(node, ast.Constant) and not isinstance(node.value, str) and node.value is not None and node.value is not Ellipsis:
            v = node.value
            if isinstance(v, bool):
                out.append(("const", node, ast.Constant(not v)))
            elif isinstance(v, int):
                out.append(("const", node, ast.Constant(v + 1)))
                if v > 0:
                    out.append(("const", node, ast.Constant(v - 1)))
            elif isinstance(v, float):
                out.append(("const", node, ast.Constant(v * 1.5 + 0.1)))
        elif isinstance(node, (ast.If, ast.IfExp)):
            n = copy.deepcopy(node.test)
            out.append(("neg", node.test, ast.UnaryOp(ast.Not(), n)))
        elif isinstance(node, ast.Call) and isinstance(node.func, ast.Attribute) and node.func.attr in ("copy", "deepcopy"):
            out.append(("nocopy", node, node.func.value if not node.args else node.args[0]))
    res = []
    lines = src.split("\n")
    for op, old, new in out:
        if not hasattr(old, "lineno") or old.lineno != old.end_lineno and op != "drop":
            continue
        ls = list(lines)
        if old.lineno == old.end_lineno:
            l = ls[old.lineno - 1].encode()
            t = ast.unparse(ast.fix_missing_locations(new))
            if op not in ("drop", "const"):
                t = "(" + t + ")"
            ls[old.lineno - 1] = (l[:old.col_offset] + t.encode() + l[old.end_col_offset:]).decode()
        else:
            ls[old.lineno - 1:old.end_lineno] = [" " * old.col_offset + "pass"] + [""] * (old.end_lineno - old.lineno)
        txt = "\n".join(ls)
        try:
            compile(txt, path, "exec")
        except (SyntaxError, ValueError):
            continue
        res.append((op, old.lineno, lines[old.lineno - 1].strip(), ls[old.lineno - 1].strip(), txt))
    return res


def run(t):
    f, op, ln, old, new, txt = t
    w = "/tmp/mut/w%d" % os.getpid()
    if not os.path.isdir(w):
        subprocess.run(["cp", "-a", R, w])
    p = os.path.join(w, "mealpy", f)
    orig = open(os.path.join(R, "mealpy", f)).read()
    res = dict(file=f, line=ln, op=op, old=old, new=new, by=None)
    open(p, "w").write(txt)
    try:
        for c in FILES[f]:
            e = dict(os.environ, VERIF_REPO=w, VERIF_MAXFAIL="1", VERIF_SEED="1", VERIF_TIER="quick", VERIF_JOBS="1", VERIF_SCALE=os.environ.get("MUT_SCALE", "0.25"), VERIF_BUDGET="200", VERIF_EVIDENCE="/tmp/mut/ev%d" % os.getpid())
            if c in ("C03", "C07", "C08", "C09", "C06", "C05", "C17", "C22", "C15", "C26", "C28"):
                e["VERIF_ONLY"] = os.environ.get("MUT_ONLY", "PSO")
            try:
                r = subprocess.run(["bash", V + "/check.sh", c], capture_output=True, text=True, env=e, timeout=400)
            except subprocess.TimeoutExpired:
                res["by"] = c + ":timeout"
                break
            if r.returncode == 1 and "VIOLATION" in r.stdout:
                res["by"] = c
                break
            if r.returncode not in (0, 1) or r.returncode == 1:
                res["by"] = c + ":rc%d" % r.returncode + (r.stdout + r.stderr)[-200:]
                break
    finally:
        open(p, "w").write(orig)
    return res


if __name__ == "__main__":
    os.makedirs("/tmp/mut", exist_ok=True)
    n, seed, sub = int(sys.argv[1]), int(sys.argv[2]), sys.argv[3:]
    allm = []
    for f in FILES:
        if os.path.exists(R + "/mealpy/" + f) and (not sub or any(s in f for s in sub)):
            allm += [(f,) + m for m in mutants(R + "/mealpy/" + f)]
    print(collections.Counter(m[0] for m in allm), flush=True)
    random.Random(seed).shuffle(allm)
    res = []
    with cf.ProcessPoolExecutor(int(os.environ.get("MUT_WORKERS", "7"))) as ex, open("/tmp/mut/fw.jsonl", "a") as fo:
        for r in ex.map(run, allm[:n]):
            fo.write(json.dumps(r) + "\n"); fo.flush()
            res.append(r)
            if r["by"] is None:
                print("SURVIVED", r["op"], r["file"], r["line"], "|", r["old"][:150], "->", r["new"][:150], flush=True)
    print(collections.Counter((r["file"], r["by"] is not None) for r in res))
    print(collections.Counter(r["by"] for r in res if r["by"] and ":" in r["by"]).most_common(10))
