"""Development aid: builds seeded/<id>/ from tools/bugs.py and confirms each: applies, base lines only, tests pass, demo 0/1, which checks catch it.
usage: python3 tools/plant.py [--check] [--notest] [ids...]"""
import json, os, re, shutil, subprocess, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(V, "tools"))
from bugs import BUGS
R = "/repo"
args = [a for a in sys.argv[1:] if not a.startswith("--")]
flags = {a for a in sys.argv[1:] if a.startswith("--")}
W = os.environ.get("PLANT_DIR", "/tmp/plant/w")
stable = set(json.load(open("/opt/vp/BASELINE.json"))["stable"])
base = subprocess.run(["git", "-C", R, "rev-list", "--max-parents=0", "HEAD"], capture_output=True, text=True).stdout.strip()


def sh(cmd, cwd=None, env=None, timeout=900):
    e = dict(os.environ, **(env or {}))
    p = subprocess.run(cmd, shell=True, cwd=cwd, env=e, capture_output=True, text=True, timeout=timeout)
    return p.returncode, p.stdout + p.stderr


def fresh():
    if os.path.isdir(W):
        shutil.rmtree(W)
    sh("cp -a %s %s" % (R, W))


DEMO_SH = """#!/bin/bash
# run with cwd = the repository; 0 = the property holds here, nonzero = it does not
export PYTHONDONTWRITEBYTECODE=1 MPLBACKEND=Agg TQDM_DISABLE=1
PY=/opt/venv/bin/python; [ -x "$PY" ] || PY=python3
exec env PYTHONPATH="$PWD" "$PY" -B -W ignore "$(cd "$(dirname "$0")" && pwd)/demo.py"
"""
out = []
for b in BUGS:
    if args and b["id"] not in args:
        continue
    fresh()
    ok = []
    for f, old, new in b["edits"]:
        p = os.path.join(W, "mealpy", f)
        s = open(p).read()
        if s.count(old) != 1:
            ok.append("edit matches %d times in %s" % (s.count(old), f))
            continue
        open(p, "w").write(s.replace(old, new))
    if ok:
        print(b["id"], "EDIT", ok)
        continue
    rc, diff = sh("git diff", W)
    # every removed line must be from the original repository
    for m in re.finditer(r"^diff --git a/(\S+) .*?(?=^diff --git|\Z)", diff, re.M | re.S):
        fn = m.group(1)
        bl = sh("git blame -l HEAD -- %s" % fn, W)[1].splitlines()
        ln = 0
        for l in m.group(0).splitlines():
            h = re.match(r"@@ -(\d+)", l)
            if h:
                ln = int(h.group(1)) - 1
            elif l.startswith("-") and not l.startswith("---"):
                ln += 1
                if base[:30] not in bl[ln - 1]:
                    ok.append("line %d of %s is not original" % (ln, fn))
            elif l.startswith(" "):
                ln += 1
    d = os.path.join(V, "seeded", b["id"])
    os.makedirs(d, exist_ok=True)
    open(os.path.join(d, "patch.diff"), "w").write(diff)
    open(os.path.join(d, "demo.py"), "w").write(b["demo"].lstrip("\n"))
    open(os.path.join(d, "demo.sh"), "w").write(DEMO_SH)
    json.dump(dict(property=b["property"], needs=b["needs"], what_it_breaks=b["breaks"]), open(os.path.join(d, "meta.json"), "w"), indent=1)
    t = shutil.copytree(d, "/tmp/plant/demo-%s" % b["id"], dirs_exist_ok=True)
    r0, o0 = sh("bash %s/demo.sh" % t, R, timeout=300)
    r1, o1 = sh("bash %s/demo.sh" % t, W, timeout=300)
    shutil.rmtree(t)
    if r0 != 0:
        ok.append("demo fails on clean: " + o0[-300:])
    if r1 == 0:
        ok.append("demo passes on the patched tree")
    if "--notest" not in flags:
        rc, o = sh("TQDM_DISABLE=1 /opt/venv/bin/python -B -m pytest -q -n 4 --timeout=120 -p no:cacheprovider --doctest-modules tests 2>&1 | tail -6", W, {"PYTHONPATH": W})
        if "failed" in o or "error" in o.lower():
            ok.append("tests: " + o[-300:])
        else:
            ok.append("tests " + o.strip().splitlines()[-1][:40])
    caught = ""
    if "--check" in flags:
        for pid in [b["property"]] + b.get("also", []):
            rc, o = sh("bash check.sh %s | grep -c '^VIOLATION'; bash -c 'exit ${PIPESTATUS[0]}'" % pid, V, {"VERIF_REPO": W, "VERIF_SEED": "1", "VERIF_MAXFAIL": "1"}, 1200)
            caught += "%s:%s " % (pid, "CAUGHT" if o.strip().splitlines()[-1] != "0" else "missed")
    if caught:
        rf = os.path.join(V, "tools", "plant_results.json")
        res = json.load(open(rf)) if os.path.exists(rf) else {}
        res[b["id"]] = caught.strip()
        json.dump(res, open(rf, "w"), indent=0, sort_keys=True)
    print(b["id"], b["property"], "demo %d/%d" % (r0, r1), caught, "; ".join(ok), flush=True)
shutil.rmtree(W, ignore_errors=True)
