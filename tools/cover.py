"""Development aid: lines of the package that the given checks did not execute.
usage: VERIF_COV=DIR bash check.sh C23 ...; python3 tools/cover.py DIR [C23 ...] [-v]"""
import glob, os, sys, types
R = os.environ.get("VERIF_REPO", "/repo")
d = sys.argv[1]
ids = [a for a in sys.argv[2:] if a.startswith("C")]
hit = set()
for f in glob.glob(d + "/*.txt"):
    if ids and os.path.basename(f).split("-")[0] not in ids:
        continue
    for l in open(f):
        a, b = l.rstrip("\n").rsplit(":", 1)
        hit.add((a, int(b)))


def lines(code, inside=False):
    if inside:
        for _, _, ln in code.co_lines():
            if ln and ln != code.co_firstlineno:
                yield ln
    for c in code.co_consts:
        if isinstance(c, types.CodeType):
            yield from lines(c, inside or not (c.co_flags & 0x2 == 0))


tot = miss = 0
for f in sorted(glob.glob(R + "/mealpy/**/*.py", recursive=True)):
    src = open(f).read()
    code = compile(src, f, "exec")
    L = set()
    for c in code.co_consts:
        if isinstance(c, types.CodeType):
            # class bodies and functions: function lines only
            def walk(k):
                if k.co_flags & 0x2:
                    L.update(ln for _, _, ln in k.co_lines() if ln and ln != k.co_firstlineno)
                for q in k.co_consts:
                    if isinstance(q, types.CodeType):
                        walk(q)
            walk(c)
    m = sorted(l for l in L if (f, l) not in hit)
    tot += len(L)
    miss += len(m)
    if m:
        s = src.split("\n")
        print("== %s: %d of %d" % (os.path.relpath(f, R), len(m), len(L)))
        if "-v" in sys.argv:
            for l in m:
                print("  %d %s" % (l, s[l - 1].strip()[:130]))
print("missed %d of %d" % (miss, tot))
