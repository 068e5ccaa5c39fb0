"""Writes /verif/DESIGN.md from tools/design_head.md, the RULE of each check, tools/design_notes.json, and tools/design_tail.md."""
import ast, json, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
T = os.path.join(V, "tools")
notes = {}
cur = None
for l in open(os.path.join(T, "design_notes.md")):
    if l.startswith("## "):
        cur = l[3:].strip()
        notes[cur] = ""
    elif cur:
        notes[cur] += l
out = [open(os.path.join(T, "design_head.md")).read(), "\n## Per property\n"]
for p in map(json.loads, open(os.path.join(V, "properties.jsonl"))):
    f = os.path.join(V, "checks", p["id"].lower() + ".py")
    out.append("### %s — %s\n" % (p["id"], p["title"]))
    if os.path.exists(f):
        ns = {}
        for n in ast.parse(open(f).read()).body:
            if isinstance(n, ast.Assign) and getattr(n.targets[0], "id", "") in ("RULE", "ASSUMPTIONS"):
                ns[n.targets[0].id] = ast.literal_eval(n.value)
        out.append("*Decided by*: " + ns["RULE"] + ".\n")
        out.append("*Why beyond the tests*: " + p["why_tests_cant"] + "\n")
        if ns.get("ASSUMPTIONS"):
            out.append("*Assumes*: " + "; ".join(ns["ASSUMPTIONS"]) + "\n")
    else:
        out.append("not built yet (listed under not_applicable meanwhile)\n")
    if p["id"] in notes:
        out.append(notes[p["id"]].strip() + "\n")
tail = open(os.path.join(T, "design_tail.md")).read()
rf = os.path.join(T, "plant_results.json")
res = json.load(open(rf)) if os.path.exists(rf) else {}
rows = ["| planted bug | what it breaks | needs | checks |", "|---|---|---|---|"]
for i in sorted(os.listdir(os.path.join(V, "seeded"))):
    m = json.load(open(os.path.join(V, "seeded", i, "meta.json")))
    rows.append("| %s | %s | %s | %s |" % (i, m["what_it_breaks"], m["needs"], res.get(i, "").replace(":", " ").lower()))
out.append(tail.replace("@TABLE@", "\n".join(rows)))
open(os.path.join(V, "DESIGN.md"), "w").write("\n".join(out))
