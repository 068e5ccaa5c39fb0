"""Writes /verif/MANIFEST.json from the check modules present.  Run: python3 tools/mkmanifest.py"""
import ast, json, os, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
NOT = {}
for l in open(os.path.join(V, "tools", "unclaimed.txt")):
    if l.strip():
        k, _, r = l.strip().partition(" ")
        NOT[k] = r
TECH = "property-based testing (Hypothesis generation + shrinking), oracle: "
ORACLE = {
 "C01": "recompute the objective at every reported solution",
 "C02": "feasibility predicate on every recorded objective call and reported solution",
 "C03": "best-so-far model over the recorded history and the recorded evaluations",
 "C04": "differential between runs with equal seed under disturbed surroundings",
 "C05": "differential sequential vs thread/process run under controlled completion orders",
 "C06": "model of the stopping rule fed by an unlimited reference run, controlled clock",
 "C07": "counting objective",
 "C08": "snapshots taken while the run proceeds vs the final history; caller mutations",
 "C09": "recorded evaluation sequence vs the given starting points; rejection model",
 "C10": "reference model of every variable type; round trips",
 "C11": "slice-wise differential between a problem and its variables",
 "C12": "independent weighted sum; copy-then-mutate",
 "C13": "reference sorting/selection on generated populations",
 "C14": "admissible-set model plus bounded-error statistical support/direction tests",
 "C15": "parameter-declaration model; differential set_parameters vs constructor",
 "C16": "reference predicate for every validator",
 "C17": "round trip through save/load, continuation differential",
 "C18": "scripted optimizer with known trial tables; reference tuner",
 "C19": "scripted optimizer with per-run logs; reference dispatcher",
 "C20": "reference grid enumeration",
 "C21": "independent package walk as reference registry",
 "C22": "fault injection at generated evaluation indices, recovery differential",
 "C23": "completion/finite-result invariant with evaluation and CPU bounds",
 "C24": "recorded plotting calls vs history series",
 "C25": "analytic laws of transfer functions, maps, weights, encoders",
 "C27": "metamorphic relation: min f vs max -f, same seed, same evaluations",
 "C28": "metamorphic relation: two notations of one problem, same seed, same run",
 "C29": "metamorphic relation: strictly increasing transformation of the objective, same seed, same evaluations",
 "C30": "invariant over every recorded population",
 "C31": "invariant over the evaluations per generation; differential over seeds",
 "C32": "invariant over consecutive recorded populations",
 "C33": "metamorphic relation: power-of-two units of the variables, same seed, same evaluations",
 "C34": "randomised comparison with uniform sampling of the same budget, eight runs per case",
 "C35": "invariant over every objective argument under user-defined correction rules",
 "C36": "model-based: random programs of building blocks against a model kept along",
 "C26": "captured log destinations vs recorded history; differential over destinations",
}
checks, na = [], []
for p in map(json.loads, open(os.path.join(V, "properties.jsonl"))):
    i = p["id"]
    f = os.path.join(V, "checks", i.lower() + ".py")
    if not os.path.exists(f) or i in NOT:
        na.append(dict(property=i, reason=NOT.get(i, "check not built yet")))
        continue
    checks.append(dict(property=i, quick_cmd="bash check.sh %s" % i, thorough_cmd="VERIF_TIER=thorough bash check.sh %s" % i,
                       evidence_file="evidence/%s.json" % i, technique=TECH + ORACLE[i], level="exploration",
                       level_note="Generated-input search; assurance is that of the cases explored (counts and samples in the evidence). Deterministic for a given VERIF_SEED except for wall-clock limits. Trusts numpy, Hypothesis and the harness's reference model."))
m = dict(version=1, setup_cmd="bash check.sh --selftest", checks=checks, not_applicable=na,
         notes="Source under test is imported directly from /repo's working tree; no build step and no hooks needed. Known findings: known_findings.txt.")
json.dump(m, open(os.path.join(V, "MANIFEST.json"), "w"), indent=1)
print(len(checks), "claimed;", [n["property"] for n in na])
