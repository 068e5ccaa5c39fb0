"""python -m pbt.replay FILE : re-executes one saved case without Hypothesis; exit 1 if it still violates."""
import json, sys
from . import boot  # noqa
from . import engine
import importlib
r = json.load(open(sys.argv[1]))
mod = importlib.import_module("checks.%s" % r["property"].lower())
out = engine.run_case(mod, r["unit"], r["case"])
for v in out.violations:
    print("VIOLATES", v)
print("labels", out.labels)
sys.exit(1 if any((s, k) == (r["site"], r["kind"]) for s, k, _ in out.violations) else 0)
