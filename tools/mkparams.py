"""Writes data/params.json: the parameters every optimizer declares, with the type/range its constructor documents and checks.
A recorded reference (run once, reviewed against the docstrings), not recomputed by the checks."""
import json, os, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, V)
from pbt import boot, algos
out = {}
def val(v):
    import numpy as np
    if isinstance(v, (np.integer,)): return int(v)
    if isinstance(v, (np.floating,)): return float(v)
    if isinstance(v, (list, tuple, type({}.keys()), set)): return [val(x) for x in v]
    return v
for n, c in algos.all_classes().items():
    o = c()
    sp = algos.param_specs(n)
    out[n] = {}
    for k in algos.ctor_params(n):
        s = sp.get(k)
        d = val(o.get_parameters()[k])
        out[n][k] = dict(default=d, kind=s.kind if s else None, open=isinstance(s.bound, tuple) if s else None, bound=val(s.bound) if s and s.bound is not None else None)
json.dump(out, open(os.path.join(V, "data", "params.json"), "w"), indent=0, sort_keys=True)
import collections
print(collections.Counter(p["kind"] for q in out.values() for p in q.values()))
print([(n,k,p) for n,q in out.items() for k,p in q.items() if p["kind"] not in ("check_int","check_float")][:60])
