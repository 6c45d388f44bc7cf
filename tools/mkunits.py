"""Development-time: writes corpus/units.json, the documented units of every wrapped function (pinned, so that a check notices a unit that changes)."""
import inspect
import json
import sys
sys.path.insert(0, "/repo")
import fluids
import fluids.units as U

out = {}
for name in dir(fluids):
    f = getattr(fluids, name)
    if f in U.in_vars_cache if inspect.isfunction(f) else False:
        iv = list(dict.fromkeys(zip(U.in_vars_cache[f], U.in_units_cache[f])))
        out["%s:%s" % (f.__module__, name)] = {"in": iv, "out": list(zip(U.out_vars_cache[f], U.out_units_cache[f]))}
with open("/verif/corpus/units.json", "w") as fh:
    json.dump(out, fh, indent=0, sort_keys=True)
    fh.write("\n")
print(len(out))
us = {}
for k, v in out.items():
    for n, u in v["in"]:
        us.setdefault(u, []).append(k + "." + n)
print({u: len(x) for u, x in sorted(us.items())})
