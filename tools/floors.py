"""Shows, per check, floors closer than a factor 2 to what the last run observed."""
import json, os, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, V + "/harness")
from specs import SPECS
for p, s in sorted(SPECS.items()):
    f = f"{V}/evidence/{p}.json"
    if not os.path.exists(f): print(p, "no evidence"); continue
    ev = json.load(open(f))["coverage"].get("events_observed", {})
    for k, v in s["require"].items():
        if ev.get(k, 0) < 1.6 * v and v > 1: print(p, k, "floor", v, "observed", ev.get(k, 0))
