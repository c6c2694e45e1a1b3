#!/usr/bin/env python3
"""Writes /verif/MANIFEST.json from harness/specs.py and properties.jsonl."""
import json, os, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(V, "harness"))
from specs import SPECS
NA = {}
props = [json.loads(l) for l in open(os.path.join(V, "properties.jsonl"))]
TECH = {
    "asan": "reference-model oracle over generated executions of the real code under ASan+UBSan",
    "tsan": "ThreadSanitizer over concurrent workloads, with results compared to the single-threaded run",
    "memcheck": "Valgrind memcheck definedness monitoring of every output",
    "fast": "reference-model oracle over generated executions of the optimised build",
    "node": "reference-model oracle over executions of the example under Node.js",
}
checks, na = [], []
for p in props:
    pid = p["id"]
    if pid not in SPECS:
        na.append({"property": pid, "reason": NA.get(pid, "no check yet")})
        continue
    s = SPECS[pid]
    configs = []
    for part in s["parts"]:
        if part["config"] not in configs:
            configs.append(part["config"])
    checks.append({
        "property": pid,
        "quick_cmd": "VERIF_TIER=quick python3 check.py " + pid,
        "thorough_cmd": "VERIF_TIER=thorough python3 check.py " + pid,
        "technique": "runtime monitoring: " + "; ".join(TECH[c] for c in configs),
        "level": "exploration",
        "level_note": "Holds on the executions produced (%s). Trusts the craftpp stand-in in shim/, the compiler and sanitizers, and the independent reference models in harness/." % s["rule"],
    })
m = {"version": 1, "setup_cmd": "python3 setup.py", "checks": checks, "not_applicable": na,
     "hooks": {"guard": "FREEWEBRTC_VERIF", "enable": "no hooks were needed: the monitors observe the public interface only", "source_commits": []},
     "notes": "one driver (check.py), harnesses in harness/, one spec per property in harness/specs.py"}
with open(os.path.join(V, "MANIFEST.json"), "w") as f:
    json.dump(m, f, indent=1)
    f.write("\n")
