#!/usr/bin/env python3
"""Developer tool: runs the check of every planted bug's property against it.

  seeded.py [--also P01,P02|--all] [id...]   writes build/seeded.json
"""
import json, os, subprocess, sys, time

V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
W = "/tmp/plant"
sys.path.insert(0, V + "/tools")
args = sys.argv[1:]
also = []
if args[:1] == ["--also"]:
    also = args[1].split(",")
    args = args[2:]
ids = args or sorted(os.listdir(V + "/seeded"))
out = V + "/build/seeded.json"
res = json.load(open(out)) if os.path.exists(out) else {}
os.makedirs(W + "/build", exist_ok=True)
for i in ids:
    d = os.path.join(V, "seeded", i)
    meta = json.load(open(d + "/meta.json"))
    subprocess.run("git fetch -q /repo HEAD && git reset -q --hard FETCH_HEAD && git clean -qfd && git apply %s/patch.diff" % d, shell=True, cwd=W + "/repo", check=True)
    for p in [meta["property"]] + also:
        t = time.time()
        r = subprocess.run(["unshare", "-m", "bash", "-c", "mount --bind %s/repo /repo && mount --bind %s/build %s/build && cd %s && VERIF_SEED=%s python3 check.py %s" % (W, W, V, V, os.environ.get("VERIF_SEED", "1"), p)],
                           stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
        line = [l for l in r.stdout.splitlines() if l.startswith("VIOLATION property=" + p)]
        ok = r.returncode == 1 and line
        why = next((l for l in r.stdout.splitlines() if l.startswith(("  ", "what:")) or "key" in l), "")
        res.setdefault(i, {})[p] = "caught" if ok else "missed rc=%d" % r.returncode
        print("%-28s %s %-8s %4.0fs %s" % (i, p, "caught" if ok else "MISSED", time.time() - t, (line[0] if line else r.stdout[-300:].replace("\n", " | "))), flush=True)
    json.dump(res, open(out, "w"), indent=1)
subprocess.run("git checkout -q -- .", shell=True, cwd=W + "/repo")
