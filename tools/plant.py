#!/usr/bin/env python3
"""Developer tool: turns descriptions of planted bugs into seeded/<id>/ after
confirming them in a scratch copy (needs the right to create a mount namespace).

  plant.py FILE.py...   every FILE defines BUGS, a list of dicts:
     id, prop, needs, breaks, edits=[(file, old, new)...], cpp (demo),
     srcs=[globs below src], flags
"""
import glob, json, os, re, shutil, subprocess, sys, runpy

V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
W = "/tmp/plant"

DEMO_SH = """#!/bin/bash
# Exit 0: the property holds in this demonstration. Run in the repository.
set -u
here=$(cd "$(dirname "$0")" && pwd)
tmp=$(mktemp -d)
trap 'rm -rf "$tmp"' EXIT
export here tmp repo=$PWD
cc() {{
    {cxx} -std=gnu++20 -w -O1 -g {flags} -I"$here/shim" -I"$repo/src" -I"$repo" -I"$here" -c "$1" -o "$tmp/$(echo "$1" | tr '/' '_').o" || {{ echo "$1 does not compile" >&2; exit 1; }}
}}
export -f cc
printf '%s\\n' "$here/demo.cpp" {srcs} | xargs -P 8 -I {{}} bash -c 'cc {{}}' || exit 1
{cxx} {flags} "$tmp"/*.o -lcrypto -lpthread -o "$tmp/demo" || exit 1
timeout 200 "$tmp/demo"
"""


def ns(cmd, timeout=1500):
    """Runs with the scratch copy in the place of /repo."""
    return subprocess.run(["unshare", "-m", "bash", "-c", "mount --bind %s/repo /repo && cd /repo && %s" % (W, cmd)],
                          stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, timeout=timeout)


def fresh():
    if not os.path.isdir(W + "/repo"):
        subprocess.run(["cp", "-a", "/repo", W + "/repo"], check=True)
    subprocess.run("git fetch -q /repo HEAD && git reset -q --hard FETCH_HEAD && git clean -qfd", shell=True, cwd=W + "/repo", check=True)


def plant(b):
    fresh()
    repo = W + "/repo"
    base = subprocess.run(["git", "rev-list", "--max-parents=0", "HEAD"], cwd=repo, stdout=subprocess.PIPE, text=True).stdout.split()[0]
    for f, old, new in b["edits"]:
        p = os.path.join(repo, f)
        t = open(p).read()
        if t.count(old) != 1:
            return "%s: text found %d times" % (f, t.count(old))
        open(p, "w").write(t.replace(old, new))
    diff = subprocess.run(["git", "diff"], cwd=repo, stdout=subprocess.PIPE, text=True).stdout
    removed = [l[1:] for l in diff.splitlines() if l.startswith("-") and not l.startswith("---")]
    orig = ""
    for f in {e[0] for e in b["edits"]}:
        orig += subprocess.run(["git", "show", base + ":" + f], cwd=repo, stdout=subprocess.PIPE, text=True).stdout
    notorig = [l for l in removed if l.strip() and l not in orig]
    if notorig or not removed:
        print("  note: lines of own commits (or none) removed: %r" % notorig)
    d = os.path.join(V, "seeded", b["id"])
    if os.path.isdir(d):
        shutil.rmtree(d)
    os.makedirs(d)
    open(d + "/patch.diff", "w").write(diff)
    open(d + "/demo.cpp", "w").write(b["cpp"])
    if "demo.hpp" in b["cpp"]:
        shutil.copy(os.path.join(V, "tools", "demo.hpp"), d + "/demo.hpp")
    srcs = " ".join('"$repo"/src/%s' % s for s in b.get("srcs", []))
    if b.get("srcs") or "craftpp" in b["cpp"] or b.get("shim", True):
        shutil.copytree(V + "/shim", d + "/shim")
    open(d + "/demo.sh", "w").write(DEMO_SH.format(cxx=b.get("cxx", "g++"), flags=b.get("flags", ""), srcs=srcs))
    os.chmod(d + "/demo.sh", 0o755)
    json.dump({"property": b["prop"], "needs": b["needs"], "what_it_breaks": b["breaks"]}, open(d + "/meta.json", "w"), indent=1)
    r = ns("bash /opt/vp/test.sh %s/out.json" % W)
    res = json.load(open(W + "/out.json")) if os.path.exists(W + "/out.json") else {}
    stable = json.load(open("/opt/vp/BASELINE.json"))["stable"]
    missing = set(stable) - set(res.get("passed", []))
    if missing:
        shutil.rmtree(d)
        return "tests fail: %s %s" % (sorted(missing)[:3], r.stdout[-800:])
    r = ns("bash %s/demo.sh" % d)
    bad = r.returncode
    badout = r.stdout
    subprocess.run("git checkout -q -- .", shell=True, cwd=repo, check=True)
    r = ns("bash %s/demo.sh" % d)
    if r.returncode != 0 or bad == 0:
        shutil.rmtree(d)
        return "demo: clean %d, patched %d\n%s\n%s" % (r.returncode, bad, r.stdout[-1500:], badout[-800:])
    if "does not compile" in badout:
        shutil.rmtree(d)
        return "demo fails to compile with the patch\n" + badout[-1500:]
    return None


for f in sys.argv[1:]:
    for b in runpy.run_path(f)["BUGS"]:
        if os.environ.get("ONLY") and os.environ["ONLY"] != b["id"]:
            continue
        why = plant(b)
        print("%-28s %s %s" % (b["id"], b["prop"], "kept" if why is None else "DROPPED: " + why), flush=True)
