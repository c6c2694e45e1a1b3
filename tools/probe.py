#!/usr/bin/env python3
"""Tries hand-written changes (developer tool; no check uses it).

  probe.py FILE.py [id…]     FILE.py defines BUGS: (id, [property…], [(file, old, new)…])

Each change goes into a scratch copy; the checks of its properties are run until
one reports a violation.
"""
import os, runpy, shutil, subprocess, sys
from multiprocessing import Process, Queue
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
ROOT = "/tmp/probe"


def worker(k, q, res):
    base = "%s/w%d" % (ROOT, k)
    shutil.rmtree(base, ignore_errors=True)
    os.makedirs(base)
    subprocess.run(["cp", "-a", "/repo", base + "/repo"], check=True)
    os.makedirs(base + "/verif")
    for x in ("shim", "locale", "harness", "check.py", "known_findings.txt"):
        subprocess.run(["cp", "-a", os.path.join(V, x), base + "/verif/"], check=True)
    env = dict(os.environ, VERIF_REPO=base + "/repo")
    while (job := q.get()) is not None:
        bid, props, edits = job
        saved, out = {}, ""
        try:
            for f, old, new in edits:
                p = base + "/repo/" + f
                t = open(p).read()
                saved.setdefault(p, t)
                if t.count(old) != 1:
                    raise ValueError("%s: %d places" % (f, t.count(old)))
                open(p, "w").write(t.replace(old, new))
            state = "MISSED"
            for pid in props:
                r = subprocess.run(["python3", "check.py", pid], cwd=base + "/verif", env=env, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
                if r.returncode == 1 and "VIOLATION" in r.stdout:
                    line = [l for l in r.stdout.splitlines() if not l.startswith("VIOLATION")]
                    state = "caught by %s: %s" % (pid, line[-1][:150] if line else "")
                    break
                if r.returncode != 0:
                    out += r.stdout[-1500:]
                    state = "NO ANSWER"
        except Exception as e:
            state = "BAD PATCH %s" % e
        for p, t in saved.items():
            open(p, "w").write(t)
        res.put((bid, props, state, out))
    shutil.rmtree(base, ignore_errors=True)


def main():
    bugs = runpy.run_path(sys.argv[1])["BUGS"]
    want = set(sys.argv[2:])
    bugs = [b for b in bugs if not want or b[0] in want]
    q, res = Queue(), Queue()
    for b in bugs:
        q.put(b)
    n = min(3, len(bugs))
    for _ in range(n):
        q.put(None)
    ps = [Process(target=worker, args=(k, q, res), daemon=True) for k in range(n)]
    for p in ps:
        p.start()
    for _ in bugs:
        bid, props, state, out = res.get()
        print("%-28s %-14s %s" % (bid, ",".join(props), state), flush=True)
        if state == "NO ANSWER":
            print("    " + out.replace("\n", "\n    "), flush=True)
    for p in ps:
        p.join()


main()
