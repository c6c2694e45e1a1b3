#!/usr/bin/env python3
"""Decides one property of /repo by running its monitors.

  check.py <ID>                 tier and seed from VERIF_TIER and VERIF_SEED
  check.py <ID> --replay FILE   runs the recorded case again
  check.py --all                every property (developer convenience)

Exit 0: held on everything explored. Exit 1 and a VIOLATION line: broken. Any
other exit: the machinery could not answer (build failure, lost run, nothing
observed).
"""
import array, fcntl, glob, json, os, re, shlex, shutil, subprocess, sys, time
import hashlib
from concurrent.futures import ThreadPoolExecutor

V = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get("VERIF_REPO", "/repo")
NCPU = os.cpu_count() or 4
sys.path.insert(0, os.path.join(V, "harness"))
from specs import SPECS, CONFIGS, EXCLUDE  # noqa: E402

# Sources that upstream does not build either.
WALL_LIMIT = {"quick": 600, "thorough": 3 * 3600}


def say(*a):
    print(*a, flush=True)


def build_root():
    tag = "" if REPO == "/repo" else "-" + hashlib.sha1(REPO.encode()).hexdigest()[:8]
    return os.path.join(V, "build" + tag)


class Broken(Exception):
    """The machinery cannot answer."""


class Unlinked(Broken):
    pass


def sources(dirs):
    out = []
    for d in dirs:
        if d.endswith(".cpp"):  # a single file, relative to the repository
            if os.path.exists(os.path.join(REPO, d)):
                out.append(os.path.join(REPO, d))
            continue
        for root, _, files in os.walk(os.path.join(REPO, "src", d)):
            out += [os.path.join(root, f) for f in files if f.endswith(".cpp") and f not in EXCLUDE]
    return sorted(out)


def build(config, harness, dirs):
    """Builds harness/<harness>.cpp with the library of REPO; returns the program."""
    if CONFIGS[config].get("node"):
        return build_node(config, harness, dirs)
    try:
        return build_from(config, harness, dirs)
    except Unlinked:
        # The listed part of the library does not stand alone (any more): all of it.
        new = [d for d in sorted(os.listdir(os.path.join(REPO, "src"))) if os.path.isdir(os.path.join(REPO, "src", d))]
        return build_from(config, harness, sorted(set(new + [d for d in dirs if d.endswith(".cpp") and not d.startswith("src/")])))


def forget_outdated(bdir):
    """ninja goes by times only: a file replaced by one that is not newer than what was built would go unnoticed."""
    now, state = {}, os.path.join(bdir, "files.json")
    for top in (os.path.join(REPO, "src"), os.path.join(REPO, "node"), os.path.join(V, "shim"), os.path.join(V, "harness")):
        for root, _, files in os.walk(top):
            for f in files:
                st = os.stat(os.path.join(root, f))
                now[os.path.join(root, f)] = [st.st_mtime_ns, st.st_size]
    if os.path.exists(state):
        with open(state) as f:
            was = json.load(f)
        built = os.stat(state).st_mtime_ns
        if any(k not in now or (was.get(k) != v and v[0] <= built) for k, v in list(now.items()) + [(k, None) for k in was if k not in now]):
            for f in os.listdir(bdir):
                if f.endswith(".o"):
                    os.unlink(os.path.join(bdir, f))
    if not os.path.exists(state) or was != now:
        with open(state, "w") as f:
            json.dump(now, f)


def build_node(config, harness, dirs):
    """Bundles harness/<harness>.js with the sources of dirs[0], and dirs[1] for itself; returns the bundle."""
    esbuild = shutil.which("esbuild") or "/opt/veriftools/node/node_modules/.bin/esbuild"
    bdir = os.path.join(build_root(), config)
    os.makedirs(bdir, exist_ok=True)
    prog, common = os.path.join(bdir, harness + ".js"), ["--bundle", "--platform=node", "--format=cjs", "--log-level=warning"]
    with open(os.path.join(bdir, "lock"), "w") as lock:
        fcntl.flock(lock, fcntl.LOCK_EX)
        for cmd in [[esbuild, os.path.join(V, "harness", harness + ".js"), "--alias:example=" + os.path.join(REPO, dirs[0]), "--outfile=" + prog],
                    [esbuild, os.path.join(REPO, dirs[1]), "--external:*/echo_backend", "--outfile=" + os.path.join(bdir, harness + "_app.js")]]:
            r = subprocess.run(cmd + common, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
            if r.returncode != 0:
                sys.stderr.write(r.stdout[-6000:])
                raise Broken("harness %s cannot be bundled with the tree" % harness)
    return prog


def build_from(config, harness, dirs):
    cfg = CONFIGS[config]
    bdir = os.path.join(build_root(), config)
    os.makedirs(bdir, exist_ok=True)
    with open(os.path.join(bdir, "lock"), "w") as lock:
        fcntl.flock(lock, fcntl.LOCK_EX)
        forget_outdated(bdir)
        nin = os.path.join(bdir, harness + ".ninja")
        inc = "-I%s/shim -I%s/src -I%s -I%s/harness" % (V, REPO, REPO, V)
        objs, lines = [], [
            "builddir = " + bdir,
            "rule cc\n  command = %s %s %s -MMD -MF $out.d -c $in -o $out\n  depfile = $out.d\n  deps = gcc"
            % (cfg["cxx"], cfg["cflags"], inc)]
        hobj = os.path.join(bdir, "h_" + harness + ".o")
        # The harness first: it is the longest one.
        lines.append("build %s: cc %s" % (hobj, os.path.join(V, "harness", harness + ".cpp")))
        for s in sources(dirs):
            o = os.path.join(bdir, os.path.relpath(s, REPO).replace("/", "_") + ".o")
            objs.append(o)
            lines.append("build %s: cc %s" % (o, s))
        # Longest compilation first.
        text = "\n".join(lines) + "\n"
        if not os.path.exists(nin) or open(nin).read() != text:
            with open(nin, "w") as f:
                f.write(text)
        r = subprocess.run(["ninja", "-f", nin, "-k", "0", "-j", str(NCPU)], cwd=bdir, stdout=subprocess.PIPE,
                           stderr=subprocess.STDOUT, text=True)
        failed = set(re.findall(r"^FAILED: (?:\[code=\d+\] )?(\S+)", r.stdout, re.M))
        if r.returncode != 0:
            sys.stderr.write(r.stdout[-6000:])
            if hobj in failed or not failed:
                raise Broken("harness %s does not compile against the tree" % harness)
        good = [o for o in objs if o not in failed and os.path.exists(o)]
        # The link is redone when anything is newer than the program.
        prog = os.path.join(bdir, harness)
        key = hashlib.sha1("\n".join(good).encode()).hexdigest()
        stamp = prog + ".stamp"
        newest = max(os.stat(o).st_mtime_ns for o in good + [hobj])
        state = "%s %d" % (key, newest)
        if not (os.path.exists(prog) and os.path.exists(stamp) and open(stamp).read() == state):
            lib = os.path.join(bdir, "lib_" + harness + ".a")
            if os.path.exists(lib):
                os.unlink(lib)
            if good:
                subprocess.run(["ar", "rcs", lib] + good, check=True)
            cmd = [cfg["cxx"]] + shlex.split(cfg["ldflags"]) + [hobj] + ([lib] if good else []) + ["-lcrypto", "-lpthread", "-o", prog]
            r = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
            if r.returncode != 0:
                sys.stderr.write(r.stdout[-6000:])
                raise Unlinked("harness %s does not link" % harness)
            with open(stamp, "w") as f:
                f.write(state)
        return prog


ENV = {
    "ASAN_OPTIONS": "abort_on_error=1:halt_on_error=1:detect_leaks=0:detect_stack_use_after_return=1:check_initialization_order=1:strict_init_order=1:"
                    "hard_rss_limit_mb=2600:allocator_may_return_null=0:detect_container_overflow=1:print_summary=1:symbolize=1:max_free_fill_size=4096:free_fill_byte=238",
    "UBSAN_OPTIONS": "print_stacktrace=1:halt_on_error=1:abort_on_error=1",
    "TSAN_OPTIONS": "halt_on_error=1:abort_on_error=1:exitcode=66:second_deadlock_stack=1:history_size=4",
    "LC_ALL": "C",
    "LOCPATH": os.path.join(V, "locale"),
    "TZ": "UTC",
}


def run_shard(job):
    prog, args, out, wrap, limit = job
    env = dict(os.environ)
    env.update(ENV)
    sym = shutil.which("llvm-symbolizer") or shutil.which("llvm-symbolizer-18")
    if sym:
        env["ASAN_SYMBOLIZER_PATH"] = sym
    err = open(out + ".err", "wb")
    t0 = time.time()
    try:
        p = subprocess.Popen(wrap + [prog] + args + ["--out", out], stdout=err, stderr=err, stdin=subprocess.DEVNULL, env=env)
        rc = p.wait(timeout=limit)
    except subprocess.TimeoutExpired:
        p.kill()
        p.wait()
        rc = "timeout"
    err.close()
    return rc, time.time() - t0


def read_state(out):
    try:
        b = open(out + ".state", "rb").read()
        return b[:64].split(b"\0")[0].decode(), int.from_bytes(b[64:72], sys.byteorder)
    except OSError:
        return "", 0


def crash_key(err):
    """Short name of what ended the process, and where."""
    what = "crash"
    m = (re.search(r"ERROR: AddressSanitizer: ([\w-]+)", err) or re.search(r"WARNING: ThreadSanitizer: ([\w -]+?)(?: \(|$)", err, re.M)
         or re.search(r"runtime error: ([^\n]{1,60})", err) or re.search(r"(CRAFTPP-CONTRACT: [^\n]{1,60})", err)
         or re.search(r"(hard rss limit exhausted)", err) or re.search(r"(Assertion [^\n]{1,80})", err) or re.search(r"(terminate called[^\n]{0,80})", err)
         or re.search(r"==\d+== ((?:Invalid|Conditional|Use of|Syscall|Jump)[^\n]{1,60})", err))
    if m:
        what = m.group(1).strip()
    where = ""
    # The innermost frame inside the repository.
    m = re.search(r"in ([\w:~<>]+)[^\n]*? %s/(src/[\w/.]+)" % re.escape(REPO), err) or re.search(r"(?:at|by) 0x[0-9A-F]+: ([\w:~<>]+)[^\n]*\((\w+\.[ch]pp):", err)
    if m:
        where = "@" + os.path.basename(m.group(2))
    return re.sub(r"[^\w@.:-]+", "-", what)[:80] + where


def load_known():
    known = []
    p = os.path.join(V, "known_findings.txt")
    if os.path.exists(p):
        for line in open(p):
            m = re.match(r"open: property=(\S+) key=(\S+) (.*)", line.strip())
            if m:
                known.append(m.groups())
    return known


def decide(prop, replay=None):
    t0 = time.time()
    tier = os.environ.get("VERIF_TIER", "quick")
    if tier not in ("quick", "thorough"):
        tier = "quick"
    seed = int(os.environ.get("VERIF_SEED", "1") or 1)
    spec = SPECS[prop]
    if replay:
        rec = json.load(open(replay))
        tier, seed = rec["tier"], rec["seed"]
    work = os.path.join(build_root(), "run", prop + ("-replay" if replay else ""))
    shutil.rmtree(work, ignore_errors=True)
    os.makedirs(work)
    violations = []   # (key, message, record)
    broken = []
    events, cases, samples, hashes, seen, lost = {}, {}, [], set(), 0, 0
    runs = []
    for part in spec["parts"]:
        if replay and (part["harness"] != rec["harness"] or part["config"] != rec["config"] or part.get("locale", "") != rec.get("locale", "")):
            continue
        try:
            runs.append((part, build(part["config"], part["harness"], part["dirs"])))
        except Broken as e:
            broken.append(str(e))
    build_s = time.time() - t0
    jobs = []
    for part, prog in runs:
        n = part.get("shards", {}).get(tier, part.get("shards", {}).get("any", 8))
        if replay:
            n = 1
        scale = part.get("scale", {}).get(tier, 1)
        for i in range(n):
            args = ["--prop", prop, "--seed", str(seed)] + (["--thorough"] if tier == "thorough" else [])
            if scale != 1:
                args += ["--scale", str(scale)]
            if part.get("group") and not replay:
                args += ["--group", part["group"]]
            if replay:
                args += ["--group", rec["group"], "--idx", str(rec["idx"])]
            else:
                args += ["--shard", str(i), str(n)]
            if part.get("locale"):
                args += ["--locale", part["locale"]]
            if part.get("no_leaks"):
                args += ["--no-leaks"]
            out = os.path.join(work, "%s.%s.%d" % (part["harness"], part["config"], len(jobs)))
            jobs.append((part, (prog, args, out, CONFIGS[part["config"]].get("wrap", []), WALL_LIMIT[tier])))
    with ThreadPoolExecutor(max_workers=NCPU) as ex:
        results = list(ex.map(run_shard, [j for _, j in jobs]))
    for (part, job), (rc, _) in zip(jobs, results):
        prog, args, out, wrap, limit = job
        base = {"property": prop, "harness": part["harness"], "config": part["config"], "locale": part.get("locale", ""), "tier": tier, "seed": seed}
        err = open(out + ".err", errors="replace").read()
        if os.path.exists(out + ".viol"):
            for line in open(out + ".viol", errors="replace"):
                try:
                    v = json.loads(line)
                except ValueError:
                    continue
                violations.append((v["key"], v["msg"], dict(base, group=v["group"], idx=v["idx"], where=v["line"])))
        complete = os.path.exists(out + ".json")
        if complete and rc == 0:
            j = json.load(open(out + ".json"))
            for k, n in j["events"].items():
                events[k] = events.get(k, 0) + n
            for k, n in j["cases"].items():
                cases[k] = cases.get(k, 0) + n
            for s in j["samples"]:
                if sum(1 for x in samples if x["group"] == s["group"]) < 2:
                    samples.append(s)
            seen += j["seen"]
            a = array.array("Q")
            with open(out + ".hash", "rb") as f:
                a.frombytes(f.read())
            hashes.update(a)
            continue
        group, idx = read_state(out)
        rec2 = dict(base, group=group, idx=idx)
        if rc == 77 or rc == "timeout":
            # No progress: once more alone, with plenty of time, before it is called a hang.
            if any(k == "hang" for k, _, _ in violations):
                continue
            if group:
                args2 = [x for x in args]
                i = args2.index("--shard") if "--shard" in args2 else None
                if i is not None:
                    del args2[i:i + 3]
                    args2 += ["--group", group, "--idx", str(idx)]
                rc2, _ = run_shard((prog, args2, out + ".again", wrap, 300))
                if rc2 == 77:
                    violations.append(("hang", "the case makes no progress (CPU time limit), reproduced alone", rec2))
                    continue
            broken.append("%s: no answer in time (%s)" % (os.path.basename(out), rc))
        elif rc in (-9, 64, 65, -15) and "hard rss limit" not in err:
            broken.append("%s: ended by %s: %s" % (os.path.basename(out), rc, err[-500:]))
        else:
            violations.append((crash_key(err), "process ended with %s\n%s" % (rc, err[:6000]), rec2))
    known = load_known()
    fresh, listed = {}, {}
    for key, msg, rec2 in violations:
        hit = [k for k in known if k[0] == prop and k[1] == key]
        if hit:
            listed[key] = hit[0][2]
        elif key not in fresh:
            fresh[key] = (msg, rec2)
    for key, text in listed.items():
        say("KNOWN-FINDING: property=%s %s" % (prop, text))
    floors = {}
    if not replay and not fresh and not broken and not listed:
        for name, least in spec.get("require", {}).items():
            floors[name] = least
            if events.get(name, 0) < least:
                broken.append("observed too little: %s=%d, at least %d expected" % (name, events.get(name, 0), least))
        if len(hashes) < 2:
            broken.append("nothing non-trivial was observed")
    for key, (msg, rec2) in fresh.items():
        rdir = os.path.join(V, "replays", prop)
        os.makedirs(rdir, exist_ok=True)
        path = os.path.join(rdir, re.sub(r"[^\w.-]+", "_", key)[:60] + ".json")
        if not replay:
            with open(path, "w") as f:
                json.dump(dict(rec2, key=key, message=msg), f, indent=1)
        else:
            path = replay
        say("%s: %s [%s #%s]" % (key, msg.split("\n")[0][:600], rec2["group"], rec2["idx"]))
        say("VIOLATION property=%s replay=%s" % (prop, path))
    if not replay:
        ev = {
            "property": prop, "tier": tier, "seed": seed, "level": "exploration",
            "coverage": {
                "evaluations": sum(cases.values()),
                "distinct_nontrivial": len(hashes),
                "rule": spec["rule"],
                "samples": [dict(group=s["group"], case=s["case"]) for s in samples[:24]],
                "cases_per_group": dict(sorted(cases.items())),
                "events_observed": dict(sorted(events.items())),
                "observations_hashed": seen,
                "required_minimum_events": floors,
                "configurations": sorted({p["config"] + ": " + CONFIGS[p["config"]]["desc"] for p in spec["parts"]}),
                "processes": len(jobs),
                "build_s": round(build_s, 1),
            },
            "wall_s": round(time.time() - t0, 2),
            "violations": len(fresh),
            "assumptions": spec.get("assumptions", []) + [
                "craftpp (not in the sandbox) is replaced by the checked stand-in /verif/shim",
                "nothing is claimed beyond the executions produced: bounded random and enumerated workloads",
            ],
        }
        if broken:
            ev["coverage"]["not_answered"] = broken
        os.makedirs(os.path.join(V, "evidence"), exist_ok=True)
        tmp = os.path.join(V, "evidence", prop + ".json.tmp")
        with open(tmp, "w") as f:
            json.dump(ev, f, indent=1)
        os.replace(tmp, tmp[:-4])
    shutil.rmtree(work, ignore_errors=True)
    if fresh:
        return 1
    if broken:
        for b in broken:
            say("ERROR property=%s %s" % (prop, b))
        return 2
    say("OK property=%s tier=%s seed=%d cases=%d distinct=%d wall=%.1fs" % (prop, tier, seed, sum(cases.values()), len(hashes), time.time() - t0))
    return 0


def main():
    a = sys.argv[1:]
    if a and a[0] == "--all":
        rcs = {p: decide(p) for p in (a[1:] or SPECS)}
        bad = {p: r for p, r in rcs.items() if r}
        say("bad:", bad)
        return 1 if bad else 0
    if not a or a[0] not in SPECS:
        say("usage: check.py <%s> [--replay FILE]" % "|".join(SPECS))
        return 64
    if len(a) == 3 and a[1] == "--replay":
        return decide(a[0], a[2])
    return decide(a[0])


if __name__ == "__main__":
    sys.exit(main())
