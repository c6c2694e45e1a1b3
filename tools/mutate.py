#!/usr/bin/env python3
"""Mutation campaign (developer tool; no check uses it).

  mutate.py RESULT.jsonl [--files REGEX] [--sample N] [--jobs K] [--seed S]

Small changes to one line of /repo each, in scratch copies under /tmp/mut. For
each: the checks mapped to its file, shard after shard, until one of them sees
it. Survivors are then run against the stable tests (by hand: --tests).
"""
import json, os, random, re, shutil, subprocess, sys, time
from multiprocessing import Process, Queue

V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
ROOT = "/tmp/mut"

MAP = [
    (r"src/clock/", "P01 P02 P03 P17"),
    (r"stun_client_udp_rto", "P18 P17 P24"),
    (r"src/stun/stun_client_udp|stun_details_client|src/stun/details/stun_client", "P15 P17 P19 P22 P20 P21 P23 P16 P18 P24 P42"),
    (r"stun_server_stateless", "P13 P14 P24 P42"),
    (r"src/stun/stun_address", "P11 P06 P07"),
    (r"src/stun/(stun_class|stun_method|stun_attribute_type)|attr_registry", "P04 P06 P41"),
    (r"stun_error", "P36 P06"),
    (r"stun_parse_stat|src/stat", "P12 P35"),
    (r"stun_transaction_id", "P23 P32 P06 P39"),
    (r"stun_fingerprint", "P10 P06 P07"),
    (r"stun_integrity|stun_password", "P08 P06 P13 P16"),
    (r"src/stun/", "P06 P07 P08 P10 P19 P14 P13 P05 P11 P12 P39"),
    (r"src/crypto/openssl/openssl_error", "P36"),
    (r"src/crypto/", "P09 P08 P36"),
    (r"src/rtp/rtp_error", "P36"),
    (r"src/rtp/rtp_(clock|seq|ssrc|time|payload)", "P27 P25 P12"),
    (r"src/rtp/", "P25 P26 P27 P12 P39"),
    (r"src/net/net_error", "P36"),
    (r"src/net/.*hash", "P32 P18"),
    (r"src/net/net_fqdn", "P31 P28 P40"),
    (r"src/net/net_end", "P35 P14 P15"),
    (r"src/net/", "P30 P31 P28 P35 P40 P11"),
    (r"src/ice/candidate/ice_candidate_error", "P36 P28"),
    (r"src/ice/", "P28 P29 P40 P41"),
    (r"src/precis/.*hash", "P32"),
    (r"src/precis/", "P35 P23"),
    (r"src/abnf/", "P37 P28 P29 P31"),
    (r"src/util/util_intrusive", "P33 P22"),
    (r"src/util/.*hash", "P32"),
    (r"src/util/util_(token|flat)", "P34 P28"),
    (r"src/util/util_endian", "P32 P06 P25 P39"),
    (r"src/util/", "P35 P34 P06 P05"),
    (r"node/node_ice", "P41"),
    (r"node/.*error", "P36 P42 P41"),
    (r"node/", "P42 P41"),
]


def checks_of(path):
    for rx, ids in MAP:
        if re.search(rx, path):
            return ids.split()
    return []


OPS = [
    (r" == ", " != "), (r" != ", " == "), (r" < ", " <= "), (r" <= ", " < "), (r" > ", " >= "), (r" >= ", " > "),
    (r" < ", " > "), (r" > ", " < "),
    (r" \+ ", " - "), (r" - ", " + "), (r" \* ", " + "), (r" / ", " * "), (r" % ", " + "), (r" << ", " >> "), (r" >> ", " << "),
    (r" & ", " | "), (r" \| ", " & "), (r" \^ ", " | "), (r" && ", " || "), (r" \|\| ", " && "),
    (r"\+\+", "--"), (r"--", "++"), (r" \+= ", " -= "), (r" -= ", " += "), (r" \|= ", " = "), (r" &= ", " = "), (r" \^= ", " = "),
    (r"\btrue\b", "false"), (r"\bfalse\b", "true"), (r"\bmin\b", "max"), (r"\bmax\b", "min"),
    (r"\bbreak;", ";"), (r"\bcontinue;", ";"), (r"\bbegin\(\)", "end()"), (r"\bfront\(\)", "back()"), (r"\bback\(\)", "front()"),
    (r"\bpush_back\b", "push_front"), (r"\bor_else\b", "and_then"), (r"std::nullopt", "{{}}"),
]


def mutants(path, text):
    out = []
    lines = text.split("\n")
    for i, line in enumerate(lines):
        s = line.strip()
        if not s or s.startswith(("//", "#", "*", "/*", "using", "template", "namespace", "static_assert")):
            continue
        code = line.split("//")[0]
        quotes = [(m.start(), m.end()) for m in re.finditer(r'"[^"]*"', code)]
        inq = lambda p: any(a <= p < b for a, b in quotes)
        def put(new, what):
            if new != line:
                out.append((path, i, new, what))
        for rx, to in OPS:
            for m in re.finditer(rx, code):
                if not inq(m.start()):
                    put(code[:m.start()] + to + code[m.end():], "%s->%s" % (m.group(0).strip(), to.strip()))
        for m in re.finditer(r"!(?=[\w(])", code):
            if not inq(m.start()):
                put(code[:m.start()] + code[m.end():], "drop !")
        for m in re.finditer(r"(?<![\w.:])(0x[0-9a-fA-F]+|\d+)(?=[uUlL]*\b)", code):
            if not inq(m.start()):
                n = int(m.group(0), 0)
                put(code[:m.start()] + str(n + 1) + code[m.end():], "%s+1" % m.group(0))
                if n:
                    put(code[:m.start()] + str(n - 1) + code[m.end():], "%s-1" % m.group(0))
        m = re.match(r"^(\s*)(?:else )?if \((.*)\) \{\s*$", code) or re.match(r"^(\s*\} else )if \((.*)\) \{\s*$", code)
        if m:
            k = code.index("if (")
            end = code.rindex(")")
            cond = code[k + 4:end]
            if ";" not in cond:
                put(code[:k] + "if (false && (" + cond + ")) {", "if false")
                put(code[:k] + "if (true || (" + cond + ")) {", "if true")
        if re.match(r"^\s*[\w.:>\-\[\]\*()+]+(\(.*\)| (=|\+=|-=|\|=) .*);\s*$", code) and not re.match(r"^\s*(return|throw|const|auto|delete|case)\b", code) \
                and not re.match(r"^\s*[\w:<>]+ \w+( =|\(|;)", code):
            put(re.match(r"^\s*", code).group(0) + ";", "delete statement")
        m = re.match(r"^(\s*)return (.+);\s*$", code)
        if m and m.group(2) not in ("true", "false"):
            put(m.group(1) + "return {};", "return {}")
    return out


def worker(k, q, res):
    base = "%s/w%d" % (ROOT, k)
    shutil.rmtree(base, ignore_errors=True)
    os.makedirs(base)
    subprocess.run(["cp", "-a", "/repo", base + "/repo"], check=True)
    os.makedirs(base + "/verif")
    for x in ("shim", "locale", "harness", "check.py", "known_findings.txt"):
        subprocess.run(["cp", "-a", os.path.join(V, x), base + "/verif/"], check=True)
    os.environ["VERIF_REPO"] = base + "/repo"
    sys.path.insert(0, base + "/verif")
    import check
    check.NCPU = 1
    env = dict(os.environ)
    while True:
        job = q.get()
        if job is None:
            break
        path, i, new, what = job
        p = base + "/repo/" + path
        text = open(p).read()
        lines = text.split("\n")
        old = lines[i]
        lines[i] = new
        open(p, "w").write("\n".join(lines))
        t0 = time.time()
        r = {"file": path, "line": i + 1, "old": old.strip(), "new": new.strip(), "op": what, "state": "survived", "by": ""}
        try:
            for pid in checks_of(path):
                hit = run(check, base, pid)
                if hit:
                    r["by"] = pid
                    r["state"] = hit
                    break
        except Exception as e:
            r["state"] = "error " + str(e)[:200]
        r["s"] = round(time.time() - t0, 1)
        open(p, "w").write(text)
        res.put(r)
    shutil.rmtree(base, ignore_errors=True)


def run(check, base, pid):
    sys.stderr = open(os.devnull, "w")
    floors, events = check.SPECS[pid]["require"], {}
    for part in check.SPECS[pid]["parts"]:
        if part["config"] == "memcheck":
            continue
        try:
            # A mutant that does not compile is no mutant.
            cfg = check.CONFIGS[part["config"]]
            prog = check.build_from(part["config"], part["harness"], part["dirs"])
        except check.Broken:
            return "no build"
        if check_failed_objects(check, part):
            return "no build"
        n = 8
        for k in range(n):
            out = base + "/out"
            for f in os.listdir(base):
                if f.startswith("out"):
                    os.unlink(base + "/" + f)
            args = ["--prop", pid, "--seed", "1", "--shard", str(k), str(n)]
            if part.get("group"):
                args += ["--group", part["group"]]
            rc, _ = check.run_shard((prog, args, out, cfg.get("wrap", []), 120))
            if rc == "timeout":
                return "killed (timeout)"
            if rc != 0 or not os.path.exists(out + ".json"):
                return "killed"
            if os.path.exists(out + ".viol") and os.path.getsize(out + ".viol"):
                return "killed"
            j = json.load(open(out + ".json"))
            for a, b in j["events"].items():
                events[a] = events.get(a, 0) + b
    low = [a for a, b in floors.items() if events.get(a, 0) < b]
    if low:
        return "floor only: " + low[0]
    return None


def check_failed_objects(check, part):
    bdir = os.path.join(check.build_root(), part["config"])
    r = subprocess.run(["ninja", "-n", "-f", os.path.join(bdir, part["harness"] + ".ninja")], cwd=bdir, stdout=subprocess.PIPE, text=True)
    return "no work to do" not in r.stdout


def main():
    a = sys.argv[1:]
    out = a[0]
    opt = {a[i]: a[i + 1] for i in range(1, len(a) - 1, 2)}
    rng = random.Random(int(opt.get("--seed", 1)))
    allm = []
    for top in ("src", "node"):
        for root, _, files in os.walk("/repo/" + top):
            for f in sorted(files):
                p = os.path.relpath(os.path.join(root, f), "/repo")
                if f.endswith((".hpp", ".cpp")) and f not in ("util_error.cpp", "util_error_code.cpp", "util_binary_view.cpp") and re.search(opt.get("--files", "."), p):
                    allm += mutants(p, open("/repo/" + p).read())
    done = set()
    if os.path.exists(out):
        for l in open(out):
            d = json.loads(l)
            done.add((d["file"], d["line"], d["new"]))
    allm = [m for m in allm if (m[0], m[1] + 1, m[2].strip()) not in done]
    rng.shuffle(allm)
    n = int(opt.get("--sample", len(allm)))
    allm = allm[:n]
    print(len(allm), "mutants", flush=True)
    if "--list" in opt:
        return
    # Neighbours to the same worker would rebuild less; order by file.
    allm.sort(key=lambda m: (m[0], m[1]))
    q, res = Queue(), Queue()
    jobs = int(opt.get("--jobs", 8))
    # Interleave so that the workers work on different files.
    for m in allm:
        q.put(m)
    for _ in range(jobs):
        q.put(None)
    ps = [Process(target=worker, args=(k, q, res), daemon=True) for k in range(jobs)]
    for p in ps:
        p.start()
    with open(out, "a") as f:
        for _ in range(len(allm)):
            r = res.get()
            f.write(json.dumps(r) + "\n")
            f.flush()
    for p in ps:
        p.join()


main()
