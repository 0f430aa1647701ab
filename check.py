#!/usr/bin/env python3
"""Builds what a check needs from /repo's working tree, runs the simulator, writes the evidence.

    check.py setup                     build every simulator binary
    check.py C01 [--thorough]          run the check of one property
    check.py replay FILE [-v]          re-execute a replay file (builds first)

Exit 0: the property held on everything explored. 1: violation. 2: the check itself failed.
"""
import fcntl, hashlib, json, os, re, subprocess, sys, time

ROOT = os.path.dirname(os.path.abspath(__file__))
REPO = "/repo"
BUILD = os.path.join(ROOT, "build")
SIM = os.path.join(ROOT, "sim")
CONF = json.load(open(os.path.join(ROOT, "tools", "checks.json")))
VARIANTS = CONF["variants"]
CHECKS = CONF["checks"]


def die(msg):
    print("check error: " + msg, flush=True)
    sys.exit(2)


def repo_files():
    """Everything a build may read, tracked or not, without build products."""
    for d, dirs, files in os.walk(REPO):
        rel = os.path.relpath(d, REPO)
        dirs[:] = sorted(x for x in dirs if x not in (".git", "target", "node_modules", "pkg", "fuzz"))
        if rel == ".":
            dirs[:] = [x for x in dirs if x not in ("docs", "benchmarks", "benches")]
        for f in sorted(files):
            if f.endswith((".rs", ".toml", ".lock", ".mjs", ".js", ".html", ".json")):
                yield os.path.join(d, f)


def tree_hash():
    h = hashlib.sha256()
    for p in repo_files():
        try:
            b = open(p, "rb").read()
        except OSError:
            continue
        h.update(p.encode() + b"\0" + hashlib.sha256(b).digest())
    return h.hexdigest()


def build(variant):
    """Cargo decides by modification times; a copied tree can carry older ones than the last build.
    Whenever the contents differ from what was built last, the packages are rebuilt regardless."""
    v = VARIANTS[variant]
    if v.get("kind") == "node":
        return os.path.join(ROOT, v["script"])
    target = os.path.join(BUILD, variant)
    os.makedirs(target, exist_ok=True)
    with open(os.path.join(BUILD, variant + ".lock"), "w") as lock:
        fcntl.flock(lock, fcntl.LOCK_EX)
        stamp = os.path.join(target, "repo.sha256")
        now = tree_hash()
        old = open(stamp).read() if os.path.exists(stamp) else ""
        if old != now:
            if os.path.exists(stamp):
                os.remove(stamp)
            fp = os.path.join(target, "debug", ".fingerprint")
            if os.path.isdir(fp):
                for d in os.listdir(fp):
                    if re.match(r"(kofft|sanity-check|xtask|web-spectrogram|core_checks|media_checks)", d):
                        subprocess.run(["rm", "-rf", os.path.join(fp, d)])
        env = dict(os.environ)
        for k in list(env):
            if k.startswith("CARGO_") and k not in ("CARGO_HOME",) or k in ("RUSTFLAGS", "RUSTC_WRAPPER", "RUSTC"):
                del env[k]
        env.update(
            RUSTUP_TOOLCHAIN="stable-x86_64-unknown-linux-gnu",
            CARGO_NET_OFFLINE="true",
            RUSTC_WRAPPER=os.path.join(SIM, "rustc-wrap.sh"),
            RUSTFLAGS="-C link-arg=-rdynamic " + v.get("rustflags", ""),
        )
        cmd = ["cargo", "build", "--offline", "--locked", "-p", v["package"], "--features", v["features"], "--target-dir", target]
        r = subprocess.run(cmd, cwd=SIM, env=env, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
        if r.returncode != 0:
            print(r.stdout[-6000:])
            die("build of " + variant + " failed")
        with open(stamp, "w") as f:
            f.write(now)
    return os.path.join(target, "debug", v["package"])


def runs_here(variant):
    """Builds for processor features this machine does not have are left out."""
    need = VARIANTS[variant].get("cpu", [])
    if not need:
        return True
    flags = re.search(r"^flags\s*:(.*)$", open("/proc/cpuinfo").read(), re.M)
    return bool(flags) and set(need) <= set(flags[1].split())


def command(variant, prog):
    return (["node", "--no-warnings", prog] if VARIANTS[variant].get("kind") == "node" else [prog])


def findings(prop):
    """(signature, description) of the listed findings of a property."""
    out = []
    for line in open(os.path.join(ROOT, "KNOWN_FINDINGS.txt")):
        m = re.match(r"known: property=(\S+) signature=\[(.*?)\] (.*)", line)
        if m and m[1] == prop:
            out.append((m[2], m[3].strip()))
    return out


def unesc(s):
    return s.replace("\\\\", "\0").replace("\\n", "\n").replace("\\t", "\t").replace("\0", "\\")


def read_out(path):
    a = dict(N={}, C={}, P={}, H=set(), T=set(), S=set(), A=set(), G=set(), X=[], E=[], K=[], V=[], R=[])
    for line in open(path, errors="replace"):
        f = line.rstrip("\n").split("\t")
        if f[0] in ("N", "C", "P"):
            a[f[0]][f[1]] = a[f[0]].get(f[1], 0) + int(f[2])
        elif f[0] in ("H", "T", "S", "A", "G"):
            a[f[0]].add(int(f[1]))
        elif f[0] in ("X", "E"):
            a[f[0]].append(unesc(f[1]))
        elif f[0] in ("K", "V", "R"):
            a[f[0]].append([unesc(x) for x in f[1:]])
    return a


def run(prop, thorough):
    t0 = time.time()
    c = CHECKS[prop]
    try:
        seed = int(os.environ.get("VERIF_SEED") or 1) & ((1 << 63) - 1)
    except ValueError:
        seed = int.from_bytes(hashlib.sha256(os.environ["VERIF_SEED"].encode()).digest()[:7], "big")
    tier = "thorough" if thorough else "quick"
    secs = c.get(tier + "_secs", CONF[tier + "_secs"])
    ev_path = os.path.join(ROOT, "evidence", prop + ".json")
    os.makedirs(os.path.dirname(ev_path), exist_ok=True)
    if os.path.exists(ev_path):
        os.remove(ev_path)
    replays = os.path.join(ROOT, "replays")
    os.makedirs(replays, exist_ok=True)
    known = findings(prop)
    kfile = os.path.join(BUILD, "known.%s.%d" % (prop, os.getpid()))
    os.makedirs(BUILD, exist_ok=True)
    with open(kfile, "w") as f:
        f.write("".join(s + "\n" for s, _ in known))
    print("property %s, tier %s, VERIF_SEED %d" % (prop, tier, seed), flush=True)
    parts, violation, errors = {}, None, []
    total_share = sum(x["share"] for x in c["variants"].values())
    for variant, x in c["variants"].items():
        if not runs_here(variant):
            print("build '%s' left out: the processor lacks %s" % (variant, ", ".join(VARIANTS[variant]["cpu"])))
            continue
        prog = build(variant)
        t1 = time.time()
        out = os.path.join(BUILD, "out.%s.%s.%d" % (prop, variant, os.getpid()))
        mine = secs * x["share"] / total_share
        cmd = command(variant, prog) + [
            "run", "--prop", prop, "--variant", variant, "--seed", str(seed),
            "--runs", str(x["runs"] * (CONF["thorough_factor"] if thorough else 1)),
            "--secs", str(mine), "--workers", str(min(8, os.cpu_count() or 8)), "--out", out, "--replays", replays,
            "--known", kfile, "--determinism", str(x.get("determinism", 300)), "--samples", "2",
        ] + (["--thorough"] if thorough else [])
        try:
            r = subprocess.run(cmd, timeout=mine * 3 + 240, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, errors="replace")
            code = r.returncode
            text = r.stdout
        except subprocess.TimeoutExpired:
            code, text = 2, "the simulator did not end"
        if os.path.exists(out):
            parts[variant] = read_out(out)
            parts[variant]["wall"] = time.time() - t1
            os.remove(out)
        else:
            errors.append("%s: no output (exit %s) %s" % (variant, code, text[-800:]))
            continue
        a = parts[variant]
        if a["N"].get("det_diverged", 0):
            errors.append("%s: %d runs were not repeatable" % (variant, a["N"]["det_diverged"]))
        if code == 1 and a["R"]:
            violation = (variant, a["R"][0][0], a["R"][0][1])
            break
        if code != 0:
            errors.append("%s: exit %s %s %s" % (variant, code, a["E"][:3], text[-800:]))
        if a["N"].get("runs", 0) == 0:
            errors.append("%s: no run was made" % variant)
    os.remove(kfile)
    evidence(prop, c, tier, seed, parts, violation, errors, t0, ev_path)
    for variant, a in parts.items():
        for sig, n, msg in a["K"]:
            text = dict(known).get(sig, sig)
            print("KNOWN-FINDING: property=%s %s (%s runs, e.g. %s)" % (prop, text, n, msg.split("\n")[0]))
    if violation:
        variant, path, msg = violation
        print("violation in build '%s': %s" % (variant, msg))
        print("replay with: %s replay %s -v" % (os.path.join(ROOT, "check.py"), path))
        print("VIOLATION property=%s replay=%s" % (prop, path), flush=True)
        return 1
    if errors:
        for e in errors:
            print("check error: " + e)
        return 2
    n = sum(a["N"].get("runs", 0) for a in parts.values())
    print("held on %d simulated runs in %.0f s" % (n, time.time() - t0))
    return 0


def evidence(prop, c, tier, seed, parts, violation, errors, t0, path):
    n = lambda k: sum(a["N"].get(k, 0) for a in parts.values())
    union = lambda k: len(set().union(*[{(v, h) for h in a[k]} for v, a in parts.items()])) if parts else 0
    search = sum(a["wall"] for a in parts.values()) or 1e-9
    counts = {}
    for a in parts.values():
        for k, x in a["C"].items():
            counts[k] = counts.get(k, 0) + x
    faults, sched, probes = {}, {}, {}
    for k, x in sorted(counts.items()):
        if k.startswith("sched:") or k.startswith("clock:read") or k.startswith("cpus:"):
            sched[k] = x
        elif k.startswith("fault:"):
            faults[k[6:]] = x
        else:
            probes[k] = x
    samples = []
    for v, a in parts.items():
        for s in a["X"][:2]:
            lines = s.split("\n")
            samples.append({"variant": v, "trace": lines[:40] + (["... %d more lines" % (len(lines) - 40)] if len(lines) > 40 else [])})
    doc = {
        "property": prop, "tier": tier, "seed": seed, "level": "exploration",
        "coverage": {
            "evaluations": n("runs"),
            "distinct_nontrivial": union("T"),
            "rule": c["rule"],
            "samples": samples,
            "simulated_runs": n("runs"),
            "runs_by_variant_and_scenario": {v: a["P"] for v, a in parts.items()},
            "distinct_histories": union("H"),
            "nontrivial_runs": n("nontrivial_runs"),
            "distinct_thread_interleavings": union("S"),
            "distinct_states": union("A"),
            "measure": "history = hash of every recorded event (operations, arguments, results, faults, switches); interleaving = hash of the sequence (step, from thread, to thread) of all context switches; state = hash reported by the workload after each operation; basic blocks = distinct instrumented blocks of code under test and workload executed",
            "basic_blocks_reached": {v: len(a["G"]) for v, a in parts.items()},
            "basic_blocks_total": {v: a["N"].get("guards", 0) for v, a in parts.items()},
            "runs_per_hour": int(n("runs") / search * 3600),
            "seeds_per_hour": int(n("runs") / search * 3600),
            "simulated_seconds": n("sim_ns") / 1e9,
            "simulated_steps": n("steps"),
            "context_switches": n("switches"),
            "preemptions": n("preemptions"),
            "max_threads_in_a_run": max([a["N"].get("max_threads", 0) for a in parts.values()] or [0]),
            "faults_injected": faults,
            "scheduling_events": sched,
            "probes": probes,
            "runs_executed_twice_and_compared": n("det_checked"),
            "runs_that_differed": n("det_diverged"),
            "real_components": c["real"],
            "stub_components": c["stub"],
            "search_wall_s": round(search, 3),
        },
        "assumptions": c.get("assumptions", []) + CONF["assumptions"],
        "wall_s": round(time.time() - t0, 3),
        "violations": 1 if violation else 0,
    }
    if violation:
        doc["coverage"]["violation"] = {"variant": violation[0], "replay": violation[1], "message": violation[2]}
    if errors:
        doc["coverage"]["errors"] = errors
    kn = {}
    for a in parts.values():
        for sig, cnt, msg in a["K"]:
            kn[sig] = {"runs": int(cnt), "example": msg}
    if kn:
        doc["coverage"]["known_findings_seen"] = kn
    tmp = path + ".tmp"
    with open(tmp, "w") as f:
        json.dump(doc, f, indent=1)
    os.replace(tmp, path)


def main():
    a = sys.argv[1:]
    if not a:
        print(__doc__)
        return 2
    if a[0] == "setup":
        used = []
        for c in CHECKS.values():
            used += [v for v in c["variants"] if v not in used]
        for v in used:
            if not runs_here(v):
                continue
            build(v)
            print("built", v, flush=True)
        return 0
    if a[0] == "replay":
        t = json.load(open(a[1]))
        prog = build(t["variant"])
        return subprocess.run(command(t["variant"], prog) + ["replay"] + a[1:]).returncode
    if a[0] not in CHECKS:
        die("unknown property " + a[0])
    thorough = "--thorough" in a or ("--quick" not in a and os.environ.get("VERIF_TIER") == "thorough")
    return run(a[0], thorough)


sys.exit(main())
