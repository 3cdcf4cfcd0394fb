#!/usr/bin/env python3
"""check.py <property> [--seconds S] [--workers N]     decide one property by seeded simulation
   check.py --replay FILE [--trace]                   re-execute a replay file and compare
Environment: VERIF_SEED (default 1), VERIF_TIER (quick | thorough)."""
import json, os, re, shutil, subprocess, sys, tempfile, time

VERIF = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, VERIF)
import simbuild

SPAN = 100_000_000  # seeds of one VERIF_SEED
REAL = ["lib/ (HTTP/2 connection, frames, HPACK, TLS and TCP transports, event loop, poller, router, static files, access log) compiled unchanged from /repo",
        "app/ (main, argument parsing, signal handling, status page, statistics, test routes) compiled unchanged from /repo, run through its own main()",
        "OpenSSL, spdlog, fmt, the C++ runtime; real files in a scratch directory where files are served or logs written"]
STUB = ["the kernel's sockets, epoll/poll/eventfd waiting, clocks, signals' delivery and randomness: the simulator's kernel (sim/kernel.cpp), by symbol interposition",
        "clients: the simulator's own HTTP/2+TLS clients (sim/client.cpp, sim/hpack_ref.cpp)",
        "OpenTelemetry SDK: no-op shim headers (sim/shim)"]

def known_findings(prop):
    out = []
    with open(os.path.join(VERIF, "known-findings.txt")) as f:
        for l in f:
            m = re.match(r"known: property=(\S+) class=(\S+) match=(.*?) what=(.*)", l.strip())
            if m and m.group(1) == prop:
                out.append({"class": m.group(2), "match": m.group(3), "what": m.group(4)})
    return out

def env(scratch):
    e = dict(os.environ)
    for k in list(e):
        if k.startswith(("ASAN_", "UBSAN_", "LSAN_", "SIM_FIXED", "LD_PRELOAD", "OPENSSL_", "SPDLOG")):
            del e[k]
    e["SIM_SCRATCH"] = scratch
    return e

def reproduce(binary, scratch, file_or_seed, prop, cls, times=2):
    """The event hash when the violation shows every time with one and the same hash; "" when it shows
    every time, but in executions which differ; None when it does not show every time."""
    seen = set()
    for k in range(times):
        cmd = [binary, "replay", file_or_seed] if isinstance(file_or_seed, str) else [binary, "run", "--profile", prop, "--seed", str(file_or_seed)]
        r = subprocess.run(cmd, env=env(os.path.join(scratch, "r%d" % k)), stdout=subprocess.PIPE, stderr=subprocess.DEVNULL, text=True, errors="replace")
        if "violation %s " % cls not in r.stdout:
            return None
        m = re.search(r"^hash (\w+)", r.stdout, re.M)
        seen.add(m.group(1) if m else "?")
    return seen.pop() if len(seen) == 1 else ""

def replay(argv):
    path = argv[0]
    binary = simbuild.build()
    if not binary:
        return 2
    scratch = tempfile.mkdtemp(prefix="ionsim-")
    try:
        r = subprocess.run([binary, "replay", path] + (["--trace"] if "--trace" in argv else []), env=env(os.path.join(scratch, "s")), stdout=subprocess.PIPE, text=True, errors="replace")
        sys.stdout.write(r.stdout)
        want = dict()
        for l in open(path, errors="replace"):
            if l.startswith("hash "):
                want["hash"] = l.split()[1]
            if l.startswith("violation "):
                want.setdefault("viol", []).append(l.split()[1])
        m = re.search(r"^hash (\w+)", r.stdout, re.M)
        if "hash" in want:
            same = m and m.group(1) == want["hash"]
            print("the execution is %s the recorded one" % ("exactly" if same else "NOT"))
        return r.returncode
    finally:
        shutil.rmtree(scratch, ignore_errors=True)

def main():
    if len(sys.argv) > 2 and sys.argv[1] == "--replay":
        return replay(sys.argv[2:])
    prop = sys.argv[1]
    opt = lambda k, d: type(d)(sys.argv[sys.argv.index(k) + 1]) if k in sys.argv else d
    tier = os.environ.get("VERIF_TIER", "quick")
    if tier not in ("quick", "thorough"):
        tier = "quick"
    seed = int(os.environ.get("VERIF_SEED", "1") or "1")
    secs = opt("--seconds", 60.0 if tier == "quick" else 660.0)
    workers = opt("--workers", max(2, min(8, os.cpu_count() or 8)))
    t0 = time.time()
    try:
        binary = simbuild.build()
    except Exception as e:
        print("check: the simulator does not build: %s" % e)
        return 2
    if not binary:
        print("check: the simulator does not build from this tree")
        return 2
    built = time.time() - t0
    known = known_findings(prop)
    ignore = "\n".join("%s@%s" % (k["class"], k["match"]) for k in known)
    scratch = tempfile.mkdtemp(prefix="ionsim-")
    os.chmod(scratch, 0o755)
    outdir = os.path.join(VERIF, "out", prop)
    os.makedirs(outdir, exist_ok=True)
    first = seed * SPAN + 1
    try:
        return explore(prop, tier, seed, secs, workers, binary, built, t0, known, ignore, scratch, outdir, first)
    finally:
        shutil.rmtree(scratch, ignore_errors=True)

def explore(prop, tier, seed, secs, workers, binary, built, t0, known, ignore, scratch, outdir, first):
    t1 = time.time()
    procs = []
    for w in range(workers):
        out = os.path.join(scratch, "w%d.json" % w)
        cmd = [binary, "batch", "--profile", prop, "--from", str(first + w), "--stride", str(workers), "--count", str(10**9), "--seconds", str(secs),
               "--out", out, "--stop-after", "3", "--recheck", "50"]
        if ignore:
            cmd += ["--ignore", ignore]
        procs.append((subprocess.Popen(cmd, env=env(os.path.join(scratch, "s%d" % w)), stdout=subprocess.DEVNULL, stderr=subprocess.DEVNULL), out))
    # the first worker to find a violation ends the search for all
    found = False
    while any(p.poll() is None for p, _ in procs):
        time.sleep(0.2)
        if not found and any(p.poll() is not None and os.path.exists(o) and '"violations":[]' not in open(o).read() for p, o in procs):
            found = True
            for p, _ in procs:
                p.terminate()
        if time.time() - t1 > secs + 150:
            for p, _ in procs:
                p.kill()
    res, lost = [], 0
    for p, o in procs:
        try:
            res.append(json.load(open(o)))
        except Exception:
            lost += 1
    if not res:
        print("check: no worker gave a result")
        return 2
    search_wall = time.time() - t1
    tot = lambda k: sum(r[k] for r in res)
    shapes = set()
    for r in res:
        shapes.update(r["shapes"])
    faults, probes, others = {}, {}, {}
    for r in res:
        for k, (n, runs) in r["faults"].items():
            a = faults.setdefault(k, [0, 0])
            a[0] += n
            a[1] += runs
        for k, n in r["probes"].items():
            probes[k] = probes.get(k, 0) + n
        for o in r["other"]:
            others.setdefault(o["class"], o)
    viols = sorted((v for r in res for v in r["violations"]), key=lambda v: v["seed"])
    confirmed, loose, unconfirmed = None, None, []
    for v in viols[:6]:
        h = reproduce(binary, scratch, v["seed"], prop, v["class"])
        if h == "" and reproduce(binary, scratch, v["seed"], prop, v["class"], 4) is not None:
            loose = loose or dict(v, hash="varies")
            continue
        if not h:
            unconfirmed.append(v)
            continue
        confirmed = dict(v, hash=h)
        break
    if not confirmed and loose:
        # the code under test has nondeterminism of its own (a thread, say); the violation shows in every execution all the same
        confirmed = loose
        print("check: executions of seed %d differ, the violation shows in all of them" % confirmed["seed"])
    path = None
    if confirmed:
        v = confirmed
        raw = os.path.join(scratch, "raw.txt")
        with open(raw, "w") as f:
            subprocess.run([binary, "gen", "--profile", prop, "--seed", str(v["seed"])], stdout=f, env=env(os.path.join(scratch, "s")))
        path = os.path.join(outdir, "%s-%s-seed%d.replay" % (prop, v["class"], v["seed"]))
        if os.path.exists(path):
            os.unlink(path)
        budget = 25 if tier == "quick" else 120
        subprocess.run([binary, "min", raw, "--class", v["class"], "--out", path, "--seconds", str(budget)], env=env(os.path.join(scratch, "m")), stdout=subprocess.DEVNULL, stderr=subprocess.DEVNULL)
        if not os.path.exists(path) or not reproduce(binary, scratch, path, prop, v["class"]):
            shutil.copy(raw, path)  # the whole scenario, then
            with open(path, "a") as f:
                f.write("violation %s %s\nhash %s\n" % (v["class"], v["detail"], v["hash"]))
    nknown = tot("known")
    runs = tot("runs")
    sample_seed = first
    sample = subprocess.run([binary, "run", "--profile", prop, "--seed", str(sample_seed), "--trace"], env=env(os.path.join(scratch, "s")), stdout=subprocess.PIPE, stderr=subprocess.DEVNULL, text=True, errors="replace").stdout.splitlines()
    sample_gen = subprocess.run([binary, "gen", "--profile", prop, "--seed", str(sample_seed)], env=env(os.path.join(scratch, "s")), stdout=subprocess.PIPE, text=True).stdout.splitlines()
    ev = {
        "property": prop, "tier": tier, "seed": seed, "level": "exploration",
        "coverage": {
            "evaluations": runs,
            "distinct_nontrivial": min(len(shapes), tot("nontrivial")),
            "rule": "one evaluation is one simulated run of the whole server against generated clients, network and faults, drawn from one seed of this property's profile (sim/gen.cpp); "
                    "it is non-trivial when at least one fault was injected and at least ten simulator events happened, and distinct when the sequence of its events "
                    "(kind and connection of every arrival, read, write, close, wait, fault and client action, without times) differs from that of every other run",
            "samples": [{"seed": sample_seed, "scenario": sample_gen[:40], "trace": [l[:200] for l in sample[:30]]}],
            "seeds": "%d + k, k = 0, 1, 2, ..." % first,
            "seeds_per_hour": round(runs / max(search_wall, 1e-3) * 3600),
            "simulated_seconds": round(tot("sim_s"), 1),
            "simulated_seconds_per_run": round(tot("sim_s") / max(runs, 1), 3),
            "events": tot("events"), "system_calls": tot("syscalls"), "requests": tot("requests"), "responses": tot("responses"),
            "distinct_interleavings": len(shapes),
            "faults_injected": {k: {"count": n, "runs": r} for k, (n, r) in sorted(faults.items()) if n},
            "faults_not_injected": sorted(k for k, (n, r) in faults.items() if not n),
            "situations_reached": {k: n for k, n in sorted(probes.items()) if n},
            "situations_not_reached": sorted(k for k, n in probes.items() if not n),
            "reexecuted_for_determinism": tot("rechecked"), "reexecutions_that_differed": tot("mismatched"),
            "violations_of_other_properties_seen": list(others.values()),
            "known_finding_occurrences": nknown,
            "unconfirmed": unconfirmed,
            "workers": len(res), "workers_lost": lost,
            "real_code": REAL, "stubs": STUB,
        },
        "assumptions": ["the simulated kernel follows Linux semantics for the calls it takes over (DESIGN.md)", "the server is single-threaded between readiness waits"],
        "wall_s": round(time.time() - t0, 2), "violations": 1 if confirmed else 0,
    }
    os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
    tmp = os.path.join(VERIF, "evidence", "." + prop + ".tmp")
    with open(tmp, "w") as f:
        json.dump(ev, f, indent=1)
    os.replace(tmp, os.path.join(VERIF, "evidence", prop + ".json"))
    if nknown:
        for k in known:
            print("KNOWN-FINDING: property=%s %s" % (prop, k["what"]))
    print("%s: %d simulated runs (%d distinct and non-trivial) in %.0f s, %.0f simulated seconds, %d requests, %d fault kinds injected; build %.0f s" % (
        prop, runs, ev["coverage"]["distinct_nontrivial"], search_wall, tot("sim_s"), tot("requests"), len(ev["coverage"]["faults_injected"]), built))
    if confirmed:
        print("violated: %s: %s (seed %d)" % (confirmed["class"], confirmed["detail"], confirmed["seed"]))
        print("VIOLATION property=%s replay=%s" % (prop, path))
        return 1
    if unconfirmed:
        print("check: %d violations did not replay: %s" % (len(unconfirmed), unconfirmed[0]))
        return 2
    if runs == 0:
        return 2
    return 0

if __name__ == "__main__":
    sys.stdout.reconfigure(line_buffering=True)
    sys.exit(main())
