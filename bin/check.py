#!/usr/bin/env python3
"""Build and run the deterministic-simulation check of one property against /repo.

  check.py C05                 tier from VERIF_TIER (quick|thorough), seed from VERIF_SEED
  check.py C05 --replay FILE   re-execute a replay file (exit 1: reproduced identically)
  check.py --build             build every group (setup)
  check.py --hashes C05 N W    print "H run hash status" lines of N runs on W workers

Exit 0: held on everything explored.  Exit 1 + "VIOLATION property=<id> replay=<path>".
Anything else is an error of the check itself.
"""
import json, os, re, subprocess, sys, time

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("NEO_REPO", "/repo")
sys.path.insert(0, os.path.join(VERIF, "bin"))
from props import GROUPS, KNOWN_SRC, PROPS, WRAPS  # noqa: E402

BUILD = os.environ.get("NEO_BUILD", os.path.join(VERIF, "build"))
EVID = os.path.join(VERIF, "evidence")
FINDINGS = os.path.join(VERIF, "known-findings.txt")

BASE = ("-std=c++20 -O1 -g1 -fno-pie -U_FORTIFY_SOURCE -D_FORTIFY_SOURCE=0 -fno-stack-protector "
        "-fcf-protection=none -fno-omit-frame-pointer -w").split()
INST = ("-fsanitize=thread --param tsan-instrument-func-entry-exit=0 -D_GLIBCXX_EXTERN_TEMPLATE=0").split()


def die(msg, code=3):
    print("CHECK-ERROR: " + msg, flush=True)
    sys.exit(code)


def expand(path):
    return path.replace("{REPO}", REPO).replace("{VERIF}", VERIF)


def new_sources(flags):
    """library sources added since the lists in props.py were written, where they compile with this group's flags"""
    res = []
    for d, _, fs in os.walk(os.path.join(REPO, "src")):
        for f in sorted(fs):
            p = os.path.join(d, f)
            if f.endswith(".cpp") and os.path.relpath(p, REPO) not in KNOWN_SRC:
                r = subprocess.run(["/usr/bin/g++"] + BASE + flags + ["-fsyntax-only", p], stdout=subprocess.DEVNULL, stderr=subprocess.DEVNULL)
                if r.returncode == 0:
                    res.append(p)
    return sorted(res)


def build(binary, group, harness):
    g = GROUPS[group]
    out = os.path.join(BUILD, binary)
    os.makedirs(out, exist_ok=True)
    flags = [expand(f) for f in g["flags"]]
    units = []  # (source, object, rule)
    for s in list(g["repo"]) + list(g["support"]) + list(harness):
        p = expand(s)
        if not os.path.isabs(p):
            p = os.path.join(VERIF, p)
        if s.startswith("{REPO}") and not os.path.exists(p):
            continue  # moved or merged: its content is found among the new files
        o = re.sub(r"[^A-Za-z0-9]+", "_", os.path.relpath(p, "/")) + ".o"
        units.append((p, o, "inst"))
    for p in new_sources(flags):
        units.append((p, re.sub(r"[^A-Za-z0-9]+", "_", os.path.relpath(p, "/")) + ".o", "inst"))
    tail = [(os.path.join(VERIF, s), os.path.basename(s) + ".o") for s in ["sim/sim.cpp"] + g.get("plain", [])]
    cxx = "/usr/bin/g++"
    wrap = " ".join("-Wl,--wrap=" + w for w in WRAPS)
    n = []
    n.append("ninja_required_version = 1.5\n")
    n.append("rule inst\n  command = %s %s %s %s -MMD -MF $out.d -c $in -o $out\n  depfile = $out.d\n  deps = gcc\n" % (cxx, " ".join(BASE), " ".join(INST), " ".join(flags)))
    n.append("rule plain\n  command = %s %s -O2 -MMD -MF $out.d -c $in -o $out\n  depfile = $out.d\n  deps = gcc\n" % (cxx, " ".join(BASE)))
    n.append("rule link\n  command = %s -no-pie -g %s $in -o $out\n" % (cxx, wrap))
    for p, o, r in units:
        n.append("build %s: %s %s\n" % (o, r, p.replace(" ", "$ ")))
    for p, o in tail:
        n.append("build %s: plain %s\n" % (o, p.replace(" ", "$ ")))
    n.append("build sim: link %s\n" % " ".join([o for _, o, _ in units] + [o for _, o in tail]))
    n.append("default sim\n")
    text = "\n".join(n)
    bn = os.path.join(out, "build.ninja")
    if not os.path.exists(bn) or open(bn).read() != text:
        open(bn, "w").write(text)
    env = dict(os.environ)
    env["PATH"] = "/usr/local/sbin:/usr/local/bin:/usr/sbin:/usr/bin:/sbin:/bin"
    for k in ("CFLAGS", "CXXFLAGS", "CPLUS_INCLUDE_PATH", "LIBRARY_PATH"):
        env.pop(k, None)
    r = subprocess.run(["ninja", "-C", out, "-j", str(max(2, os.cpu_count() or 8))], stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, env=env)
    if r.returncode != 0:
        print(r.stdout[-6000:])
        die("build failed for group " + binary)
    return os.path.join(out, "sim")


def binary_of(prop):
    p = PROPS[prop]
    return build(p["binary"], p["group"], p["harness"])


def known_for(prop):
    """known findings of this property: signature -> text; 'fixed:' lines suppress nothing"""
    res = {}
    if os.path.exists(FINDINGS):
        for line in open(FINDINGS):
            m = re.match(r"finding: property=(\S+) signature=(\S+) (.*)", line.strip())
            if m and m.group(1) == prop:
                res[m.group(2)] = m.group(3)
    return res


def symbolise(binary, text):
    out = []
    for pc in dict.fromkeys(re.findall(r"\bpc ([0-9a-f]{5,})", text)):
        r = subprocess.run(["addr2line", "-e", binary, "-fCi", pc], stdout=subprocess.PIPE, text=True)
        ls = r.stdout.splitlines()
        frames = []
        for i in range(0, len(ls) - 1, 2):
            frames.append("%s at %s" % (ls[i][:160], ls[i + 1]))
        out.append("pc %s: %s" % (pc, " <- ".join(frames[:4])))
    return out


def run_replay(binary, prop, path, known):
    return subprocess.run([binary, "--property", prop, "--replay", path] + (["--known", "," + ",".join(known) + ","] if known else []), stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)


def main():
    av = sys.argv[1:]
    if av[:1] == ["--build"]:
        done = set()
        for k, p in PROPS.items():
            if p["binary"] not in done:
                done.add(p["binary"])
                build(p["binary"], p["group"], p["harness"])
        print("built " + " ".join(sorted(done)))
        return 0
    if av[:1] == ["--hashes"]:
        b = binary_of(av[1])
        extra = ["--known", "," + ",".join(known_for(av[1])) + ","] if known_for(av[1]) else []
        return subprocess.run([b, "--property", av[1], "--seed", os.environ.get("VERIF_SEED", "1"), "--runs", av[2], "--workers", av[3], "--hashes", "--recheck", "0", "--out", "/dev/null"] + extra).returncode
    prop = av[0]
    if prop not in PROPS:
        die("unknown property " + prop)
    spec = PROPS[prop]
    known = known_for(prop)
    if len(av) > 2 and av[1] == "--replay":
        b = binary_of(prop)
        r = run_replay(b, prop, av[2], known)
        sys.stdout.write(r.stdout)
        for l in symbolise(b, r.stdout):
            print(l)
        return r.returncode
    tier = os.environ.get("VERIF_TIER", "quick")
    if tier not in ("quick", "thorough"):
        tier = "quick"
    try:
        seed = int(os.environ.get("VERIF_SEED", "1"))
    except ValueError:
        seed = 1
    t0 = time.time()
    b = binary_of(prop)
    tb = time.time() - t0
    runs, cap = spec[tier]
    os.makedirs(EVID, exist_ok=True)
    outj = os.path.join(EVID, "raw-%s.json" % prop)
    replay = os.path.join(EVID, "replay-%s-%d.txt" % (prop, seed))
    for f in (outj, replay):
        if os.path.exists(f):
            os.remove(f)
    workers = max(2, min(16, os.cpu_count() or 8))
    cmd = [b, "--property", prop, "--seed", str(seed), "--runs", str(runs), "--time", str(cap), "--min-time", "25", "--workers", str(workers), "--recheck", "16", "--out", outj, "--replay-out", replay]
    if known:
        cmd += ["--known", "," + ",".join(known) + ","]
    r = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    if r.returncode != 0 or not os.path.exists(outj):
        die("simulator ended with %d: %s" % (r.returncode, r.stdout[-2000:]))
    d = json.load(open(outj))
    os.remove(outj)
    violations = 0
    sym = []
    problem = None
    if d["failed"]:
        if d["mismatches"]:
            problem = "a failing run did not repeat: " + d["mismatch_msg"]
        else:
            a = run_replay(b, prop, replay, known)
            c = run_replay(b, prop, replay, known)
            if a.returncode == 1 and c.returncode == 1 and a.stdout == c.stdout:
                violations = 1
                sym = symbolise(b, d["message"])
            else:
                problem = "replay in a fresh process did not reproduce (exit %d/%d): %s" % (a.returncode, c.returncode, a.stdout[-800:])
    elif d["mismatches"]:
        problem = "a run did not repeat: " + d["mismatch_msg"]
    elif d["worker_error"]:
        problem = "a simulation worker died"
    elif d["runs"] < min(200, runs):
        problem = "only %d runs completed" % d["runs"]
    g = GROUPS[spec["group"]]
    probes = d["probes"]
    wall = max(d["wall_runs_s"], 1e-3)
    cov = {
        "evaluations": d["runs"],
        "distinct_nontrivial": d["distinct_nontrivial"],
        "rule": d["rule"] + "; two runs are distinct when the hash over their whole choice sequence, event log and every scheduling decision differs",
        "samples": d["samples"][:2] or ["(see the replay files)"],
        "seeds": d["runs"],
        "seeds_per_hour": int(d["runs"] / wall * 3600),
        "distinct_executions": d["distinct"],
        "distinctness_measure": "64-bit hash of all recorded choices (workload, schedule, faults) and logged events of the run",
        "simulated_steps": d["steps"],
        "steps_unit": "instrumented memory accesses, atomics, allocations and library-stub calls, each a possible preemption point",
        "simulated_time": d["simtime"],
        "preemptions": d["preemptions"],
        "faults_injected": {k[6:]: v for k, v in probes.items() if k.startswith("fault:")},
        "faults_armed": {k[6:]: v for k, v in probes.items() if k.startswith("armed:")},
        "reach_probes": {k: v for k, v in probes.items() if not k.startswith(("fault:", "armed:"))},
        "runs_repeated_for_determinism": d["rechecks"],
        "repeats_that_differed": d["mismatches"],
        "components_real": spec.get("real", g["real"]),
        "components_stubbed": spec.get("stub", g["stub"]),
        "build_s": round(tb, 2),
    }
    if d["simtime"] == 0:
        cov["simulated_time_note"] = "nothing in this property waits for time; progress is counted in steps"
    if d["known"]:
        cov["known_findings_hit"] = {k: v[0] for k, v in d["known"].items()}
    if d["failed"]:
        cov["violation"] = {"kind": d.get("kind"), "message": d.get("message"), "where": sym, "fail_run": d.get("fail_run"), "minimiser_runs": d.get("minimiser_runs")}
    ev = {"property": prop, "tier": tier, "seed": seed, "level": "exploration", "coverage": cov, "assumptions": spec.get("assumptions", g["assumptions"]), "wall_s": round(time.time() - t0, 3), "violations": violations}
    json.dump(ev, open(os.path.join(EVID, prop + ".json"), "w"), indent=1)
    for k, text in known.items():
        hit = d["known"].get(k)
        if hit:
            print("KNOWN-FINDING: property=%s %s [%s; met in %d of %d runs]" % (prop, text, k, hit[0], d["runs"]))
        else:
            print("note: listed finding %s of %s was not met in this run" % (k, prop))
    print("%s %s seed=%d runs=%d distinct=%d nontrivial=%d steps=%d preemptions=%d faults=%s build=%.1fs run=%.1fs" % (prop, tier, seed, d["runs"], d["distinct"], d["distinct_nontrivial"], d["steps"], d["preemptions"], json.dumps(cov["faults_injected"]), tb, d["wall_total_s"]))
    if violations:
        print("violated: [%s] %s" % (d["kind"], d["message"]))
        for l in sym:
            print("  " + l)
        print("VIOLATION property=%s replay=%s" % (prop, replay))
        return 1
    if problem:
        die(problem)
    return 0


if __name__ == "__main__":
    sys.exit(main())
