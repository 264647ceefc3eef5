#!/usr/bin/env python3
"""Runs one property's check:  check.py C01           (tier and seed from the environment)
                               check.py --replay FILE (executes a replay file, shows its event log)
"""
import os, sys, json, time, subprocess, glob, shutil, re
import build

V = os.path.dirname(os.path.abspath(__file__))
TIER = os.environ.get("VERIF_TIER", "quick")
SEED = int(os.environ.get("VERIF_SEED", "1") or 1)
CFG = {  # workers per build variant, seconds of search (quick, thorough)
    "default": ({"plain": 5, "asan": 3}, 24, 540),
    "C14": ({"plain": 2, "asan": 1, "tsan": 4, "alt": 1}, 30, 540),
    "C16": ({"plain": 8}, 24, 540),
    "C19": ({"plain": 6, "asan": 2}, 30, 700),
}
SEEDS = {"plain": 0, "asan": 1, "tsan": 2, "alt": 3}
for _p in ("C01", "C02", "C07", "C12", "C13", "C17", "C20", "C26"): CFG[_p] = ({"plain": 5, "asan": 2, "alt": 1}, 24, 540)
STUBS = ["kernel (files, pipes, terminal, descriptors, signals, clocks, resource limits): simulated",
         "libc wrappers that reach the kernel, malloc/mmap: simulated; stdio buffering: real glibc streams on simulated descriptors",
         "RDRAND and CPUID instructions and /dev/urandom: simulated, seeded (the code around them is real)",
         "libcrypto's portable AES_encrypt: real, except in streams of gigabytes, where an equivalent using the machine's AES instructions stands in",
         "accelerated routines: real; 'broken hardware' corrupts their results, and one that the simulated CPU lacks traps"]

def sh(cmd, timeout=None):
    r = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.PIPE, timeout=timeout)
    return r.returncode, r.stdout.decode("latin1"), r.stderr.decode("latin1")

def execplan(exe, plan):
    rc, out, err = sh([exe, "exec", plan], timeout=850)
    m = re.search(r"RESULT (\w+) class=(.*?) hash=(\w+)", out)
    if not m: return None
    return (m.group(1) == "bad", m.group(2), m.group(3), out[m.end():].strip(), err)

def replay(path):
    txt = open(path, encoding="latin1").read()
    m = re.search(r"^# variant (\w+)", txt, re.M)
    exe = build.build(m.group(1) if m else "plain")
    a, b = execplan(exe, path), execplan(exe, path)
    if not a or not b: print("replay: no result"); return 2
    subprocess.run([exe, "exec", path, "-v"])
    sys.stderr.write(a[4])
    print("\nreplayed twice: %s class=%s hash=%s / %s class=%s hash=%s" % (a[0] and "VIOLATION" or "ok", a[1], a[2], b[0] and "VIOLATION" or "ok", b[1], b[2]))
    if a[:3] != b[:3]: print("replay: not reproducible"); return 2
    return 1 if a[0] else 0

def known():
    out = []
    f = os.path.join(V, "known_findings.txt")
    if os.path.exists(f):
        for l in open(f):
            m = re.match(r"known: property=(\w+) class=(\S+) match=(.*?) :: (.*)", l.strip())
            if m: out.append(m.groups())
    return out

def main():
    if len(sys.argv) > 2 and sys.argv[1] == "--replay": return replay(sys.argv[2])
    prop = sys.argv[1]
    tier = TIER if TIER in ("quick", "thorough") else "quick"
    t0 = time.time()
    mix, q, th = CFG.get(prop, CFG["default"])
    secs = float(os.environ.get("CHECK_SECONDS", q if tier == "quick" else th))
    exes = {v: build.build(v) for v in mix}
    tb = time.time() - t0
    work = os.path.join(V, "build", "run-%s-%d" % (prop, os.getpid()))
    shutil.rmtree(work, ignore_errors=True); os.makedirs(work)
    try:
        return go(prop, tier, mix, secs, exes, tb, work, t0)
    finally:
        shutil.rmtree(work, ignore_errors=True)

def go(prop, tier, mix, secs, exes, tb, work, t0):
    rules = dict(l.split("\t", 1) for l in sh([next(iter(exes.values())), "list"])[1].splitlines())
    ts = time.time()
    procs = []
    for vi, (v, n) in enumerate(sorted(mix.items())):
        base = SEED * 1000 + SEEDS[v]
        for i in range(n):
            out = os.path.join(work, "%s-%d" % (v, i))
            lim = os.environ.get("CHECK_RUNS", "1000000000")
            p = subprocess.Popen([exes[v], "run", prop, str(base), str(i), str(n), lim, str(secs), out], stdout=subprocess.PIPE, stderr=open(out + ".err", "wb"))
            procs.append((v, out, p))
    dead = []
    for v, out, p in procs:
        try: p.wait(timeout=max(60, secs + 700))
        except subprocess.TimeoutExpired: p.kill(); dead.append((v, out, "worker did not end"))
        if p.returncode != 0: dead.append((v, out, "worker exited with %s" % p.returncode))
    wall_search = time.time() - ts
    tot = dict(runs=0, nontrivial=0, faulted=0, steps=0, switches=0, sim_s=0.0)
    fired, probes, samples, viol = {}, {}, [], []
    sigs, scheds, cov = set(), set(), None
    per = {}
    for v, out, p in procs:
        for f in sorted(glob.glob(out + ".*.json")):
            j = json.load(open(f))
            viol += [(v, x) for x in j.get("viol", [])]
            if "runs" not in j: continue
            for k in tot: tot[k] += j[k]
            per[v] = per.get(v, 0) + j["runs"]
            for k, n in j["fired"].items(): fired[k] = fired.get(k, 0) + n
            for k, n in j["probes"].items(): probes[k] = probes.get(k, 0) + n
            if j["samples"] and len(samples) < 6: samples.append(v + ": " + j["samples"][0])
        for f in glob.glob(out + ".*.sigs"):
            b = open(f, "rb").read(); sigs.update(b[i:i + 8] for i in range(0, len(b), 8))
        for f in glob.glob(out + ".*.scheds"):
            b = open(f, "rb").read(); scheds.update(b[i:i + 8] for i in range(0, len(b), 8))
        for f in glob.glob(out + ".*.cov") if v == "asan" else []:
            b = int.from_bytes(open(f, "rb").read(), "little"); cov = b if cov is None else cov | b
    # determinism: the same plans again in fresh processes, in another order of workers
    det = {"plans_run_twice": 0, "mismatches": 0}
    if all(x["class"] in [k[1] for k in known() if k[0] == prop] for _, x in viol):
        nd = 12 if tier == "quick" else 200
        for v, exe in exes.items():
            base = SEED * 1000 + SEEDS[v]
            ps = [subprocess.Popen([exe, "det", prop, str(base), str(10 + k * nd // 4), str(n)], stdout=subprocess.PIPE, stderr=subprocess.DEVNULL) for k, n in ((0, nd // 4), (1, nd // 4), (2, nd // 4), (3, nd // 4))]
            one = subprocess.Popen([exe, "det", prop, str(base), "10", str(nd // 4 * 4)], stdout=subprocess.PIPE, stderr=subprocess.DEVNULL)
            a = b"".join(p.communicate()[0] for p in ps).splitlines(); b = one.communicate()[0].splitlines()
            det["plans_run_twice"] += len(b)
            det["mismatches"] += sum(x != y for x, y in zip(a, b)) + abs(len(a) - len(b))
    ud = lambda d: dict(sorted(d.items(), key=lambda x: -x[1]))
    kinds = {}
    for k, n in fired.items():
        kk = ":".join(k.split(":")[:2]); kinds[kk] = kinds.get(kk, 0) + n
    passthru = open(os.path.join(os.path.dirname(next(iter(exes.values()))), "passthrough.txt")).read().split()
    ev = {
        "property": prop, "tier": tier, "seed": SEED, "level": "exploration", "wall_s": round(time.time() - t0, 2), "violations": 0,
        "coverage": {
            "evaluations": tot["runs"], "distinct_nontrivial": len(sigs), "rule": rules.get(prop, ""), "samples": samples,
            "nontrivial_runs": tot["nontrivial"], "runs_with_a_fault_fired": tot["faulted"], "runs_per_variant": per,
            "runs_per_hour": int(tot["runs"] / max(wall_search, 1e-3) * 3600), "seeds_per_hour": int(tot["runs"] / max(wall_search, 1e-3) * 3600),
            "simulated_seconds": round(tot["sim_s"], 3), "simulated_calls": tot["steps"], "scheduling_decisions": tot["switches"],
            "distinct_schedules": len(scheds), "distinct_schedules_measure": "hash of the sequence of scheduling decisions (runs with more than one runnable task)",
            "distinct_states_measure": "distinct_nontrivial: hash of a run's complete event log (every simulated call, its object, arguments and result)",
            "code_edges_reached_asan": bin(cov).count("1") if cov is not None else 0,
            "fault_kinds_fired": ud(kinds), "faults_fired_detailed": dict(list(ud(fired).items())[:120]), "probes": ud(probes),
            "determinism": det, "build_s": round(tb, 2), "search_s": round(wall_search, 2),
            "real_components": ["all of " + ", ".join(build.sources()), "OpenSSL libcrypto block cipher (software AES path)"],
            "stubbed_components": STUBS, "libc_functions_run_for_real": passthru,
        },
        "assumptions": ["the simulated kernel follows POSIX/Linux semantics for the calls used", "reference oracles use OpenSSL's EVP primitives",
                        "sampled: a clean run is evidence over the seeds executed, not proof"],
    }
    os.makedirs(os.path.join(V, "evidence"), exist_ok=True)
    json.dump(ev, open(os.path.join(V, "evidence", prop + ".json"), "w"), indent=1)
    # gate, minimise, report
    os.makedirs(os.path.join(V, "replays"), exist_ok=True)
    known_l = known()
    reported, notes, seen_known = 0, [], set()
    seen, kn_seen = set(), set()
    for v, x in viol:
        if (v, x["class"]) in seen or len(seen) >= 4 or (v, x["class"]) in kn_seen: continue
        a = execplan(exes[v], x["plan"]); b = execplan(exes[v], x["plan"])
        if not a or not b or not a[0] or a[:3] != b[:3]:
            notes.append("not reproducible in a fresh process: %s %s (%s / %s)" % (v, x, a and a[:3], b and b[:3])); continue
        if a[1].startswith("harness-exit"): notes.append("harness error %s on %s: %s" % (a[1], v, a[4][-2000:])); continue
        kn = [k for k in known_l if k[0] == prop and k[1] == a[1] and k[2] in a[3]]
        if kn: seen_known.add(kn[0]); kn_seen.add((v, x["class"])); continue
        seen.add((v, x["class"]))
        rp = os.path.join(V, "replays", "%s-%s-%s-s%d.plan" % (prop, re.sub(r"\W+", "_", a[1]), v, SEED))
        rc, so, se = sh([exes[v], "shrink", x["plan"], rp, "20" if tier == "quick" else "90"], timeout=800)
        if rc != 0 or not os.path.exists(rp): shutil.copy(x["plan"], rp)
        t = open(rp, encoding="latin1").read()
        open(rp, "w", encoding="latin1").write("# variant %s\n# replay: python3 check.py --replay %s\n" % (v, os.path.relpath(rp, V)) + t)
        c, d = execplan(exes[v], rp), execplan(exes[v], rp)
        if not c or not c[0] or c[1] != a[1] or c[:3] != d[:3]:
            notes.append("minimised plan does not replay: %s" % rp)
            shutil.copy(x["plan"], rp)
            t = open(rp, encoding="latin1").read()
            open(rp, "w", encoding="latin1").write("# variant %s\n" % v + t)
            c = a
        reported += 1
        print("%s: %s" % (c[1], c[3][:1500]))
        if c[4].strip(): print("\n".join("| " + l for l in c[4].splitlines()[:25]))
        print("--- minimised schedule and fault trace (seed %d, %s build)" % (SEED, v))
        print("\n".join(l for l in t.splitlines() if not l.startswith("#")))
        print("VIOLATION property=%s replay=%s" % (prop, rp), flush=True)
    for k in known_l:
        if k[0] == prop: print("KNOWN-FINDING: property=%s %s" % (prop, k[3]))
    ev["violations"] = reported
    json.dump(ev, open(os.path.join(V, "evidence", prop + ".json"), "w"), indent=1)
    if reported: return 1
    if notes or dead or det["mismatches"]:
        for n in notes + ["%s %s: %s" % d for d in dead]: print("ERROR:", n)
        for v, out, m in dead:
            print(open(out + ".err", errors="replace").read()[-1500:])
        if det["mismatches"]: print("ERROR: %d plans did not repeat exactly" % det["mismatches"])
        return 2
    if tot["runs"] == 0: print("ERROR: nothing was executed"); return 2
    print("%s: held on %d runs (%d distinct), %d with faults fired, %.0f simulated s, %.1f s wall" % (prop, tot["runs"], len(sigs), tot["faulted"], tot["sim_s"], time.time() - t0))
    return 0

if __name__ == "__main__":
    sys.exit(main())
