#!/usr/bin/env python3
"""Writes MANIFEST.json from the list below."""
import json, os, sys
V = os.path.dirname(os.path.abspath(__file__))
props = [json.loads(l) for l in open(os.path.join(V, "properties.jsonl"))]
NA = {
 "C23": "Execution-time side channels: the simulator replaces time, so it cannot observe them.",
 "C24": "A statement about all possible attackers' programs (memory-hardness of scrypt); no execution of this code can decide it.",
}
TODO = set(sys.argv[1:])
note = ("Seeded search over simulated executions of the real code (all of /repo's C sources linked into the simulator, kernel side simulated): "
        "a clean run is evidence over the seeds explored, not proof. Trusts the simulated POSIX semantics and the OpenSSL-based reference oracles; "
        "every violation is re-executed in fresh processes, minimised and written as a replay file.")
m = {"version": 1, "setup_cmd": "python3 build.py", "checks": [], "not_applicable": [],
     "notes": "No hooks in /repo were needed: the simulator interposes at link level (objcopy symbol renaming), see DESIGN.md. Replay: python3 check.py --replay FILE"}
for p in props:
    i = p["id"]
    if i in NA: m["not_applicable"].append({"property": i, "reason": NA[i]})
    elif i in TODO: m["not_applicable"].append({"property": i, "reason": "check under construction"})
    else: m["checks"].append({"property": i, "quick_cmd": "python3 check.py " + i, "thorough_cmd": "python3 check.py " + i, "evidence_file": "evidence/%s.json" % i,
        "technique": "deterministic simulation with fault injection (seeded search over schedules, faults and inputs; reference-model oracle)", "level": "exploration", "level_note": note})
json.dump(m, open(os.path.join(V, "MANIFEST.json"), "w"), indent=1)
open(os.path.join(V, "MANIFEST.json"), "a").write("\n")
