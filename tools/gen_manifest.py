#!/usr/bin/env python3
import json, os, subprocess, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, V + "/bin")
from props import PROPS
NA = {
    "N03": "a pure function of its arguments: no schedule, clock, fault, allocation or second party is involved, so simulation would only be input generation",
}
checks = []
na = []
for line in open(V + "/properties.jsonl"):
    p = json.loads(line)["id"]
    if p in PROPS:
        checks.append({
            "property": p,
            "quick_cmd": "VERIF_TIER=quick python3 bin/check.py " + p,
            "thorough_cmd": "VERIF_TIER=thorough python3 bin/check.py " + p,
            "technique": "deterministic simulation with fault injection: seeded search over schedules, workloads and faults, reference-model oracle, replayable minimised traces",
            "level": "exploration",
            "level_note": PROPS[p].get("note", "Sampled, not exhaustive: every explored execution of the real code agreed with the reference model. Trusts the simulator core (sim/), the harness model and the compiler instrumentation."),
        })
    else:
        na.append({"property": p, "reason": NA.get(p, "check not built yet")})
m = {"version": 1, "setup_cmd": "python3 bin/check.py --build", "checks": checks, "not_applicable": na,
     "notes": "No hooks in /repo: every seam is at the compiler instrumentation (-fsanitize=thread callbacks provided by the simulator), the linker (--wrap), operator new, and stub libraries for Kokkos, MPI, Ginkgo, PETSc and SUNDIALS. Replay: python3 bin/check.py <ID> --replay <file>."}
json.dump(m, open(V + "/MANIFEST.json", "w"), indent=1)
