#!/usr/bin/env python3
"""Writes MANIFEST.json from checks.py."""
import json
import os
import sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, V)
from checks import CHECKS, NOT_APPLICABLE  # noqa: E402

TECH = ("deterministic simulation with fault injection: seeded search over operation histories{sched} and injected faults, "
        "model and ledger invariants checked after every step, violations minimised and replayed exactly")
m = {
    "version": 1,
    "setup_cmd": "python3 /verif/check.py --setup",
    "checks": [],
    "not_applicable": [{"property": p, "reason": r} for p, r in sorted(NOT_APPLICABLE.items())],
    "notes": "Binaries are built from /repo/include into /verif/build, keyed by a hash of the sources. No hooks in /repo are "
             "needed: allocators, memory resources, element types and callables are the seams, and thread scheduling is "
             "controlled through compiler instrumentation of the harness build. See DESIGN.md.",
}
for p, c in sorted(CHECKS.items()):
    m["checks"].append({
        "property": p,
        "quick_cmd": "python3 /verif/check.py %s" % p,
        "thorough_cmd": "VERIF_TIER=thorough python3 /verif/check.py %s" % p,
        "evidence_file": "evidence/%s.json" % p,
        "technique": c.get("technique", TECH.format(sched=c.get("sched", ""))),
        "level": c["level"],
        "level_note": c["note"],
    })
with open(os.path.join(V, "MANIFEST.json"), "w") as f:
    json.dump(m, f, indent=1)
    f.write("\n")
