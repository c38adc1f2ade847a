#!/usr/bin/env python3
"""Writes MANIFEST.json from the table of properties."""
import json, os, sys
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(HERE, "tools"))
from props import PROPS, NOT_APPLICABLE
checks = []
for p in sorted(PROPS):
    checks.append({
        "property": p,
        "quick_cmd": "bash check.sh %s" % p,
        "thorough_cmd": "bash check.sh %s --tier thorough" % p,
        "evidence_file": "evidence/%s.json" % p,
        "technique": "deterministic simulation with fault injection",
        "level": "exploration",
        "level_note": PROPS[p]["note"],
    })
m = {"version": 1, "setup_cmd": "python3 tools/build.py rel dbg prof",
     "hooks": {"guard": "RUY_SIMULATED_CACHE_BUDGET", "enable": "tools/build.py compiles the sources with -DRUY_SIMULATED_CACHE_BUDGET=sim_cache_budget, a function of the simulator that returns the run's packed-matrix cache budget; without the define the header is unchanged", "source_commits": ["0c3f9bea8c2e631ac1c6b87e32a0fff79ef4a47d"]},
     "checks": checks,
     "not_applicable": [{"property": k, "reason": v} for k, v in sorted(NOT_APPLICABLE.items())],
     "notes": "Replay a reported trace with build/sim-<flavour> replay FILE --verbose. Every check rebuilds from the working tree of the repository."}
json.dump(m, open(os.path.join(HERE, "MANIFEST.json"), "w"), indent=1)
