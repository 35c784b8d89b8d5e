#!/usr/bin/env python3
"""Writes MANIFEST.json from checks.py."""
import json, os, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, V)
from checks import CHECKS, NOT_APPLICABLE
TECH = dict(plain="property-based testing: generated inputs, explicit oracle, shrinking",
            asan="property-based testing under AddressSanitizer: generated inputs, explicit oracle, shrinking",
            fuzz="structured and coverage-guided fuzzing (libFuzzer, AddressSanitizer), shrinking",
            tsan="generated multi-threaded histories under ThreadSanitizer",
            schedfast="stateful property-based testing under a seeded deterministic thread scheduler with virtual time, shrinking",
            sched="stateful property-based testing under a seeded deterministic thread scheduler with virtual time, shrinking")
props = [json.loads(l)["id"] for l in open(os.path.join(V, "properties.jsonl"))]
na = [dict(property=p, reason=NOT_APPLICABLE.get(p, "No check is registered yet.")) for p in props if p not in CHECKS]
m = dict(version=1, setup_cmd="python3 tools/setup.py", checks=[], not_applicable=na,
         notes="Checks build /repo's own CMake libraries out of tree under /verif/build (ignored by git). "
               "run.py replay <file> re-runs a replay file. VERIF_SEED selects the random choices.")
for p in props:
    if p in CHECKS:
        c = CHECKS[p]
        m["checks"].append(dict(property=p, quick_cmd="python3 run.py %s quick" % p, thorough_cmd="python3 run.py %s thorough" % p,
                                technique=c.get("technique", TECH[c["flavour"]]), level="exploration",
                                level_note=c.get("note", "Search over generated cases: no violation among the cases counted in the evidence file; "
                                                 "not a proof. Trusts the harness's reference computations and the sanitizer runtime.")))
json.dump(m, open(os.path.join(V, "MANIFEST.json"), "w"), indent=1)
open(os.path.join(V, "MANIFEST.json"), "a").write("\n")
