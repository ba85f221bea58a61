#!/usr/bin/env python3
"""Writes /verif/MANIFEST.json from harness_list.py and properties.jsonl."""
import json, os, sys
here = os.path.dirname(os.path.abspath(__file__)); root = os.path.join(here, "..")
sys.path.insert(0, root)
from harness_list import CHECKS, NOT_APPLICABLE
props = [json.loads(l) for l in open(os.path.join(root, "properties.jsonl"))]
checks, na = [], []
for p in props:
    i = p["id"]
    if i in CHECKS:
        c = CHECKS[i]
        checks.append(dict(property=i, quick_cmd=f"python3 check.py {i}", thorough_cmd=f"python3 check.py {i}",
                           evidence_file=f"evidence/{i}.json",
                           technique="deterministic simulation with fault injection: " + c["technique"],
                           level="exploration",
                           level_note=c["note"] + " Seeded search: it shows the presence of violations in the runs explored, not their absence elsewhere. Trusts the simulator in sim/, g++ and AddressSanitizer."))
    else:
        na.append(dict(property=i, reason=NOT_APPLICABLE.get(i, "Check not built yet.")))
json.dump(dict(version=1, setup_cmd="python3 check.py --build file",
    hooks=dict(guard="ARCHON_VERIF (unused: no hooks in /repo were needed)", enable="The checks compile the unchanged sources of /repo and redirect system calls, threads, clocks and allocation at link time (ld --wrap, replaced operator new) and through compiler instrumentation (-fsanitize-coverage=trace-pc).", source_commits=[]),
    checks=checks, not_applicable=na,
    notes="check.py builds what a check needs from /repo's working tree into /verif/build (ignored by git) and runs it. VERIF_SEED selects the seed, VERIF_TIER the effort. Replay a violation with: python3 check.py <ID> --replay <file>."),
    open(os.path.join(root, "MANIFEST.json"), "w"), indent=1)
print(len(checks), "checks", len(na), "not applicable")
