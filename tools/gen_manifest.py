#!/usr/bin/env python3
import json, os, sys
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
from plan import PLAN
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
NA = json.load(open(os.path.join(ROOT, "tools", "not_applicable.json")))
props = [json.loads(l) for l in open(os.path.join(ROOT, "properties.jsonl"))]
checks, na = [], []
for p in props:
    i = p["id"]
    if i in PLAN:
        checks.append({"property": i, "quick_cmd": f"python3 tools/check.py {i}", "thorough_cmd": f"VERIF_TIER=thorough python3 tools/check.py {i}", "evidence_file": f"evidence/{i}.json",
                       "technique": PLAN[i].get("technique", "deterministic simulation of threads, persistent memory and file system with seeded schedules, crashes and faults; history checked against a sequential model"),
                       "level": "exploration",
                       "level_note": "Seeded search, not exhaustive: a clean run is evidence for the schedules, crash points and faults sampled. Every violation is gated by replay in a fresh process. " + PLAN[i].get("note", "Trusts the simulator's memory and persistence model (DESIGN.md).")})
    else:
        na.append({"property": i, "reason": NA[i]})
m = {"version": 1, "setup_cmd": "bash tools/setup.sh",
     "hooks": {"guard": "PMAP_COPY_CHUNK", "enable": "sim/seam.h, force-included before the code under test, defines it as a call into the simulator", "source_commits": ["c75e107"]},
     "checks": checks, "not_applicable": na,
     "notes": "One hook in /repo: the number of slots migrated at a time (PMAP_COPY_CHUNK), so that small tables are migrated in several chunks. Every other seam is interposed at link level (libc, operator new, pthread) or by compiler instrumentation (-fsanitize=thread call-backs) of /repo's sources compiled in /verif."}
json.dump(m, open(os.path.join(ROOT, "MANIFEST.json"), "w"), indent=1)
