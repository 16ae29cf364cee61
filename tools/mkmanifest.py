#!/usr/bin/env python3
# Source of /verif/MANIFEST.json (run by hand after an edit; checks do not use it).
import json, os
root = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..")
props = [json.loads(l) for l in open(root + "/properties.jsonl")]
NOTE = ("Seeded search over simulated executions of the real code (compiled with compiler-inserted callbacks at every memory access and atomic operation): "
        "a violation found is real and replayable; absence of violations covers the explored seeds only. Trusts the simulator's runtime, the callbacks rustc inserts, "
        "and, for library code outside stabby (core, alloc), that it behaves as on real hardware.")
EXTRA = {
 "C01": "Up to 4 threads, about 30 operations per run; orderings checked with vector clocks (every unsynchronised pair of accesses is reported) and stale loads.",
 "C05": "Histories of up to 12 operations decided by a linearizability checker. One listed known finding (load window) is excluded from the searched schedules.",
 "C07": "Histories decided by a linearizability checker.",
}
CLAIMED = open(root + "/tools/claimed.txt").read().split()
NA = {}
checks, na = [], []
for p in props:
    i = p["id"]
    if i in CLAIMED:
        checks.append(dict(property=i, quick_cmd=f"bash check.sh {i}", thorough_cmd=f"VERIF_TIER=thorough bash check.sh {i}",
            evidence_file=f"evidence/{i}.json",
            technique="deterministic simulation: seeded schedules, stale reads and faults over the real code, checked against reference models",
            level="exploration", level_note=(EXTRA.get(i, "") + " " + NOTE).strip()))
    else:
        na.append(dict(property=i, reason=NA.get(i, "The scenarios for this property are not built yet.")))
m = dict(version=1, setup_cmd="bash sim/build.sh",
  hooks=dict(guard="rustc -Zsanitizer=thread -Zexternal-clangrt (compiler flags set only by /verif/sim/rustc-wrap.sh; no source hook exists in /repo)",
             enable="RUSTC_WRAPPER=/verif/sim/rustc-wrap.sh, done by /verif/sim/build.sh", source_commits=[]),
  checks=checks, not_applicable=na,
  notes="Every source of nondeterminism (threads, atomics' visibility, allocator placement and failures, clocks, user-code panics) is decided by the simulator from one seed. bash replay.sh FILE re-runs a violation. Guard off means plain cargo build: the shipped behaviour is untouched.")
json.dump(m, open(root + "/MANIFEST.json", "w"), indent=1)
open(root + "/MANIFEST.json", "a").write("\n")
