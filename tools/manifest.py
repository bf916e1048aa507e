#!/usr/bin/env python3
"""Source of /verif/MANIFEST.json: claims every property that has a registered check. Run: python3 /verif/tools/manifest.py"""
import json, os, re, glob
root = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
ids = set()
for f in glob.glob(root + "/sim/harness/*.go"):
    ids |= set(re.findall(r'ID:\s*"(C\d\d)"', open(f).read()))
props = [json.loads(l) for l in open(root + "/properties.jsonl")]
NA = {
 "N01": "a pure function of its argument: no schedule, clock, I/O or fault can change the outcome, so the search this technique does (interleavings and faults) has nothing to decide; the shared-state aspect of the same code is claimed in C23",
 "N02": "pure value arithmetic without concurrency, time, I/O or multi-party behaviour; simulation adds nothing to plain input sampling (interference between threads is in C23, sharing of operands in C26)",
 "N03": "pure value arithmetic without concurrency, time, I/O or multi-party behaviour (interference between threads is in C23, sharing of operands in C26)",
 "N04": "a value object without concurrency, time or I/O: its behaviour depends only on the arguments of its calls",
 "N05": "a value object without concurrency, time or I/O: its behaviour depends only on the arguments of its calls",
 "N06": "acceptance of a complete text is a pure function of that text; what depends on delivery, truncation and read faults is claimed in C10 and C11",
 "N07": "a pure function of the path and the value; no schedule, clock, I/O or fault can affect it (interference between threads is in C23, sharing of operands in C26)",
 "N08": "pure functions of their arguments; no schedule, clock, I/O or fault can affect them (interference between threads is in C23, sharing of operands in C26)",
 "N09": "pure functions of static types; no schedule, clock, I/O or fault can affect them (interference between threads is in C23, sharing of operands in C26)",
}
race = set()
for f in glob.glob(root + "/sim/harness/*.go"):
    race |= set(re.findall(r'ID:\s*"(C\d\d)",\s*Race:\s*true', open(f).read()))
checks, na = [], []
for p in props:
    i = p["id"]
    if i in ids:
        t = "deterministic simulation with fault injection: seeded search over "
        t += "thread schedules, inputs and faults" if i in race else "inputs, call histories and injected faults"
        n = "Sampled search, not proof: every run is a seeded, exactly repeatable execution of the real code of /repo's working tree with "
        n += "its threads scheduled statement by statement by the simulator, under the race detector. " if i in race else "its environment (readers, writers, callbacks, file system, clock) simulated. "
        n += "Trusts the simulator, the Go toolchain and the reference models in sim/harness."
        checks.append(dict(property=i, quick_cmd=f"bash check.sh {i} quick", thorough_cmd=f"bash check.sh {i} thorough",
            evidence_file=f"evidence/{i}.json", technique=t, level="exploration", level_note=n))
    else:
        na.append(dict(property=i, reason=NA.get(i, "not claimed: no check has been built for it yet")))
m = dict(version=1, setup_cmd="bash setup.sh", checks=checks, not_applicable=na,
    notes="No hooks in /repo: the seams (scheduler, locks, file system, clock, map order) are put in by an instrumenter that rewrites a copy of /repo's working tree through a build overlay on every run; /repo holds only fix: commits. See DESIGN.md; replay a violation with: bash replay.sh FILE.")
open(root + "/MANIFEST.json", "w").write(json.dumps(m, indent=1) + "\n")
print(len(checks), "claimed,", len(na), "not applicable")
