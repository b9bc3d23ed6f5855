#!/usr/bin/env python3
"""Writes MANIFEST.json. Claimed properties are those the simulator knows (sim/src/main.rs)."""
import json, re, os
here = os.path.dirname(os.path.abspath(__file__))
main = open(f"{here}/../sim/src/main.rs").read()
known = sorted(set(re.findall(r'^\s*"(C\d\d)" =>', main, re.M)))
note = {
 "C01": "Seeded search: random tile histories on real maps in simulated processes with I/O faults and kills, every observation compared with a map model. Trusts the model, the simulated kernel and rustc.",
 "C02": "As C01; every event list compared with the exact expected list and an observer that refreshes only named chunks kept in step.",
 "C03": "Seeded search over maps and benign I/O schedules (short, interrupted, delayed transfers; several generations); loaded map compared tile by tile and chunk by chunk.",
 "C04": "Seeded search over failing system calls, full disks and power cuts during save/load; Ok must mean complete, Err needs an injected fault.",
 "C05": "Seeded search over kill, power-cut and I/O-error points inside saves on a simulated disk with volatile and durable content; next process must load the old or the new map.",
 "C06": "Seeded search over damage to real files followed by use of whatever load accepts; memory and step limits on the load.",
 "C07": "Seeded search over failure sequences followed by a fault-free phase in the same and in restarted processes.",
 "C08": "Differential seeded search: the same program in a plain and in a perturbed environment (console, logger, clock, seeds, pid, allocator); any difference or console output is a violation.",
 "C09": "Differential seeded search: every query in long histories, on preempted threads and nested in user code, against the same query as first call of a fresh process.",
 "C10": "Seeded search over the call at which user code panics; later operations compared with a run without the interrupted call.",
 "C11": "Seeded search over user shapes that misbehave in the middle of a query; limits on calls, steps, memory and stack.",
 "C12": "Seeded search over publisher histories on preempted threads with panicking, publishing and late subscribers, against a list model.",
 "C13": "Seeded search over ledger histories on preempted threads with panicking/degenerate Hash and Eq, against list and set models.",
 "C14": "Differential seeded search: maps with a history of edits, saves, loads, crashes against a fresh map with the same tiles.",
 "C15": "Seeded search over preemptions of threads sharing maps: reads, queries, saves and loads against a sequential model.",
 "C16": "Golden files written by 0.1.5 (and re-ordered, re-spaced variants) loaded under benign I/O faults, then used further.",
}
na = {
 "C30": "Pure function of its input: no schedule, clock, I/O or fault for a simulation to control. Would need numeric property testing.",
 "C31": "Pure geometry: nothing nondeterministic or faulty for a simulator to schedule.",
 "C32": "Pure geometry: nothing nondeterministic or faulty for a simulator to schedule.",
 "C33": "Pure arithmetic on transforms: no schedule, fault or history involved.",
 "C34": "Pure geometry: no schedule, fault or history involved.",
 "C35": "A pure iterator: no schedule, fault or history involved.",
 "C36": "Pure geometry, and the 3D module is not compiled into the crate.",
 "C37": "Pure arithmetic, and the optional engine dependency is not needed by anything with a schedule or a fault in it.",
}
tech = "deterministic simulation with fault injection (seeded search over histories, faults and interleavings)"
props = [json.loads(l) for l in open(f"{here}/../properties.jsonl")]
checks, nap = [], []
for p in props:
    i = p["id"]
    if i in known:
        checks.append({"property": i, "quick_cmd": f"./check.sh {i}", "thorough_cmd": f"VERIF_TIER=thorough ./check.sh {i}", "technique": tech, "level": "exploration", "level_note": note[i]})
    else:
        nap.append({"property": i, "reason": na.get(i, "check not built yet")})
m = {"version": 1, "setup_cmd": "./setup.sh", "checks": checks, "not_applicable": nap,
     "notes": "No hooks in /repo: the seams are the C library, the allocator, the logger and the thread-sanitizer compiler pass."}
json.dump(m, open(f"{here}/../MANIFEST.json", "w"), indent=1)
open(f"{here}/../MANIFEST.json", "a").write("\n")
print(len(checks), "checks", len(nap), "not applicable")
