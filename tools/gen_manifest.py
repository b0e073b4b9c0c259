#!/usr/bin/env python3
"""Writes MANIFEST.json from properties.jsonl."""
import json, pathlib
root = pathlib.Path(__file__).resolve().parent.parent
props = [json.loads(l) for l in (root / "properties.jsonl").read_text().splitlines()]
TECH = "deterministic simulation with fault injection: seeded search over workloads, "
kinds = {
 "C01": "kill and power-loss points after acknowledgement, all-view audit against a reference model",
 "C02": "kill and power-loss points inside builds, audit and retry against a reference model",
 "C03": "injected storage errors at every kind of storage operation, audit against a reference model",
 "C04": "error bursts then fault-free service on the same instance with a step bound",
 "C05": "entropy, backends, restarts and schedules, differential against the undisturbed run",
 "C06": "build histories with restarts, against an independent executable model of the overlays and SAIDs",
 "C07": "build histories with crashes and errors, history walk and replay oracle",
 "C08": "naming histories with crashes, errors and concurrency, name oracle",
 "C09": "build histories with crashes, errors and concurrency, relation oracle",
 "C10": "build and query histories with crashes and errors, listing and search oracle",
 "C11": "storage operation histories with crashes and errors on a simulated disk, map oracle",
 "C12": "seeded thread schedules (random and PCT) with faults, history and final-state oracle",
 "C13": "graph histories with crashes and errors, tree oracle",
 "C15": "build histories with restarts, crashes and errors, every served text rebuilt and compared",
 "C14": "rejected and read-only requests with crashes and errors, store-dump comparison",
 "C16": "version-store build histories with crashes and errors, against an independent executable model and a replay oracle",
 "C18": "entropy and faulty sources, differential against another execution and an independent model",
 "C19": "nodes over a simulated network with loss, duplication, reordering, corruption, partitions, crashes and errors, convergence against the union of what was acknowledged",
 "C20": "operations counted at the storage seams of every call, against a bound computed from the model, under faults and over stores with countless reference paths",
 "C21": "build histories with crashes, errors and rejected documents, the stored object model against one computed from the reference model",
 "C17": "sources with short reads, interruptions, failures and truncation, and documents damaged at rest, against the written bytes",
}
note = ("Exploration: no violation in the simulated runs of this seed; not exhaustive. The repository's code and the SQLite C library run for real; "
        "the kernel's file system, sled, clock, entropy and the thread scheduler are simulated. Trusts the simulated disk's crash model, the sled stand-in and the reference model.")
NA = {
 "N01": "A pure function of one text or bundle: no schedule, time, I/O, fault or history for a simulator to vary. (Stored texts are exercised incidentally by C07.)",
 "N02": "A pure function of one command list: nothing nondeterministic to simulate.",
 "N03": "A pure function of one loaded bundle: nothing nondeterministic to simulate.",
}
m = {"version": 1, "setup_cmd": "cd sim && cargo build --offline", "checks": [], "not_applicable": [],
     "notes": "No hooks in /repo: the seams are libc (file system, clock, entropy, mutex), the DataStorage trait and the sled crate, all below or beside the repository's code. DESIGN.md describes the machinery; known-findings.txt lists defects found; 'target/debug/ocasim replay FILE' repeats a recorded violation."}
for p in props:
    i = p["id"]
    if i in NA:
        m["not_applicable"].append({"property": i, "reason": NA[i]})
    else:
        m["checks"].append({"property": i, "quick_cmd": f"./check.sh {i} quick", "thorough_cmd": f"./check.sh {i} thorough",
          "evidence_file": f"evidence/{i}.json", "technique": TECH + kinds[i], "level": "exploration", "level_note": note})
(root / "MANIFEST.json").write_text(json.dumps(m, indent=1) + "\n")
