#!/usr/bin/env python3
"""Writes MANIFEST.json."""
import json, os
root = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
props = [json.loads(l) for l in open(os.path.join(root, "properties.jsonl"))]
TECH = {
    "C01": "deterministic simulation: seeded histories, faults and schedules against a reference model of containers",
    "C02": "deterministic simulation: seeded view/write/conversion histories against a one-value reference model on a hostile simulated heap",
    "C03": "deterministic simulation: seeded histories of discriminants and addresses at all 16 widths, debug and optimised builds",
    "C04": "deterministic simulation: corrupted-discriminant fault injection on every extraction and observation route",
    "C05": "deterministic simulation: allocation-failure injection at any allocation of seeded histories, debug and optimised builds",
    "C06": "deterministic simulation: panic and error injection at every user-code call inside observers, ownership ledger",
    "C07": "deterministic simulation: seeded histories on an instrumented simulated heap (guards, poison, immediate reuse, block registry)",
    "C08": "deterministic simulation: per-operation conservation of blocks and values under fault injection",
    "C09": "deterministic simulation: clone failures injected at every field and allocation, later mutation histories, ownership ledger",
    "C10": "deterministic simulation: seeded comparisons against the enum's own implementation, comparison panics injected",
    "C11": "deterministic simulation: seeded formatting against the enum's own output, sink and formatter failures injected",
    "C12": "deterministic simulation: seeded thread schedules (random, PCT, stalls) at memory-access granularity against a sequential model",
    "C13": "deterministic simulation: seeded interior-mutability histories and schedules against a counting model",
    "C14": "deterministic simulation: the same seeded programs in every width and profile and at other placements, histories compared",
}
NOTE = ("Seeded search, not proof: holds on every simulated run executed (counts in the evidence file). Real crate and macro expansions; allocator, "
        "scheduler, payload types, callbacks and sinks are simulated. Sequentially consistent interleavings. ")
EXTRA = {
    "C08": "Two genuine leaks of the crate are recorded in KNOWN_FINDINGS and counted, not judged. ",
    "C13": "Five genuine lost-update behaviours of ref_from_tagged_box are recorded in KNOWN_FINDINGS and counted, not judged. ",
    "C10": "Enums with a hand-written PartialEq are assumed to keep != the negation of ==. ",
    "C03": "All 16 widths; quick alternates debug and optimised by width, thorough runs both at each. ",
    "C14": "All 16 widths; quick alternates debug and optimised by width, thorough runs both at each. ",
    "C12": "Interleavings of 2 to 4 threads; weak-memory reorderings are not simulated. ",
}
NA = {
    "C15": "a pure packing function of two integers and a configuration constant: no concurrency, time, I/O, faults or history for a simulator to control",
    "C16": "a property of types (auto traits, layout niche) decided by the compiler, with no executions to schedule or fault",
    "C17": "a property of what macro input compiles, decided at compile time, with no executions to schedule or fault",
}
checks = []
for p in props:
    i = p["id"]
    if i in NA:
        continue
    checks.append({"property": i, "quick_cmd": "python3 check.py %s quick" % i, "thorough_cmd": "python3 check.py %s thorough" % i,
                   "evidence_file": "evidence/%s.json" % i, "technique": TECH[i], "level": "exploration", "level_note": NOTE + EXTRA.get(i, "")})
m = {"version": 1, "setup_cmd": "python3 check.py setup", "checks": checks,
     "not_applicable": [{"property": k, "reason": v} for k, v in NA.items()],
     "notes": "No hooks in /repo: the global allocator, the payload types and compiler instrumentation are the seams. Replay a reported violation with: python3 check.py replay FILE"}
json.dump(m, open(os.path.join(root, "MANIFEST.json"), "w"), indent=1)
