#!/usr/bin/env python3
"""Writes /verif/MANIFEST.json."""
import json, os
T = {
 "C01": "deterministic simulation: seeded schedules and refusals, refinement of a reference queue with pool accounting",
 "C02": "deterministic simulation: seeded schedules and refusals, refinement of a reference sequence with element identity",
 "C03": "deterministic simulation: seeded schedules and refusals, refinement of a reference array",
 "C04": "deterministic simulation: seeded schedules, refinement of a truncating reference array, memory ledger, allocation ban",
 "C05": "deterministic simulation: seeded schedules and refusals, refinement of a reference ordered dictionary",
 "C06": "deterministic simulation: seeded schedules and refusals, refinement of a reference dictionary, memory ledger",
 "C07": "deterministic simulation with fault injection: refused allocations and element copies, admissible-state and leak oracle",
 "C08": "deterministic simulation with fault injection: element and byte-granular memory ledgers over whole histories",
 "C09": "deterministic simulation: identity of every element and held iterators tracked across seeded histories",
 "C10": "deterministic simulation: tasks switched at any load or store by a seeded scheduler, access conflict detection",
 "C11": "deterministic simulation: step and comparison counters over seeded adversarial histories, step budgets",
 "C12": "deterministic simulation with fault injection: any request inside an operation that needs none, low-memory handler",
 "C13": "deterministic simulation: snapshots against the model, storage disjointness, later drift",
}
NOTE = ("Sampled, not proved: several hundred thousand seeded runs in the quick tier, about a hundred times that in the thorough one. Real code: "
        "all of /repo/ttl from the working tree; simulated: scheduler, heap, low-memory handler, element types. Trusted: the simulator, the "
        "reference models, clang 18. Every violation is replayed in a fresh process before it is reported.")
NA = {
 "C14": "the algorithms are pure functions of their input ranges: no schedule, fault, time or history can change their result, so input generation would be all a simulator adds (that they share no state between tasks is part of C10)",
 "C15": "bit set operations are pure functions of the bits: no allocation, fault, schedule or history beyond the value itself (that they share no state between tasks is part of C10)",
 "C16": "compile-time traits and value utilities: settled at compile time or pure functions, nothing for a scheduler or fault injector to decide",
}
m = {"version": 1, "setup_cmd": "python3 bin/common.py",
     "checks": [{"property": p, "quick_cmd": "python3 bin/check.py " + p, "thorough_cmd": "python3 bin/check.py %s --thorough" % p,
                 "evidence_file": "evidence/%s.json" % p, "technique": T[p], "level": "exploration", "level_note": NOTE} for p in sorted(T)],
     "not_applicable": [{"property": p, "reason": NA[p]} for p in sorted(NA)],
     "notes": "No hooks in /repo: the seams are the global operator new/delete, std::set_new_handler, the element types and compiler instrumentation. "
              "bin/replay.py FILE replays a violation; SIM_REPO=DIR checks another tree."}
with open(os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "MANIFEST.json"), "w") as f:
    json.dump(m, f, indent=1)
    f.write("\n")
