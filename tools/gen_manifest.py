#!/usr/bin/env python3
"""Writes /verif/MANIFEST.json from the list of claimed properties."""
import json, os
here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
LOCAL = [f"C{i:02d}" for i in range(1, 24)] + ["C32", "C33"]
REMOTE = ["C24", "C25", "C26", "C27", "C28", "C31", "C34"]
NA = {
 "C29": "Encoding and decoding of ids and error values are pure functions of one input: there is no schedule, clock, I/O or second party for simulation to control, so seeded simulation would be plain property-based testing.",
 "C30": "The macros run at compile time and their expansion has no concurrency, time or I/O; whether the expansion equals the documented hand-written code is a question of translation, not of schedules or faults.",
}
PENDING = "not claimed yet"
props = [json.loads(l)["id"] for l in open(f"{here}/properties.jsonl")]
def entry(p, stub):
    return {
        "property": p,
        "quick_cmd": f"./check.sh {p}",
        "thorough_cmd": f"VERIF_TIER=thorough ./check.sh {p}",
        "technique": "deterministic simulation with fault injection: seeded search over schedules, delays and faults of the real crate, oracle over the recorded history",
        "level": "exploration",
        "level_note": stub,
    }
ln = "Seeded search over scenarios, task schedules, thread switches, cancellations and failures of the real kameo code on a simulated scheduler and clock; a bounded number of runs, not exhaustive."
lr = "Seeded search over scenarios, schedules, message delays, connection resets, partitions and node crashes of several real kameo nodes in one process over a simulated network; a bounded number of runs, not exhaustive."
m = {
 "version": 1,
 "setup_cmd": "./setup.sh",
 "hooks": {
  "guard": "--cfg kameo_sim (a rustc flag)",
  "enable": "sim/build.sh sets RUSTFLAGS=--cfg kameo_sim when it builds simremote; simlocal is built without it",
  "source_commits": ["428cb85ad7a8116c3a1569829cd8726ed1f02d36"],
 },
 "checks": [entry(p, ln) for p in LOCAL] + [entry(p, lr) for p in REMOTE],
 "not_applicable": [{"property": p, "reason": NA.get(p, PENDING)} for p in props if p not in LOCAL and p not in REMOTE],
}
json.dump(m, open(f"{here}/MANIFEST.json", "w"), indent=1)
