#!/usr/bin/env python3
"""Regenerates MANIFEST.json from sim/bins (the properties with a check) and the notes below."""
import json, os
here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
built = [l.split()[0] for l in open(f"{here}/sim/bins") if l.strip()]
ids = [json.loads(l)["id"] for l in open(f"{here}/properties.jsonl") if l.strip()]
ASSUME = " Assumes the small reference evaluator of the scenario states the intended meaning, and that timely itself (a dependency outside /repo) is right."
NOTE = {}
exec(open(f"{here}/tools/notes.py").read(), {"NOTE": NOTE})
NA = {"C20": "Pure functions of their arguments: no schedule, clock, I/O, fault or multi-party behaviour to simulate; generating inputs alone would not be deterministic simulation."}
m = {
  "version": 1,
  "setup_cmd": "./setup.sh",
  "hooks": {"guard": "--cfg dd_sim", "enable": "RUSTFLAGS='--cfg dd_sim' (set by /verif/env.sh, used by every check)", "source_commits": open(f"{here}/tools/hook_commits").read().split()},
  "checks": [], "not_applicable": [],
}
for i in ids:
    if i in built:
        m["checks"].append({"property": i, "quick_cmd": f"./check {i} quick", "thorough_cmd": f"./check {i} thorough", "technique": "deterministic simulation with fault injection (seeded search over schedules, deliveries and faults)", "level": "exploration", "level_note": NOTE[i] + ASSUME})
    else:
        m["not_applicable"].append({"property": i, "reason": NA.get(i, "Check not built yet.")})
json.dump(m, open(f"{here}/MANIFEST.json", "w"), indent=1)
open(f"{here}/MANIFEST.json", "a").write("\n")
