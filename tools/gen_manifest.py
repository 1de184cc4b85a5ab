#!/usr/bin/env python3
"""Writes MANIFEST.json: claimed = every property the harness has a scenario for."""
import json, os, re
here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
props = [json.loads(l) for l in open(os.path.join(here, "properties.jsonl"))]
src = open(os.path.join(here, "sim/src/props/mod.rs")).read()
claimed = set(re.findall(r'"(C\d\d)" => \w+::', src))
NA = {
    "C24": "pure functions of one snapshot value (find, to_json): no concurrency, time, I/O, randomness or other party, so there is no schedule or fault for a simulator to decide; deciding it would be plain input testing.",
    "C25": "pure function of a label set and a label: no schedule, clock or fault can influence it. Filters as used inside the running pipeline are covered by C01 and C17.",
}
NOTE = ("Seeded search over schedules, faults and inputs of the real code: evidence, not proof. Trusts the simulator "
        "runtime (/verif/sim/rt), the scenario's reference model, and sequentially consistent memory.")
man = {"version": 1, "setup_cmd": "./build.sh", "checks": [], "not_applicable": []}
for p in props:
    i = p["id"]
    if i in claimed:
        man["checks"].append({
            "property": i,
            "quick_cmd": f"./check {i} quick",
            "thorough_cmd": f"./check {i} thorough",
            "technique": "deterministic simulation with fault injection (seeded schedule/fault search over the real code, history oracle)",
            "level": "exploration",
            "level_note": NOTE,
        })
    else:
        man["not_applicable"].append({"property": i, "reason": NA.get(i, "no check built yet.")})
man["notes"] = "No hooks in /repo: the simulator interposes clock, sleep, futex, thread start/join, yield and getrandom at link level and preempts at compiler-inserted edge callbacks."
json.dump(man, open(os.path.join(here, "MANIFEST.json"), "w"), indent=1)
print(len(man["checks"]), "claimed")
