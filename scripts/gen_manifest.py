#!/usr/bin/env python3
"""Writes MANIFEST.json from properties.jsonl."""
import json
props = [json.loads(l) for l in open('/verif/properties.jsonl')]
checks = []
for p in props:
    checks.append({
        "property": p["id"],
        "quick_cmd": f"./check {p['id']} quick",
        "thorough_cmd": f"./check {p['id']} thorough",
        "level": "exploration",
        "technique": "runtime monitoring: the real minter runs against simulated ledgers, RPC providers, chain and management canister under seeded workloads with injected faults; online monitors of a trace specification (model + hooked state) decide, overflow-checked build",
        "level_note": "seeded exploration; see DESIGN.md for the monitors of this property",
    })
m = {"version": 1, "setup_cmd": "./build.sh", "checks": checks, "not_applicable": []}
json.dump(m, open('/verif/MANIFEST.json', 'w'), indent=1)
