#!/usr/bin/env python3
"""Writes MANIFEST.json from properties.jsonl."""
import json
NOTE = {}
checks = []
for line in open("properties.jsonl"):
    p = json.loads(line)
    checks.append({
        "property": p["id"],
        "quick_cmd": f"python3 check.py {p['id']} quick",
        "thorough_cmd": f"python3 check.py {p['id']} thorough",
        "technique": "TLA+ specification: TLC design models, replay of their behaviours, TLC trace validation of recorded executions",
        "level": "model_checking",
        "level_note": "Exhaustive on the design models within the constants of their cfg files; every execution of the "
                      "library that is run (all enumerated behaviours and the seeded random ones) is accepted by the "
                      "specification call by call. Trusts the recorder (harness/), TLC, and the reading of the TDMS format in spec/.",
    })
doc = {
    "version": 1,
    "setup_cmd": "CARGO_TARGET_DIR=/verif/target cargo build --release --offline --locked --manifest-path harness/Cargo.toml",
    "checks": checks,
    "not_applicable": [],
    "notes": "No hooks in /repo: everything is observed through the public API and a recording stream.",
}
open("MANIFEST.json", "w").write(json.dumps(doc, indent=1) + "\n")
