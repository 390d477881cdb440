#!/usr/bin/env python3
"""Writes MANIFEST.json."""
import json, os, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(V, "bin"))
import plan
checks = []
for p in plan.PROPS:
    checks.append({
        "property": p,
        "quick_cmd": f"bin/check {p} quick",
        "thorough_cmd": f"bin/check {p} thorough",
        "technique": "TLA+ specification checked with TLC; traces of the real crate validated against it (" + plan.ABOUT[p] + ")",
        "level": "model_checking",
        "level_note": "The TLA+ model is checked within its bounds; the code is bound to it by validating, call by call, the recorded traces of the real crate on generated inputs (bounded, seeded), not by proof. Trusts TLC, the spec's statement of the wire format and the harness's projection of decoded values.",
    })
m = {"version": 1, "setup_cmd": "bin/setup", "checks": checks, "not_applicable": [],
     "notes": "No hooks: everything is reached through the public interface. See DESIGN.md."}
with open(os.path.join(V, "MANIFEST.json"), "w") as f:
    json.dump(m, f, indent=1)
    f.write("\n")
