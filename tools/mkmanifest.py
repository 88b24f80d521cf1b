#!/usr/bin/env python3
"""Writes MANIFEST.json from the list of checks."""
import json, os, sys
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(ROOT, "lib"))
import checks
TECH = "TLA+ specification model-checked with TLC; %s"
GEN = "behaviours enumerated by TLC from the specification are replayed against the library and the recorded traces are validated by TLC against the same specification"
props = [json.loads(l) for l in open(os.path.join(ROOT, "properties.jsonl"))]
m = {
    "version": 1,
    "setup_cmd": "harness/build.sh",
    "hooks": {"guard": "cfg(verif_hooks)", "enable": "RUSTFLAGS=--cfg verif_hooks (harness/build.sh sets it for its own build)",
              "source_commits": ["e6210cd"]},
    "checks": [], "not_applicable": [],
    "notes": "run.py PROPERTY [quick|thorough]; one TLA+ specification (spec/), one conformance harness (harness/).",
}
for p in props:
    i = p["id"]
    if i in checks.CHECKS:
        m["checks"].append({
            "property": i, "quick_cmd": "python3 run.py %s quick" % i, "thorough_cmd": "python3 run.py %s thorough" % i,
            "technique": TECH % checks.TECHNIQUE.get(i, GEN), "level": "model_checking",
            "level_note": checks.NOTES.get(i, "exhaustive over single deviations of the peer, sampled for several; bounded handshake and data phase"),
        })
    else:
        m["not_applicable"].append({"property": i, "reason": "check under construction"})
json.dump(m, open(os.path.join(ROOT, "MANIFEST.json"), "w"), indent=1)
