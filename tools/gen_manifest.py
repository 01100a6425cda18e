#!/usr/bin/env python3
"""Writes MANIFEST.json from the registry and properties.jsonl."""
import json, os, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path[:0] = [os.path.join(V, "lib"), os.path.join(V, "checks"), os.path.join(V, "tools")]
sys.dont_write_bytecode = True
import registry
from manifest_notes import TECH, NOTE, DEFAULT_TECH, DEFAULT_NOTE
props = [json.loads(l) for l in open(os.path.join(V, "properties.jsonl"))]
checks, na = [], []
for p in props:
    i = p["id"]
    if i in registry.MODULES:
        chk = registry.find(i)
        checks.append({"property": i, "quick_cmd": "./check %s --tier quick" % i, "thorough_cmd": "./check %s --tier thorough" % i, "evidence_file": "evidence/%s.json" % i,
                       "technique": TECH.get(i, DEFAULT_TECH), "level": chk.level, "level_note": NOTE.get(i, DEFAULT_NOTE) + (" Assumes: " + "; ".join(chk.assumptions) + "." if chk.assumptions else "")})
    else:
        na.append({"property": i, "reason": "no check built yet"})
json.dump({"version": 1, "setup_cmd": "./check --setup", "checks": checks, "not_applicable": na,
           "notes": "No hooks in /repo: the checks observe the unmodified command line, library and scripts from outside (see DESIGN.md)."},
          open(os.path.join(V, "MANIFEST.json"), "w"), indent=1)
print(len(checks), "checks,", len(na), "not applicable")
