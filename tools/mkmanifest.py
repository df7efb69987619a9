#!/usr/bin/env python3
"""writes MANIFEST.json from the registry"""
import json, os, sys
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
from registry import CHECKS
m = {"version": 1, "setup_cmd": "python3 check.py --setup", "hooks": {"guard": "CMake option ARGTABLE3_STRICT_C89", "enable": "default (OFF); the option only chooses between -std=c89 (ON, as originally) and -std=gnu89 (OFF, // comments compile); the checks do not use CMake and contain no instrumentation", "source_commits": ["b02f274"]},
     "checks": [], "not_applicable": [],
     "notes": "No instrumentation in /repo: the harnesses use the public API (C16 the internal hash table header) and take /repo's sources. Known findings and repairs: known_findings.json."}
for p in sorted(CHECKS):
    c = CHECKS[p]
    m["checks"].append({"property": p, "quick_cmd": "python3 check.py %s --tier quick" % p, "thorough_cmd": "python3 check.py %s --tier thorough" % p,
                        "evidence_file": "evidence/%s.json" % p, "technique": c["technique"], "level": c["level"], "level_note": c["note"]})
with open(os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "MANIFEST.json"), "w") as f:
    json.dump(m, f, indent=1)
    f.write("\n")
