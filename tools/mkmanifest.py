#!/usr/bin/env python3
"""Writes MANIFEST.json from checks.py and properties.jsonl."""
import json, os, sys
H = os.path.dirname(os.path.dirname(os.path.abspath(__file__))); sys.path.insert(0, H)
from checks import CHECKS
ids = [json.loads(l)["id"] for l in open(H + "/properties.jsonl")]
NA = {"N01": "Pure functions of their arguments: no schedule, time, I/O or fault for a simulation to control; deciding them would be input sampling or proof, another technique.",
      "N02": "Pure functions of the lattice shape: nothing for a simulated schedule or fault to change. Wrong maps are seen indirectly through C01, C10, C12 (translation and round-trip checks)."}
m = {"version": 1, "setup_cmd": "true",
 "hooks": {"guard": "none", "enable": "No hooks in /repo: sim/build.py compiles /repo/src with compiler-inserted access hooks and redirects its libc, libgomp and FFTW symbols with objcopy, all outside /repo.", "source_commits": []},
 "checks": [], "not_applicable": [],
 "notes": "One engine for all properties: /verif/sim is a deterministic simulator that runs the whole program in one process. check.py PROP --replay FILE replays a recorded violation. known_findings.txt lists repaired defects."}
for i in ids:
    if i in CHECKS:
        m["checks"].append({"property": i, "quick_cmd": "python3 /verif/check.py %s --tier quick" % i, "thorough_cmd": "python3 /verif/check.py %s --tier thorough" % i,
          "evidence_file": "/verif/evidence/%s.json" % i, "technique": "deterministic simulation with fault injection: " + CHECKS[i].get("technique", "seeded search over thread interleavings, faults and inputs of the real program"),
          "level": "exploration", "level_note": CHECKS[i].get("note", "seeded search, no exhaustiveness claim")})
    else: m["not_applicable"].append({"property": i, "reason": NA.get(i, "check under construction, not claimed yet")})
json.dump(m, open(H + "/MANIFEST.json", "w"), indent=1)
