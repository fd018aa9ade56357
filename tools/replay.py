#!/usr/bin/env python3
"""replay.py <replay.json> -- re-executes one reported counterexample against /repo's current tree."""
import json, os, sys, subprocess
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import run_check, specs, vbuild
r = json.load(open(sys.argv[1]))
h = [h for h in specs.SPECS[r["property"]]["harnesses"] if h["name"] == r["harness"]][0]
exe = vbuild.build(h["name"], h["src"], h.get("repo", []), **h.get("build", {}))
c = run_check.Check(r["property"], r.get("tier", "quick")); c.scratch = os.path.join(run_check.OUT, "replay-scratch"); os.makedirs(c.scratch, exist_ok=True)
rc, out = c.replay(exe, h, run_check.unesc(r["case"]), 300)
print(out); sys.exit(0 if rc == 0 else 1)
