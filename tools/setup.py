#!/usr/bin/env python3
"""Checks that the tools are here and warms the build cache (every check also builds from an empty one)."""
import os, shutil, sys, time
from concurrent.futures import ThreadPoolExecutor
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import vbuild, specs
for t in ("g++", "gcc", "python3"):
    if not shutil.which(t): sys.exit("missing tool: " + t)
t0 = time.time()
def build(job):
    pid, h = job
    if time.time() - t0 > 1200: return
    try: vbuild.build(h["name"], h["src"], h.get("repo", []), **h.get("build", {}))
    except vbuild.BuildError as e: print("%s: %s" % (pid, str(e)[-800:]))
with ThreadPoolExecutor(3) as ex:
    list(ex.map(build, [(pid, h) for pid, s in specs.SPECS.items() for h in s["harnesses"]]))
print("setup: %.0f s" % (time.time() - t0))
