#!/usr/bin/env python3
"""Checks that the tools are there and that every specification module parses."""
import glob, os, subprocess, sys
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import vlib
bad = 0
for f in sorted(glob.glob(vlib.SPEC + "/*.tla")):
    p = subprocess.run(["java", "-cp", vlib.JARS, "tla2sany.SANY", os.path.basename(f)], cwd=vlib.SPEC, capture_output=True, text=True)
    if p.returncode or "error" in p.stdout.lower().replace("semantic errors:\n\n*** errors: 0", ""):
        if p.returncode:
            print(p.stdout[-1500:])
            bad = 1
print("specifications parsed" if not bad else "a specification does not parse")
sys.exit(bad)
