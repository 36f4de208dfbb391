#!/usr/bin/env python3
"""Setup: the tools the checks need are there and every module parses."""
import glob, os, subprocess, sys
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
from vlib import CP, SPEC
subprocess.run(["gcc", "--version"], check=True, stdout=subprocess.DEVNULL)
bad = 0
for f in sorted(glob.glob(os.path.join(SPEC, "*.tla"))):
    p = subprocess.run(["java", "-cp", CP, "tla2sany.SANY", f], capture_output=True, text=True, cwd=SPEC)
    if p.returncode != 0 or "Fatal" in p.stdout or "*** Errors" in p.stdout:
        print(f, p.stdout[-1500:])
        bad = 1
print("specification parses" if not bad else "specification does not parse")
sys.exit(bad)
