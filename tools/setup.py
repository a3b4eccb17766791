#!/usr/bin/env python3
"""setup_cmd: checks that the tools are there and that the specification typechecks. Checks build what they run themselves."""
import glob, os, subprocess, sys
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
bad = 0
for f in sorted(glob.glob(os.path.join(ROOT, "spec", "*.qnt"))):
    p = subprocess.run(["quint", "typecheck", os.path.basename(f)], cwd=os.path.join(ROOT, "spec"), stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    if p.returncode:
        print(f, p.stdout[-1500:])
        bad = 1
sys.exit(bad)
