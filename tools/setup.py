#!/usr/bin/env python3
"""Nothing is prebuilt: every check compiles /repo's current tree itself.  This only
makes sure the toolchain is there."""
import os, shutil, subprocess, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
for d in ("build", "evidence", "replays"):
    os.makedirs(os.path.join(V, d), exist_ok=True)
bad = [t for t in ("mpicxx.openmpi", "mpirun.openmpi", "g++") if not shutil.which(t)]
if bad:
    sys.exit("missing: " + " ".join(bad))
print(subprocess.run(["g++", "--version"], capture_output=True, text=True).stdout.splitlines()[0])
