#!/usr/bin/env python3
"""setup_cmd: builds the driver once and parses every specification."""
import os, subprocess, sys
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
from lib import *

ctx = Ctx("setup", "quick", 1)
try:
    for pr in ("release", "dev"):
        build_harness(ctx, pr)
    for f in sorted(glob.glob(os.path.join(SPEC, "*.tla"))):
        r = subprocess.run(["java", "-cp", CP, "tla2sany.SANY", os.path.basename(f)], cwd=SPEC,
                           stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
        if r.returncode != 0 or "*** Errors" in r.stdout:
            print(r.stdout)
            sys.exit(2)
    print("setup done")
finally:
    ctx.cleanup()
