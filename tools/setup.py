#!/usr/bin/env python3
"""Nothing to install: report the tools the checks use."""
import shutil, subprocess, sys
ok = True
for t in ("verus", "cargo", "python3"):
    p = shutil.which(t)
    print(t, p)
    ok &= p is not None
subprocess.run(["verus", "--version"])
sys.exit(0 if ok else 1)
