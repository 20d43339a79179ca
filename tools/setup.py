#!/usr/bin/env python3
"""Nothing is prepared in advance: every check builds what it needs from the
repository's working tree. This only makes sure that the compiler is there."""
import subprocess, sys
r = subprocess.run(["clang++-18", "--version"], stdout=subprocess.PIPE, text=True)
print(r.stdout.splitlines()[0] if r.returncode == 0 else "no clang++-18")
sys.exit(r.returncode)
