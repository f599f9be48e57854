#!/usr/bin/env python3
"""Checks that the tools the checks need are there; every check builds what it needs itself."""
import shutil, subprocess, sys
for c in (["cargo", "kani", "--version"], ["cargo", "+nightly-2025-03-06", "--version"]):
    r = subprocess.run(c, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    print(r.stdout.strip())
    if r.returncode:
        sys.exit(1)
