#!/usr/bin/env python3
"""setup_cmd: check that the toolchain the checks need is there (each check builds what it needs itself)."""
import os, shutil, subprocess, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "lib"))
import vlib
for t in ("java", "g++", "cmake", "ninja"):
    if not shutil.which(t):
        sys.exit("missing tool: " + t)
for p in vlib.TLA_CP.split(":"):
    if not os.path.exists(p):
        sys.exit("missing " + p)
print("ok")
