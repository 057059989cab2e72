#!/usr/bin/env python3
"""nothing to build in advance: every check compiles what it needs from /repo.  Verifies that the tools are there."""
import shutil, subprocess, sys, os
ok = True
for t in ("clang++", "g++"):
    if not shutil.which(t): print("missing", t); ok = False
py = "/opt/veriftools/pyvenv/bin/python3"
if subprocess.call([py, "-c", "import z3, ctypes"]): ok = False
sys.exit(0 if ok else 1)
