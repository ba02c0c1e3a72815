#!/usr/bin/env python3
"""setup_cmd: compiles the clock shim and looks for the tools."""
import os
import shutil
import sys

sys.dont_write_bytecode = True
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "harness"))
import lib   # noqa: E402

lib.shim()
for t in ("java", "gcc"):
    if not shutil.which(t):
        sys.exit("missing: " + t)
for p in [lib.PY] + lib.JAR.split(":"):
    if not os.path.exists(p):
        sys.exit("missing: " + p)
print("ready")
