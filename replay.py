#!/usr/bin/env python3
"""replay.py <file> - runs a reported scenario again and prints what happens."""
import json
import os
import shutil
import sys
import tempfile

sys.dont_write_bytecode = True
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "harness"))
import engine   # noqa: E402
import lib      # noqa: E402

r = json.load(open(sys.argv[1]))
lib.shim()
work = tempfile.mkdtemp(prefix="vp-replay-")
try:
    trace, viols = engine.rerun(r["driver"], r["module"], r["plan"], r["seed"], work, r["tz"], r["job"])
finally:
    shutil.rmtree(work, ignore_errors=True)
for i, e in enumerate(trace["ev"], 1):
    print(i, json.dumps(e))
    for l, p, c in viols:
        if l == i:
            print("   *** %s: %s" % (p, c))
sys.exit(1 if any(p == r["property"] for _, p, _ in viols) else 0)
