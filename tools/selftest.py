#!/usr/bin/env python3
"""Builds the simulator and checks that one seed is one execution: same hashes with 1, 3 and 8 workers."""
import os, subprocess, sys
sys.dont_write_bytecode = True
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, HERE)
import build
exe = build.build(os.path.join(HERE, "work", "setup"))
if not exe:
    sys.exit("the simulator does not build")
n = int(sys.argv[1]) if len(sys.argv) > 1 else 300
bad = 0
for prop in ["C%02d" % i for i in range(1, 19)]:
    out = []
    for jobs in ("1", "3", "8"):
        r = subprocess.run([exe, "--prop", prop, "--runs", str(n), "--jobs", jobs, "--data", os.path.join(HERE, "sim/data"), "--all", "--hashes"], capture_output=True, text=True)
        out.append([l for l in r.stdout.splitlines() if len(l.split()) == 2 and len(l.split()[1]) == 16])
    same = out[0] == out[1] == out[2] and len(out[0]) == n
    print(prop, "repeatable" if same else "NOT REPEATABLE", len(out[0]), "seeds")
    bad += not same
sys.exit(1 if bad else 0)
