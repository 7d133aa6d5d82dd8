#!/usr/bin/env python3
"""check.py PROPERTY [quick|thorough]: builds the simulator from /repo's working tree and decides one property.
Exit 0 held, 1 VIOLATION line printed, 2 no decision."""
import os, subprocess, sys
sys.dont_write_bytecode = True
HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, HERE)
import build

# seeds in the quick tier; sized for about 15 s on 8 cores
QUICK = {"C16": 25000, "C23": 25000}
DEFAULT_QUICK = 40000
THOROUGH_FACTOR = 40

def main():
    prop = sys.argv[1]
    tier = sys.argv[2] if len(sys.argv) > 2 else os.environ.get("VERIF_TIER", "quick")
    seed = os.environ.get("VERIF_SEED", "1")
    jobs = str(os.cpu_count() or 4)
    work = os.path.join(HERE, "work", prop + "-" + tier)
    exe = build.build(work)
    if not exe:
        print("no decision: the program does not build", file=sys.stderr)
        return 2
    runs = QUICK.get(prop, DEFAULT_QUICK)
    cap = 240
    if tier == "thorough":
        runs *= THOROUGH_FACTOR
        cap = 780
    runs = int(os.environ.get("VERIF_RUNS", runs))
    os.makedirs(os.path.join(HERE, "evidence"), exist_ok=True)
    return subprocess.run([exe, "--prop", prop, "--tier", tier, "--seed", seed, "--runs", str(runs), "--jobs", jobs, "--cap", str(cap),
                           "--data", os.path.join(HERE, "sim", "data"), "--replay-dir", os.path.join(HERE, "work", "replay"),
                           "--known", os.path.join(HERE, "KNOWN_FINDINGS.txt"),
                           "--evidence", os.path.join(HERE, "evidence", prop + ".json")]).returncode

if __name__ == "__main__":
    rc = main()
    sys.exit(rc if rc in (0, 1) else 2)
