#!/usr/bin/env python3
"""plant.py DEFS.py: writes seeded/<id>/ from bug definitions (edits of /repo's files, demonstration, description)."""
import json, os, subprocess, sys, tempfile, shutil
HEAD = '''#!/bin/bash
# exit 0: the property holds here; nonzero: broken.  Run in /repo after the build.
set -u
BIN=$PWD/_build/tree/src/detox
[ -x "$BIN" ] || { echo "not built"; exit 3; }
HERE=$(cd "$(dirname "$0")" && pwd)
W=$(mktemp -d /tmp/demo.XXXXXX)
trap 'rm -rf "$W"' EXIT
export LC_ALL=C HOME="$W/home" XDG_CONFIG_HOME="$W/xdg"
unset DETOX_SEQUENCE
mkdir -p "$W/home" "$W/xdg/detox" "$W/t"
fail() { echo "BROKEN: $*"; exit 1; }
'''
def main():
    ns = {}
    exec(open(sys.argv[1]).read(), ns)
    for b in ns["BUGS"]:
        d = os.path.join("/verif/seeded", b["id"])
        os.makedirs(d, exist_ok=True)
        wt = tempfile.mkdtemp(prefix="plantwt.", dir="/tmp")
        subprocess.run("git -C /repo archive HEAD src | tar x -C %s && cd %s && git init -q && git add -A && git -c user.name=x -c user.email=x commit -qm x" % (wt, wt), shell=True, check=True)
        for f, old, new in b["edits"]:
            p = os.path.join(wt, f)
            s = open(p).read()
            assert s.count(old) == b.get("n", 1), (b["id"], f, s.count(old), old)
            open(p, "w").write(s.replace(old, new))
        diff = subprocess.run(["git", "-C", wt, "diff"], capture_output=True, text=True).stdout
        open(os.path.join(d, "patch.diff"), "w").write(diff)
        open(os.path.join(d, "demo.sh"), "w").write(HEAD + b["demo"].lstrip("\n"))
        os.chmod(os.path.join(d, "demo.sh"), 0o755)
        for n, t in b.get("files", {}).items():
            open(os.path.join(d, n), "w").write(t)
        json.dump({"property": b["prop"], "needs": b["needs"], "what_it_breaks": b["breaks"]}, open(os.path.join(d, "meta.json"), "w"), indent=1)
        shutil.rmtree(wt)
        print(b["id"], len(diff.splitlines()))
main()
