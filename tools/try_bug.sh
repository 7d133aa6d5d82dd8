#!/bin/bash
# try_bug.sh ID [check properties...]: confirms a planted bug in a scratch copy mounted over /repo (in a mount namespace of its own) and runs checks on it.
ID=$1; shift
B=/verif/seeded/$ID
PROPS=${*:-$(python3 -c "import json;print(json.load(open('$B/meta.json'))['property'])")}
C=/tmp/wt.$ID
rm -rf "$C"; cp -a /repo "$C"
export ID B PROPS C
unshare -Urm bash -c '
mount --bind "$C" /repo
mkdir -p /repo/_tmp; mount --bind /repo/_tmp /tmp
cd /repo
git clean -fdq -e _build -e _tmp; git checkout -q -- .
bash /opt/vp/build.sh >/tmp/build0.log 2>&1 || echo "$ID: base build fails"
mkdir -p /tmp/demo.d; cp $B/* /tmp/demo.d/; rm -f /tmp/demo.d/patch.diff /tmp/demo.d/meta.json
timeout 300 bash /tmp/demo.d/demo.sh >/tmp/demo0.log 2>&1; D0=$?
git apply $B/patch.diff || echo "$ID: patch does not apply"
sleep 0.1; git diff --name-only | xargs touch
bash /opt/vp/test.sh /tmp/out.json >/tmp/test.log 2>&1
T=$(python3 -c "
import json
b=json.load(open(\"/opt/vp/BASELINE.json\")); o=json.load(open(\"/tmp/out.json\"))
def names(x):
    for k in (\"passed\",\"stable\",\"tests\",\"stable_pass\"):
        if k in x: return set(x[k])
    return set()
print(len(names(b)-names(o)), sorted(names(b)-names(o))[:3])")
timeout 300 bash /tmp/demo.d/demo.sh >/tmp/demo1.log 2>&1; D1=$?
echo "$ID: demo unchanged $D0, patched $D1 ($(tail -1 /tmp/demo1.log | cut -c1-100)); failing stable tests: $T"
mkdir -p /tmp/work
mount --bind /tmp/work /verif/work; 
for p in $PROPS; do
  t0=$(date +%s); VERIF_SEED=1 VERIF_TIER=quick timeout 900 python3 /verif/check.py $p quick >/tmp/check.$p.log 2>&1; rc=$?
  echo "$ID: check $p exit $rc in $(( $(date +%s)-t0 )) s: $(grep -v "^seed" /tmp/check.$p.log | grep -a -v ^VIOL | head -1 | cut -c1-200)"
done
'
rm -rf "$C"
