#!/bin/bash
# tools/bug.sh ID [nocheck]: apply a planted bug to /repo, build, run the stable
# tests, its demo, optionally the check of its property; then undo and run the
# demo on the clean tree.
id=$1; d=/verif/seeded/$id
[ -f $d/patch.diff ] || { echo "no $d/patch.diff"; exit 2; }
prop=$(python3 -c "import json;print(json.load(open('$d/meta.json'))['property'])")
cd /repo || exit 2
[ -z "$(git status --porcelain)" ] || { echo "/repo not clean"; exit 2; }
git apply $d/patch.diff || exit 2
undo() { git -C /repo checkout -q -- .; bash /opt/vp/build.sh >/dev/null 2>&1; }
trap undo EXIT
if ! bash /opt/vp/build.sh >/tmp/bug.build 2>&1; then echo "$id: DOES NOT BUILD"; tail -5 /tmp/bug.build; exit 1; fi
bash /opt/vp/test.sh /tmp/bug.json >/dev/null 2>&1
t=$(python3 - <<'P'
import json
b=json.load(open('/opt/vp/BASELINE.json')); o=json.load(open('/tmp/bug.json'))
def ids(x):
    for k in ('passed','stable','tests'):
        if isinstance(x,dict) and k in x: return set(x[k]) if not isinstance(x[k],dict) else {i for i,v in x[k].items() if v in('pass','passed',True)}
m=ids(b)-ids(o); print('ok' if not m else 'FAIL '+str(m))
P
)
cp -a $d /tmp/bug.demo.$$
timeout 300 bash /tmp/bug.demo.$$/demo.sh >/tmp/bug.out 2>&1; r=$?
echo "$id ($prop): tests $t; demo patched rc=$r: $(tail -1 /tmp/bug.out)"
if [ "$2" != nocheck ]; then
    SIM_BUILD=/tmp/bug.build.d timeout 900 python3 /verif/check.py $prop quick >/tmp/bug.check 2>&1; rc=$?
    echo "   check rc=$rc $(grep -m1 -A3 VIOLATION /tmp/bug.check | tr '\n' ' ' | cut -c1-300)"
fi
undo; trap - EXIT
timeout 300 bash /tmp/bug.demo.$$/demo.sh >/tmp/bug.out 2>&1; r=$?
echo "   demo clean rc=$r: $(tail -1 /tmp/bug.out)"
rm -rf /tmp/bug.demo.$$
