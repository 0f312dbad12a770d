#!/bin/bash
# tryseed.sh ID [notest]: does the planted change build, pass the tests, break its demonstration, and is it caught?
# works on /repo itself and undoes the change afterwards
VV=${VV:-/verif}; VR=${VR:-/repo}; VS=${VS:-/opt/vp}; D=$VV/seeded/$1; P=$(python3 -c "import json;print(json.load(open('$D/meta.json'))['property'])")
cd $VR; git diff --quiet || { echo dirty; exit 9; }
git apply --check $D/patch.diff || exit 9
bash $D/demo.sh > /tmp/ts.log 2>&1 && echo "demo unpatched: ok" || { echo "DEMO FAILS UNPATCHED"; tail -5 /tmp/ts.log; }
git apply $D/patch.diff
bash $VS/build.sh > /tmp/ts.log 2>&1 || { echo "BUILD FAILS"; grep -m5 -A8 '^error' /tmp/ts.log; }
if [ "$2" != notest ]; then bash $VS/test.sh /tmp/ts.json > /tmp/ts.log 2>&1; python3 - <<'P'
import json
b=json.load(open('/opt/vp/BASELINE.json')); r=json.load(open('/tmp/ts.json'))
f=lambda x: x.get('stable') or x.get('passed') or x.get('tests') or x
print('tests:', {k:(len(v) if hasattr(v,'__len__') else v) for k,v in r.items()}, 'failed:', r.get('failed'))
P
fi
bash $D/demo.sh > /tmp/ts.log 2>&1; echo "demo patched: exit $?"; tail -3 /tmp/ts.log
cd $VV; VP_REPO=$VR python3 tools/run.py $P > /tmp/ts.chk 2>&1; echo "check $P exit $?"; grep -E "VIOL|failed obl|obligations:|undecided|note" /tmp/ts.chk | head -6
git -C $VR checkout -- .
