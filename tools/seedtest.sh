#!/bin/bash
# seedtest.sh ID [nocheck]: demo on the clean tree, then apply, build, stable tests, demo, this property's check; undo
id=$1; d=/verif/seeded/$id
git -C /repo diff --quiet || { echo "repo dirty"; exit 2; }
prop=$(python3 -c "import json;print(json.load(open('$d/meta.json'))['property'])")
if [ -z "$SKIPCLEAN" ]; then ( cd /repo && bash $d/demo.sh >/tmp/demo0.log 2>&1 ); echo "demo clean: $?"; fi
git -C /repo apply $d/patch.diff || exit 2
trap 'git -C /repo checkout -- .' EXIT
bash /opt/vp/build.sh >/tmp/sb.log 2>&1; echo "build: $?"
bash /opt/vp/test.sh /tmp/so.json >/tmp/st.log 2>&1
python3 -c "
import json
o=json.load(open('/tmp/so.json')); b=set(json.load(open('/opt/vp/BASELINE.json'))['stable'])
p=set(o['passed']); print('stable tests failing:', sorted(b-p)[:5])"
( cd /repo && bash $d/demo.sh >/tmp/demo1.log 2>&1 ); echo "demo patched: $? $(grep -m1 -i 'panicked\|error' /tmp/demo1.log)"
cd /verif && ./check $prop 2>&1 | cut -c1-400 | tail -${2:-6}
