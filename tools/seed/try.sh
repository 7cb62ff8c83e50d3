#!/bin/bash
# try.sh ID [notests] : verify seed in /verif/seeded/ID
. /opt/vp/env.sh
ID=$1; S=/verif/seeded/$ID; P=$(python3 -c "import json;print(json.load(open('$S/meta.json'))['property'])")
cd /repo; git diff --quiet || { echo dirty; exit 9; }
cp /verif/tools/seed/demo.sh /verif/tools/seed/support.rs $S/; [ -f $S/demo_extra ] && true
if [ "$2" != onlycheck ]; then
bash /opt/vp/build.sh >/tmp/b.log 2>&1 || { echo base build failed; exit 9; }
bash $S/demo.sh >/tmp/demo0.log 2>&1; echo "demo clean rc=$? $(tail -1 /tmp/demo0.log | cut -c1-200)"
fi
git apply $S/patch.diff || { echo apply failed; exit 9; }
trap 'git -C /repo checkout -- .' EXIT
if [ "$2" != onlycheck ]; then
bash /opt/vp/build.sh >/tmp/b.log 2>&1 || { echo BUILD FAILED; grep -A6 '^error' /tmp/b.log | head -30; exit 9; }
bash $S/demo.sh >/tmp/demo1.log 2>&1; echo "demo patched rc=$? $(tail -3 /tmp/demo1.log | cut -c1-300)"
bash /opt/vp/test.sh /tmp/out.json >/dev/null 2>&1; python3 /verif/tools/cmp_baseline.py /tmp/out.json | cut -c1-300
fi
cd /verif; for s in ${SEEDS:-1}; do VERIF_SEED=$s VERIF_TIER=quick timeout 900 ./check.sh run ${CHK:-$P} quick >/tmp/chk.log 2>&1; echo "check $P seed $s rc=$? $(grep -c ^VIOLATION /tmp/chk.log) $(grep -m2 ^VIOLATION /tmp/chk.log | cut -c1-250)"; done
