#!/bin/bash
# Development tool: seedtest.sh ID — confirms a planted bug in a scratch copy of /repo (builds, the
# stable tests pass, the demonstration is 0 without and nonzero with it), then runs its property's
# quick check with the bug applied to /repo and takes it out again.
id=$1; d=/verif/seeded/$id; sc=/tmp/sc/repo
mkdir -p /tmp/sc
if [ ! -d $sc ]; then cp -a /repo $sc; fi
git -C $sc fetch -q /repo HEAD && git -C $sc checkout -q -f FETCH_HEAD || exit 1
prop=$(python3 -c "import json;print(json.load(open('$d/meta.json'))['property'])")
sed 's#/repo#/tmp/sc/repo#g; s#/opt/vp/ws#/tmp/sc/ws#g; s#export BITCOIND#export PYTHONDONTWRITEBYTECODE=1; export BITCOIND#' /opt/vp/env.sh > /tmp/sc/env.sh
sed 's#/repo#/tmp/sc/repo#g; s#/opt/vp/env.sh#/tmp/sc/env.sh#' /opt/vp/test.sh > /tmp/sc/test.sh
if [ -z "$SKIP_DEMO" ]; then
(cd $sc && bash $d/demo.sh > /tmp/sc/demo0.log 2>&1); r0=$?
git -C $sc apply $d/patch.diff || exit 1
bash /tmp/sc/test.sh /tmp/sc/o.json > /tmp/sc/test.log 2>&1
python3 - <<P
import json
b=json.load(open('/opt/vp/BASELINE.json')); o=json.load(open('/tmp/sc/o.json'))
names=b.get('passed') or b.get('stable') or b
bad=[n for n in names if n not in set(o['passed'])]
print('tests passed',len(o['passed']),'failed',len(o['failed']),'missing-stable',len(bad),bad[:3])
P
(. /tmp/sc/env.sh; cargo build --manifest-path $MANIFEST -p bdk_sp_cli_v1 --offline >/tmp/sc/cli.log 2>&1 || { echo CLI BUILD FAILED; tail -5 /tmp/sc/cli.log; })
(cd $sc && bash $d/demo.sh > /tmp/sc/demo1.log 2>&1); r1=$?
git -C $sc checkout -q -- .
echo "demo: unchanged $r0, patched $r1"; [ $r0 != 0 ] && tail -5 /tmp/sc/demo0.log; tail -3 /tmp/sc/demo1.log
fi
git -C /repo apply $d/patch.diff || exit 1
for c in ${CHECKS:-$prop}; do timeout 900 bash /verif/run.sh $c quick > /tmp/sc/check.$c.log 2>&1; echo "check $c exit $?"; grep -h VIOLATION /tmp/sc/check.$c.log | head -2; done
git -C /repo checkout -- .
