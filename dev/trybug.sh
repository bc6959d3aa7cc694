#!/bin/bash
# trybug.sh <id> [check ids...]: apply seeded/<id>/patch.diff in a scratch copy, build, run the stable tests, the demo
# (with and without the patch) and the given checks against it.
ID=$1; shift
B=/verif/seeded/$ID; [ -d $B ] || B=/verif/wip/$ID
SR=${SR:-/tmp/sr}
[ -d $SR ] || cp -a /repo $SR
git -C $SR checkout -q -- . && git -C $SR clean -fdq
[ "$(git -C $SR rev-parse HEAD)" = "$(git -C /repo rev-parse HEAD)" ] || { git -C $SR fetch -q /repo HEAD && git -C $SR reset -q --hard FETCH_HEAD; }
sed "s#/repo#$SR#g" /opt/vp/build.sh > $SR.build.sh
sed "s#/repo#$SR#g; s#/opt/vp/build.sh#$SR.build.sh#; s#/opt/vp/reports#$SR.reports#g" /opt/vp/test.sh > $SR.test.sh
git -C $SR apply $B/patch.diff || { echo "$ID: PATCH FAILS"; exit 1; }
bash $SR.build.sh > $SR.blog 2>&1 || { echo "$ID: BUILD FAILS"; tail -5 $SR.blog; git -C $SR checkout -q -- .; exit 1; }
if [ -z "$NOTEST" ]; then
bash $SR.test.sh $SR.out.json > $SR.log 2>&1
python3 - $SR.out.json $ID <<'P'
import json,sys
b=json.load(open('/opt/vp/BASELINE.json')); o=json.load(open(sys.argv[1]))
def names(x):
    if isinstance(x,dict):
        for k in ('passed','stable','pass'):
            if k in x: return set(x[k])
    return set(x)
miss=sorted(names(b)-names(o))
print(sys.argv[2]+': stable tests', 'OK' if not miss else f'BROKEN {len(miss)}: {miss[:4]}')
P
fi
(cd $SR && timeout 300 bash $B/demo.sh > $SR.demo 2>&1); echo "$ID: demo with patch rc=$? $(tail -1 $SR.demo | cut -c1-150)"
for c in "$@"; do
  (cd /verif && VERIF_REPO=$SR timeout 900 ./run $c quick > $SR.check 2>&1); echo "$ID: check $c rc=$? $(grep -c ^VIOLATION $SR.check) violations; $(tail -1 $SR.check)"; grep -m1 "^  " $SR.check | cut -c1-220
done
git -C $SR checkout -q -- . && git -C $SR clean -fdq
if [ -n "$CLEANDEMO" ]; then bash $SR.build.sh > $SR.blog 2>&1; (cd $SR && bash $B/demo.sh > $SR.demo 2>&1); echo "$ID: demo without patch rc=$? $(tail -1 $SR.demo | cut -c1-150)"; fi
