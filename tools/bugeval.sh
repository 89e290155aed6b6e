#!/bin/bash
# Evaluates one seeded change in scratch copies under /tmp/be (never in /repo).
# usage: bugeval.sh <seeded-id> [check-id ...]   (default: the property in meta.json)
# prints: applies, builds, stable tests, demo without/with, checks
ID=$1; shift
V=/verif; D=$V/seeded/$ID; B=/tmp/be
mkdir -p $B
[ -d $B/repo ] || cp -a /repo $B/repo
cd $B/repo && git fetch -q /repo HEAD 2>/dev/null; git checkout -q -f FETCH_HEAD 2>/dev/null || { rm -rf /tmp/be/repo; cp -a /repo $B/repo; cd $B/repo; }
git checkout -q -- . ; git clean -qfd
sed 's#/repo#/tmp/be/repo#g; s#/opt/vp/log#/tmp/be/log#g' /opt/vp/env.sh > $B/env.sh
sed 's#/opt/vp/env.sh#/tmp/be/env.sh#g; s#/opt/vp/log#/tmp/be/log#g' /opt/vp/test.sh > $B/test.sh
sed 's#/opt/vp/env.sh#/tmp/be/env.sh#g' /opt/vp/build.sh > $B/build.sh
PROPS="$@"; [ -n "$PROPS" ] || PROPS=$(python3 -c "import json;print(json.load(open('$D/meta.json'))['property'])")
res="$ID:"
if [ -z "$SKIP_DEMO" ]; then
  bash $B/build.sh >/dev/null 2>&1
  rm -rf $B/demo; mkdir $B/demo; cp $D/* $B/demo/; rm -f $B/demo/*.diff $B/demo/meta.json
  (cd $B/repo; timeout 300 bash $B/demo/demo.sh > $B/demo.out0 2>&1); res="$res demo-clean=$?"
fi
git apply $D/patch.diff || { echo "$ID: patch does not apply"; exit 1; }
if [ -z "$SKIP_DEMO" ]; then
  bash $B/build.sh >$B/build.log 2>&1 || { echo "$ID: does not build"; git checkout -q -- .; exit 1; }
  bash $B/test.sh $B/out.json >/dev/null 2>&1
  res="$res $(python3 - <<P
import json
o=json.load(open('$B/out.json')); b=json.load(open('/opt/vp/BASELINE.json'))
st=set(b.get('stable') or b.get('passed')); 
miss=sorted(st-set(o['passed']))
print('tests=%s' % ('ok' if not miss else 'FAIL:'+','.join(miss[:4])))
P
)"
  (cd $B/repo; timeout 300 bash $B/demo/demo.sh > $B/demo.out1 2>&1); res="$res demo-bug=$?"
fi
rsync -a --delete --exclude target $V/sim/ $B/sim/ 2>/dev/null || { mkdir -p $B/sim; (cd $V/sim; tar c --exclude=target .) | tar x -C $B/sim; }
sed -i 's#path = "/repo"#path = "/tmp/be/repo"#' $B/sim/Cargo.toml
mkdir -p $B/v; cp $V/build.sh $V/check.sh $V/known_findings.txt $B/v/; rm -f $B/v/sim; ln -sfn $B/sim $B/v/sim
for p in $PROPS; do
  t0=$(date +%s)
  bash $B/v/check.sh $p ${TIER:-quick} > $B/check.$p.out 2>&1; rc=$?
  res="$res $p=$rc($(( $(date +%s)-t0 ))s)"
  grep -h "^violation" $B/check.$p.out | cut -c1-160 | sed "s/^/    $ID $p: /"
done
git checkout -q -- .
echo "$res"
