#!/bin/bash
# Development tool for planted bugs (no check uses it).
#  seed.sh verify ID [SLOT]     scratch copy: builds, stable tests pass, demo passes without and fails with the patch
#  seed.sh check ID [PROPS..]   applies the patch to /repo, runs the checks (default: its own property's), undoes it
ID=$2; D=/verif/seeded/$ID
case $1 in
verify)
  S=/tmp/seed${3:-0}; R=$S/repo
  if [ ! -d $R ]; then mkdir -p $S; cp -a /repo $S/; mkdir $S/vp; cp /opt/vp/* $S/vp/ 2>/dev/null; sed -i "s#/repo#$R#g" $S/vp/*.sh; sed -i "s#/opt/vp/env#$S/vp/env#; s#/opt/vp/results#$S/vp/results#" $S/vp/build.sh $S/vp/test.sh; fi
  git -C $R checkout -q -- . ; git -C $R pull -q /repo HEAD 2>/dev/null || git -C $R fetch -q /repo HEAD && git -C $R reset -q --hard FETCH_HEAD
  T=$S/demo; mkdir -p $T; find $T -mindepth 1 -delete; cp $D/* $T/; rm -f $T/patch.diff $T/meta.json
  (cd $R && timeout 300 bash $T/demo.sh >$S/demo0.log 2>&1); a=$?
  git -C $R apply $D/patch.diff || { echo "$ID: patch does not apply"; exit 1; }
  bash $S/vp/build.sh >$S/build.log 2>&1; b=$?
  bash $S/vp/test.sh $S/t.json >$S/test.log 2>&1
  n=$(python3 - <<P
import json
b=json.load(open('/opt/vp/BASELINE.json')); t=json.load(open('$S/t.json'))
st=b.get('stable') or b.get('passed') or b.get('tests')
tp=set(t.get('passed') or [])
bad=[x for x in st if x not in tp]
print(len(bad), bad[:5])
P
)
  (cd $R && timeout 300 bash $T/demo.sh >$S/demo1.log 2>&1); c=$?
  git -C $R checkout -q -- .
  echo "$ID: demo-unpatched=$a build=$b stable-failing=$n demo-patched=$c"
  [ $a = 0 ] && [ $b = 0 ] && [ "${n%% *}" = 0 ] && [ $c != 0 ] && echo "$ID: VALID";;
check)
  shift 2; P=${*:-$(python3 -c "import json;print(json.load(open('$D/meta.json'))['property'])")}
  [ -z "$(git -C /repo status --short)" ] || { echo "/repo is dirty"; exit 1; }
  git -C /repo apply $D/patch.diff || exit 1
  for p in $P; do
    s=$(date +%s); o=$(cd /verif; VERIF_SEED=${VERIF_SEED:-1} VERIF_TIER=quick timeout 900 bash check.sh $p 2>&1); r=$?
    echo "$ID $p exit=$r $(($(date +%s)-s))s $(echo "$o" | grep -E "VIOLATION|BUILD" | head -3 | cut -c1-250)"
  done
  git -C /repo checkout -q -- .;;
esac
