#!/bin/bash
# seedcheck.sh ID [notest]: confirms a planted change in a scratch copy of /repo.
id=$1; S=/verif/seeded/$id; W=$(mktemp -d /tmp/seed.XXXXXX); cp -a /repo $W/repo; cd $W/repo || exit 2
D=$W/demo; mkdir $D; cp $S/* $D/; rm -f $D/*.diff $D/meta.json
run() { (cd $W/repo && timeout 300 bash $D/demo.sh >$W/out 2>&1); }
# demos run in /repo: the scratch copy stands in through REPO-relative paths ($PWD)
run; a=$?
[ $a = 0 ] || { tail -20 $W/out; }
git apply $S/patch.diff || { echo "$id: patch does not apply"; exit 2; }
run; b=$?
t=skipped
if [ "$2" != notest ]; then
  bash -c "cd $W/repo && sed 's#/repo#$W/repo#g' /opt/vp/test.sh > $W/test.sh; bash $W/test.sh $W/res.json" >$W/tlog 2>&1
  t=$(python3 - <<P
import json
b=json.load(open('/opt/vp/BASELINE.json')); 
try: r=json.load(open('$W/res.json'))
except Exception as e: print('no result',e); raise SystemExit
f=r.get('failed',r); print('failed', f if f else 'none')
P
)
fi
echo "$id: demo clean=$a patched=$b tests: $t"
[ $b != 0 ] && grep -m3 -E 'FAIL|panic|---|_test.go' $W/out
rm -rf "$W"
