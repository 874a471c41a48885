#!/bin/bash
# plant.sh ID [--no-test]: in a scratch copy of /repo mounted over it (in a namespace of its own), confirms that
# the planted bug seeded/ID builds, passes the stable tests and fails its demonstration, which passes without it;
# then runs the check of its property against it.
id=$1
S=/tmp/scr
if [ "$2" != inside ]; then
  mkdir -p $S
  [ -d $S/repo ] || cp -a /repo $S/repo
  [ -d $S/vbuild ] || cp -a /verif/build $S/vbuild
  git -C $S/repo fetch -q /repo HEAD && git -C $S/repo reset -q --hard FETCH_HEAD
  exec unshare -Urm bash "$0" "$id" inside "$2"
fi
mount --bind $S/repo /repo
B=/verif/seeded/$id
prop=$(python3 -c "import json;print(json.load(open('$B/meta.json'))['property'])")
rm -rf $S/demo; cp -a $B $S/demo
bash /opt/vp/build.sh > $S/log 2>&1 || { tail -5 $S/log; echo "$id: unchanged tree does not build"; exit 1; }
cd /repo
timeout 300 bash $S/demo/demo.sh > $S/demo.log 2>&1; r=$?
[ $r = 0 ] || { tail -5 $S/demo.log; echo "$id: demo fails ($r) on the unchanged tree"; exit 1; }
git apply $B/patch.diff || { echo "$id: does not apply"; exit 1; }
if bash /opt/vp/build.sh > $S/log 2>&1; then
  timeout 300 bash $S/demo/demo.sh > $S/demo.log 2>&1; r=$?
  echo "$id: demo with the bug: exit $r: $(tail -1 $S/demo.log)"
  if [ "$3" != --no-test ]; then
    bash /opt/vp/test.sh $S/t.json > $S/log 2>&1
    python3 - <<P
import json
b=json.load(open('/opt/vp/BASELINE.json'));t=json.load(open('$S/t.json'))
bad=set(b['stable'])-set(t['passed'])
print("$id: tests:", "pass" if not bad else bad)
P
  fi
  cd /verif
  VERIF_BUILD=$S/vbuild VERIF_SEED=1 VERIF_TIER=quick timeout 900 python3 run.py $prop quick > $S/check.log 2>&1
  echo "$id: check $prop exit $?: $(grep -m1 -A2 scenario $S/check.log | tr '\n' '|' | cut -c1-300)"
else
  tail -15 $S/log; echo "$id: does not build"
fi
cd /repo && git checkout -q -- .
