#!/bin/bash
# tools/seedtest.sh <seed id>... : confirms planted bugs in a scratch copy of /repo (bind-mounted over /repo in a private
# mount namespace): builds, passes the tests, demo 0 on the clean tree / nonzero with the patch; then runs the property's check.
set -u
if [ "${1:-}" != "--inside" ]; then
  S=/tmp/seedscratch.$$
  mkdir -p $S; cp -a /repo $S/repo; cp -a /verif $S/verif
  unshare -m bash "$0" --inside $S "$@"
  r=$?
  case "$S" in /tmp/seedscratch.[0-9]*) rm -rf "$S";; esac
  exit $r
fi
S=$2; shift 2
mount --bind $S/repo /repo || exit 9
mount --bind $S/verif /verif || exit 9
cd /repo
for id in "$@"; do
  d=/verif/seeded/$id; prop=$(python3 -c "import json;print(json.load(open('$d/meta.json'))['property'])")
  demo=$S/demo; rm -rf $S/demo; mkdir $demo; cp -a $d/. $demo/; rm -f $demo/patch.diff $demo/meta.json
  git checkout -q -- .
  timeout 300 bash $demo/demo.sh >$S/d0.log 2>&1; r0=$?
  git apply $d/patch.diff || { echo "SEED $id does-not-apply"; continue; }
  t="skipped"
  if [ -z "${NOTESTS:-}" ]; then
    if bash /opt/vp/build.sh >$S/b.log 2>&1; then
      t=$(bash /opt/vp/test.sh $S/o.json 2>&1 | tail -1)
      t="$t $(python3 - $S/o.json <<'P'
import json,sys
b=json.load(open('/opt/vp/BASELINE.json')); o=json.load(open(sys.argv[1]))
ids=set(b['stable'])
m=ids-set(o['passed']); print('missing=%d %s'%(len(m),sorted(m)[:3]))
P
)"
    else t="BUILD-FAILED $(grep -m1 error $S/b.log | cut -c1-300)"; fi
  fi
  timeout 300 bash $demo/demo.sh >$S/d1.log 2>&1; r1=$?
  c=""
  if [ -z "${NOCHECK:-}" ]; then
    (cd /verif && timeout 900 python3 check.py ${CHECK:-$prop} --tier quick > $S/c.log 2>&1); rc=$?
    c="check=$rc $(grep -a -m1 'VIOLATION\|CHECK-ERROR' $S/c.log | cut -c1-200)"
  fi
  echo "SEED $id prop=$prop demo_clean=$r0 tests=[$t] demo_bug=$r1 $c"
  [ $r0 = 0 ] || tail -5 $S/d0.log
  git checkout -q -- .
done
