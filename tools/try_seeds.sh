#!/bin/bash
# try_seeds.sh OUT [--notest] ID...: applies each seeded bug to /repo, runs its property's quick check
# (and the stable tests), and undoes it.  One line per bug in OUT.
OUT=$1; shift
T=1; [ "$1" = --notest ] && { T=0; shift; }
cd "$(dirname "$0")/.." || exit 2
V=$PWD
for i in "$@"; do
  p=$(python3 -c "import json;print(json.load(open('$V/seeded/$i/meta.json'))['property'])")
  git -C /repo diff --quiet || { echo "$i: /repo is not clean" >>"$OUT"; exit 2; }
  git -C /repo apply "$V/seeded/$i/patch.diff" || { echo "$i: does not apply" >>"$OUT"; continue; }
  t=-
  if [ $T = 1 ]; then
    bash /opt/vp/build.sh >/tmp/seed.build 2>&1 || t=nobuild
    [ $t = - ] && bash /opt/vp/test.sh /tmp/seed.json >/tmp/seed.test 2>&1
    t=$(python3 -c "
import json
b=set(json.load(open('/opt/vp/BASELINE.json')).get('stable_pass', []) or [])
d=json.load(open('/tmp/seed.json'))
print(len(d['passed']), 'failed', len(d['failed']))" 2>/dev/null || echo "$t")
    rm -f /tmp/seed.json
  fi
  s=$(date +%s)
  o=$(VERIF_SEED=1 VERIF_TIER=quick timeout 900 python3 check.py $p 2>&1); rc=$?
  e=$(( $(date +%s) - s ))
  git -C /repo checkout -q -- .
  echo "$i $p rc=$rc ${e}s tests: $t | $(echo "$o" | grep -m1 -E '^ *C[0-9][0-9]:' | cut -c1-200)" >>"$OUT"
done
