#!/bin/bash
# usage: seedcheck.sh ID... : confirms seeded changes (build, stable tests, demo both ways) and runs the property's check.
# Applies the patch in /repo and undoes it straight afterwards.
# CHECKS="C01 C02 ..." overrides the checks to run (default: the property of meta.json); NOTEST=1 skips build and tests.
H=$(cd "$(dirname "$0")/.." && pwd)
for id in "$@"; do
  S=$H/seeded/$id
  P=$(python3 -c "import json;print(json.load(open('$S/meta.json'))['property'])")
  git -C /repo checkout -q -- .
  if [ -z "$NOTEST" ]; then ( cd /repo && bash "$S/demo.sh" >/tmp/seed.out 2>&1 ); d0=$?; else d0=-; fi
  git -C /repo apply "$S/patch.diff" || { echo "$id: patch does not apply"; continue; }
  trap 'git -C /repo checkout -q -- .' EXIT
  if [ -z "$NOTEST" ]; then
    t="build failed"
    bash /opt/vp/build.sh >/tmp/seed.build 2>&1 && timeout 600 bash /opt/vp/test.sh /tmp/seed.json >/tmp/seed.test 2>&1 && t=$(python3 - <<'P'
import json
b=json.load(open('/opt/vp/BASELINE.json')); r=json.load(open('/tmp/seed.json'))
def names(x):
    for k in ('passed','pass','tests','stable'):
        if k in x: return set(x[k])
    raise SystemExit(str(list(x)))
m=names(b)-names(r)
print('tests ok' if not m else 'TESTS FAIL %d %s'%(len(m),sorted(m)[:3]))
P
)
    ( cd /repo && bash "$S/demo.sh" >/tmp/seed.out 2>&1 ); d1=$?
  fi
  echo "== $id [$P] demo unchanged=$d0 patched=$d1 $t"
  for c in ${CHECKS:-$P}; do
    o=$(MC_EVID=/tmp/seed.ev MC_REPLAYS=/tmp/seed.rp MC_BUILD=/tmp/mutbuild python3 $H/run_check.py $c 2>&1); rc=$?
    echo "   $c exit=$rc $(echo "$o" | grep -m1 -A1 VIOLATION | cut -c1-200 | tr '\n' ' ')"
  done
  git -C /repo checkout -q -- .
done
[ -n "$NOTEST" ] || bash /opt/vp/build.sh >/dev/null 2>&1
