#!/bin/bash
# seedtest.sh ID... : for each planted bug: demo on clean tree, apply, stable tests, demo, its check; undo.
[ -n "$(git -C /repo status --porcelain)" ] && { echo "/repo not clean"; exit 2; }
for id in "$@"; do
  d=/verif/seeded/$id
  prop=$(python3 -c "import json;print(json.load(open('$d/meta.json'))['property'])")
  (cd /repo && timeout 300 bash $d/demo.sh >/tmp/seed.demo0 2>&1); d0=$?
  git -C /repo apply $d/patch.diff || { echo "$id: patch does not apply"; continue; }
  bash /opt/vp/build.sh >/dev/null 2>&1; b=$?
  bash /opt/vp/test.sh /tmp/seed.t.json >/dev/null 2>&1
  missing=$(python3 -c "import json;a=json.load(open('/tmp/seed.t.json'));b=json.load(open('/opt/vp/BASELINE.json'))['stable'];print(len(set(b)-set(a['passed'])))")
  (cd /repo && timeout 300 bash $d/demo.sh >/tmp/seed.demo1 2>&1); d1=$?
  t0=$(date +%s)
  (cd /verif && VERIF_SEED=1 VERIF_TIER=quick timeout 900 ./run.sh $prop >/tmp/seed.out 2>&1); rc=$?
  git -C /repo checkout -q -- .
  echo "$id $prop demo clean=$d0 patched=$d1 build=$b tests_missing=$missing check rc=$rc $(($(date +%s)-t0))s $(grep -c '^VIOLATION' /tmp/seed.out) $(grep -m1 -E '^  [a-z]' /tmp/seed.out | cut -c1-150)"
done
bash /opt/vp/build.sh >/dev/null 2>&1
git -C /repo status --short
