#!/bin/bash
# tools/seed.sh ID...  -- confirms planted bugs: builds, passes the stable tests, demo fails with it and passes without it.
# tools/seed.sh --save ID   -- saves /repo's current diff as the patch of ID, then undoes it and confirms.
if [ "$1" = "--save" ]; then
  mkdir -p /verif/seeded/$2; git -C /repo diff > /verif/seeded/$2/patch.diff; git -C /repo checkout -q -- .; shift
fi
R=${SEED_REPO:-/repo}     # or a clone of it
T=${SEED_TOOLS:-/tmp/seedtools}; mkdir -p $T
for f in build.sh test.sh; do sed "s#/repo\b#$R#g; s#/opt/vp/build.sh#$T/build.sh#" /opt/vp/$f > $T/$f; done
for id in "$@"; do
  d=/verif/seeded/$id
  rm -rf /tmp/seeddemo; mkdir /tmp/seeddemo; cp $d/* /tmp/seeddemo/; rm -f /tmp/seeddemo/patch.diff /tmp/seeddemo/meta.json
  cd $R; [ -z "$(git status --short)" ] || { echo "$R dirty"; exit 2; }
  git apply $d/patch.diff || { echo "$id: does not apply"; continue; }
  bash $T/test.sh $T/out.json > $T/test.log 2>&1; 
  t=$(T=$T python3 - <<'P'
import json, os
b=json.load(open('/opt/vp/BASELINE.json')); o=json.load(open(os.environ['T']+'/out.json'))
st=set(b.get('stable') or b.get('passed') or [])
print(len(st-set(o['passed'])))
P
)
  timeout 300 bash /tmp/seeddemo/demo.sh > /tmp/seed_demo_bad.log 2>&1; bad=$?
  git checkout -q -- . ; bash $T/build.sh > /dev/null 2>&1
  timeout 300 bash /tmp/seeddemo/demo.sh > /tmp/seed_demo_good.log 2>&1; good=$?
  echo "$id: tests lost=$t demo with=$bad without=$good $( [ "$t" = 0 -a $bad != 0 -a $good = 0 ] && echo COUNTS || echo NO)"
done
