#!/bin/bash
# seedtest.sh ID...: applies each planted bug to /repo, builds, runs tests, demo and the property's check, and undoes it
V=/verif
R=${SEED_REPO:-/repo} # another copy: set VERIF_REPO and VERIF_BUILD too, and NOTEST=1
cd $R || exit 1
[ -z "$(git status --porcelain)" ] || { echo "$R not clean"; exit 1; }
for id in "$@"; do
  d=$V/seeded/$id
  p=$(python3 -c "import json;print(json.load(open('$d/meta.json'))['property'])")
  bash $d/demo.sh >/tmp/st_demo0.log 2>&1; d0=$?
  git apply $d/patch.diff || { echo "$id: does not apply"; continue; }
  t="-"
  if [ -z "$NOTEST" ]; then
    bash /opt/vp/test.sh /tmp/st.json >/tmp/st_test.log 2>&1
    t=$(python3 -c "
import json
b=json.load(open('/opt/vp/BASELINE.json')); r=json.load(open('/tmp/st.json'))
l=b if isinstance(b,list) else b.get('tests',b.get('passed',[]))
print('tests-ok' if len(r['passed'])>=73 else 'TESTS-FAIL %d'%len(r['passed']))")
  fi
  bash $d/demo.sh >/tmp/st_demo1.log 2>&1; d1=$?
  (cd $V; timeout 900 python3 check.py $p >/tmp/st_check.log 2>&1); c=$?
  git checkout -q -- .
  v=$(grep -c "^VIOLATION property=$p" /tmp/st_check.log)
  echo "$id $p demo $d0->$d1 $t check=$c violations=$v $(grep -v VIOLATION /tmp/st_check.log | head -1 | cut -c1-150)"
done
rm -rf /verif/replays
