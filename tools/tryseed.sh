#!/bin/bash
# tryseed.sh ID...: validates planted bugs in /repo itself (build, tests, demo, the property's check) and undoes them.
# It leaves /repo as it was. Not used by any check.
B=/repo
for id in "$@"; do
  d=/verif/seeded/$id
  prop=$(python3 -c "import json;print(json.load(open('$d/meta.json'))['property'])")
  git -C $B diff --quiet || { echo "/repo is not clean"; exit 2; }
  rm -rf /tmp/seeddemo; mkdir /tmp/seeddemo; cp -r $d/. /tmp/seeddemo; rm -f /tmp/seeddemo/*.diff /tmp/seeddemo/meta.json
  (cd $B; timeout 300 bash /tmp/seeddemo/demo.sh >/tmp/seed.clean 2>&1); c=$?
  git -C $B apply $d/patch.diff || { echo "$id: patch does not apply"; continue; }
  if bash /opt/vp/test.sh /tmp/seed.json >/tmp/seed.test 2>&1; then :; fi
  t=$(python3 - <<P
import json
r=json.load(open('/tmp/seed.json')); b=json.load(open('/opt/vp/BASELINE.json'))
base=b.get('passed') or b.get('stable') or b
if isinstance(base,dict): base=list(base)
print('tests-ok' if r['passed'] and set(base)<=set(r['passed']) else 'TESTS-BREAK '+str(sorted(set(base)-set(r['passed']))[:4]))
P
)
  (cd $B; timeout 300 bash /tmp/seeddemo/demo.sh >/tmp/seed.patched 2>&1); p=$?
  o=$(cd /verif; timeout 900 python3 run.py $prop --tier quick --seed ${SEED:-1} 2>&1); k=$?
  git -C $B checkout -- .
  echo "$id $prop demo clean=$c patched=$p $t check=$k $(echo "$o" | grep '^in ' | cut -c1-110) [$(echo "$o" | grep -o ', [0-9.]* s (build')]"
  [ $c = 0 ] || tail -3 /tmp/seed.clean
  [ $p != 0 ] || tail -3 /tmp/seed.patched
done
bash /opt/vp/build.sh >/dev/null 2>&1
