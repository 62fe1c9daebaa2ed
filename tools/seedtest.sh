#!/bin/bash
# seedtest.sh [-f] ID...: apply a planted bug to /repo, build, run the stable tests, its demo and its check, undo.
# -f: skip build and tests (demo and check only)
fast=0; [ "$1" = "-f" ] && { fast=1; shift; }
V=/verif; R=/repo
trap 'git -C $R checkout -q -- .' EXIT
for id in "$@"; do
  d=$V/seeded/$id; prop=$(python3 -c "import json;print(json.load(open('$d/meta.json'))['property'])")
  git -C $R checkout -q -- .
  (cd $R && bash $d/demo.sh) >/tmp/seed.demo0 2>&1; c0=$?
  git -C $R apply $d/patch.diff || { echo "$id: patch does not apply"; continue; }
  t=skipped
  if [ $fast = 0 ]; then
    bash /opt/vp/test.sh /tmp/seed.json >/tmp/seed.test 2>&1
    t=$(python3 - <<P
import json
b=json.load(open('/opt/vp/BASELINE.json')); o=json.load(open('/tmp/seed.json'))
base=b.get('stable') or b.get('passed') or b.get('tests') or b
base=set(base) if not isinstance(base,dict) else set(base.keys())
print('missing=%d of %d'%(len(base-set(o['passed'])),len(base)))
P
)
  fi
  (cd $R && bash $d/demo.sh) >/tmp/seed.demo1 2>&1; c1=$?
  VERIF_SEED=1 $V/bin/check $prop >/tmp/seed.check.$id 2>&1; k=$?
  git -C $R checkout -q -- .
  echo "$id prop=$prop tests:[$t] demo clean=$c0 patched=$c1 check=$k $(grep -c '^VIOLATION' /tmp/seed.check.$id)"
done
