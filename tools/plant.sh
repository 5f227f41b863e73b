#!/bin/bash
# tools/plant.sh <bug id> [checks]: confirm a planted bug (applies, builds, tests pass, demo
# tells the trees apart) and show which checks report it. Undoes the patch afterwards.
id=$1; dir=/verif/seeded/$id
prop=$(python3 -c "import json;print(json.load(open('$dir/meta.json'))['property'])")
checks=${2:-$prop}
cd /repo || exit 1
[ -z "$(git status --porcelain --untracked-files=no)" ] || { echo "repo not clean"; exit 1; }
clean() { git -C /repo checkout -q -- .; find /repo/sciencebeam_trainer_grobid_tools -name __pycache__ -prune -exec rm -rf {} +; }
trap clean EXIT
tmp=$(mktemp -d); cp -r $dir/. $tmp; rm -f $tmp/patch.diff $tmp/meta.json
bash $tmp/demo.sh >$tmp/clean.log 2>&1; r0=$?
git apply $dir/patch.diff || { echo "$id: patch does not apply"; exit 1; }
bash /opt/vp/build.sh >/dev/null 2>&1; rb=$?
bash $tmp/demo.sh >$tmp/bug.log 2>&1; r1=$?
bash /opt/vp/test.sh $tmp/t.json >/dev/null 2>&1
miss=$(python3 -c "
import json
b=json.load(open('/opt/vp/BASELINE.json')); t=json.load(open('$tmp/t.json'))
print(len(set(b.get('passed') or b.get('stable') or b)-set(t['passed'])))")
echo "$id property=$prop demo clean=$r0 (want 0) bug=$r1 (want !=0) build=$rb tests-missing=$miss"
[ $r0 -ne 0 ] && tail -5 $tmp/clean.log
for c in $checks; do
  VERIF_SEED=1 /opt/venv/bin/python /verif/run_check.py $c --tier quick >$tmp/out 2>&1; rc=$?
  echo "   $c rc=$rc $(grep -A1 -m1 -E 'VIOLATION|INCONCLUSIVE|^OK' $tmp/out | tr '\n' ' ' | cut -c1-180)"
done
rm -rf "${tmp:?}"
