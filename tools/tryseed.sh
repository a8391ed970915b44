#!/bin/bash
# Tries planted bugs in a scratch copy of the repository: tryseed.sh ID... (or "base" to prepare).
# Reports: does it build, do the stable tests pass, does its demo fail, does its property's check alarm.
V="$(cd "$(dirname "$0")/.." && pwd)"
W=/tmp/wt
mkdir -p $W
if [ ! -d $W/repo ] || [ "$1" = base ]; then
  mkdir -p $W/repo
  rsync -a --delete --exclude _build --exclude .git /repo/ $W/repo/
  [ "$1" = base ] && shift
fi
sed "s#^REPO=/repo#REPO=$W/repo#" /opt/vp/env.sh > $W/env.sh
sed "s#/opt/vp/env.sh#$W/env.sh#" /opt/vp/test.sh > $W/test.sh
for id in "$@"; do
  rsync -rlpc --exclude _build --exclude .git /repo/ $W/repo/
  (cd $W/repo && patch -s -p1 < "$V/seeded/$id/patch.diff") || { echo "$id: patch does not apply"; continue; }
  bash $W/test.sh $W/out.json > $W/$id.log 2>&1 || true
  res=$(tail -1 $W/$id.log)
  fail=$(python3 - <<P
import json
o=json.load(open('$W/out.json')); b=json.load(open('/opt/vp/BASELINE.json'))
s=b.get('stable') or b.get('passed') or b
print(' '.join(sorted(set(s)-set(o['passed'])))[:300] or 'none')
P
)
  (cd $W/repo && timeout 300 bash "$V/seeded/$id/demo.sh" > $W/$id.demo 2>&1); demo=$?
  prop=$(python3 -c "import json;print(json.load(open('$V/seeded/$id/meta.json'))['property'])")
  VERIF_REPO=$W/repo VERIF_TIER=quick python3 "$V/run.py" $prop > $W/$id.check 2>&1; rc=$?
  echo "$id: tests lost: $fail; demo exit $demo; check $prop exit $rc: $(tail -1 $W/$id.check | cut -c1-120)"
  # undo
  rsync -rlpc --exclude _build --exclude .git /repo/ $W/repo/
done
