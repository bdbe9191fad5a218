#!/bin/bash
# usage: tools/catch.sh [bug ...]: runs the quick check of the property of each planted change (and the checks in
# $ALSO) on a scratch copy of /repo and of the explorer with the change applied
set -u
w=${W:-/tmp/mut/catch}; mkdir -p $w; rm -rf "${w:?}/repo"; git clone -q /repo $w/repo
mkdir -p $w/verif/evidence; rsync -a --exclude target /verif/mc /verif/check.sh /verif/known-findings.txt $w/verif/ 2>/dev/null || cp -r /verif/check.sh /verif/known-findings.txt $w/verif/
[ -d $w/verif/mc/src ] || { mkdir -p $w/verif/mc; }
rm -rf "${w:?}/verif/mc/src"; cp -r /verif/mc/src /verif/mc/Cargo.toml /verif/mc/Cargo.lock $w/verif/mc/
grep -rl '"/repo"' $w/verif/mc/Cargo.toml | xargs -r sed -i "s#\"/repo\"#\"$w/repo\"#"
sed -i "s#path = \"[^\"]*repo\"#path = \"$w/repo\"#" $w/verif/mc/Cargo.toml
bugs=("$@"); [ $# = 0 ] && bugs=($(ls /verif/seeded))
for b in "${bugs[@]}"; do
  git -C $w/repo checkout -q .
  git -C $w/repo apply /verif/seeded/$b/patch.diff || { echo "$b: doesn't apply"; continue; }
  p=$(python3 -c "import json;print(json.load(open('/verif/seeded/$b/meta.json'))['property'])")
  out=""
  for c in $p ${ALSO:-}; do
    s=$(date +%s); ( cd $w/verif && timeout 900 ./check.sh $c quick ) > $w/out.$c 2>&1; rc=$?
    v=$(grep -c "^VIOLATION property=$c" $w/out.$c); out="$out $c:rc=$rc,v=$v,$(( $(date +%s)-s ))s"
  done
  echo "$b:$out"
done
