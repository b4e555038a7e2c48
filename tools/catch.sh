#!/bin/bash
# catch.sh [ID...]   applies each planted change, runs the check of its property (ALL=1: every check).
# Works on a copy of the last commit of /verif and of /repo in /tmp, so that both can be used meanwhile.
src=$(cd "$(dirname "$0")/.." && pwd)
copy=/tmp/catch-copy
mkdir -p $copy && git -C $src archive HEAD | tar -x -C $copy && cp -r $src/seeded $copy/
rm -rf $copy/repo && git clone -q /repo $copy/repo
sed -i 's#path = "/repo"#path = "'$copy'/repo"#' $copy/sim/Cargo.toml
cd $copy
out=${OUT:-/tmp/catch.tsv}
ids=("$@"); [ ${#ids[@]} = 0 ] && ids=($(ls seeded))
for id in "${ids[@]}"; do
  prop=$(python3 -c "import json;print(json.load(open('seeded/$id/meta.json'))['property'])")
  props=$prop; [ -n "$ALL" ] && props=$(seq -f "C%02g" 1 19)
  git -C $copy/repo apply $copy/seeded/$id/patch.diff || { echo "$id does not apply"; continue; }
  for p in $props; do
    s=$(date +%s)
    timeout 900 ./check.sh $p quick > /tmp/catch.out 2>&1; rc=$?
    v=$(grep -m1 ^VIOLATION /tmp/catch.out | sed 's/.*replays.//'); w=$(grep -m1 '^violation of' /tmp/catch.out | cut -d: -f2)
    echo -e "$id\t$prop\t$p\trc=$rc\t$(( $(date +%s)-s ))s\t$v\t$w" | tee -a $out
  done
  git -C $copy/repo checkout -q -- .
done
