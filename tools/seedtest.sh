#!/bin/bash
# seedtest.sh DIR ID [noalarm] : judge one planted change in the scratch copy DIR (made by mkcopy.sh)
# prints: ID property demo-clean demo-bug tests check-exit seconds
D=$1; id=$2; S=/verif/seeded/$id
prop=$(python3 -c "import json;print(json.load(open('$S/meta.json'))['property'])")
cd $D/repo && git checkout -q -- . && git clean -fdq src
clean=-; if [ -z "$NOCLEAN" ]; then bash $S/demo.sh >/dev/null 2>&1; clean=$?; fi
git apply $S/patch.diff || { echo "$id APPLY FAILED"; exit 1; }
bash $S/demo.sh > $D/demo.out 2>&1; bug=$?
CARGO_TARGET_DIR=$D/rt cargo nextest run --offline --workspace --all-features --no-fail-fast > $D/nx.out 2>&1
t1=$(grep -oE "[0-9]+ passed" $D/nx.out | tail -1)
CARGO_TARGET_DIR=$D/rt cargo test --doc --offline --all-features > $D/doc.out 2>&1; t2=$(grep -oE "[0-9]+ passed" $D/doc.out | tail -1)
s=$(date +%s); $D/verif/bin/check $prop ${TIER:-quick} > $D/check.out 2>&1; rc=$?
echo "$id $prop demo:$clean/$bug tests:$t1+$t2 check:$rc $(( $(date +%s) - s ))s $(grep -c ^VIOLATION $D/check.out)"
cp $D/check.out $D/check.$id.out
git checkout -q -- .
