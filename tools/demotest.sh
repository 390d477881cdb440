#!/bin/bash
# demotest.sh DIR ID... : only the demonstrations, in the scratch copy DIR
D=$1; shift
cd $D/repo
for id in "$@"; do S=/verif/seeded/$id; git checkout -q -- .
bash $S/demo.sh >$D/d0 2>&1; a=$?; git apply $S/patch.diff; bash $S/demo.sh >$D/d1 2>&1; b=$?; git checkout -q -- .
echo "$id $a/$b"; [ $a = 0 ] || grep -E "^error|panicked" -A3 $D/d0; [ $b != 0 ] && grep -E "^error" $D/d1; done
