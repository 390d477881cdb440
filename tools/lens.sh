#!/bin/bash
# lens.sh OUTDIR SCALE SEED PROP... : generate traces and check them (development aid)
O=$1; SC=$2; SEED=$3; shift 3
mkdir -p $O
one() { P=$1; O=$2; SC=$3; SEED=$4
/verif/build/target/debug/conform run --prop $P --seed $SEED --scale $SC --shard 0/1 --out $O/$P.jsonl >$O/$P.gen 2>&1 || { echo "$P gen rc=$?"; tail -3 $O/$P.gen; }
cd /verif/spec; TRACE=$O/$P.jsonl LENS=$P timeout 900 java -XX:+UseSerialGC -Xss16m -cp /opt/veriftools/tla/tla2tools.jar:/opt/veriftools/tla/CommunityModules-deps.jar tlc2.TLC -workers 1 -metadir $O/m$P -config PerfTrace.cfg PerfTrace.tla > $O/$P.out 2>&1
echo "== $P $(grep FINISHED $O/$P.out || grep -m3 -iE 'error|exception' $O/$P.out) $(grep 'Finished in' $O/$P.out)"; python3 /verif/tools/triage.py $O/$P.jsonl $O/$P.out | head -${HEADN:-12}
rm -rf $O/m$P; }
export -f one
printf '%s\n' "$@" | xargs -P 6 -I{} bash -c "one {} $O $SC $SEED > $O/{}.sum 2>&1"
for p in "$@"; do cat $O/$p.sum; done
