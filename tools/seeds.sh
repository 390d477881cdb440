#!/bin/bash
# seeds.sh TIER FROM TO : run every check with many seeds, show what is not quiet (development aid)
for s in $(seq $2 $3); do for p in $(seq -f C%02g 1 21); do
  VERIF_SEED=$s /verif/bin/check $p $1 > /tmp/seeds.out 2>&1 || { echo "seed $s $p rc=$?"; grep -v KNOWN /tmp/seeds.out | cut -c1-700; }
done; done; echo done
