#!/bin/bash
# mkcopy.sh DIR : a scratch copy of /verif and /repo under DIR that can be run on its own (development aid)
set -e
D=$1; mkdir -p $D
cp -a /repo $D/repo
mkdir -p $D/verif; (cd /verif; tar cf - --exclude=.git --exclude=build --exclude=seeded --exclude=replays .) | tar xf - -C $D/verif
sed -i "s#\"/repo\"#\"$D/repo\"#; s#path = \"../../repo\"#path = \"$D/repo\"#" $D/verif/harness/Cargo.toml
sed -i "s#/verif/#$D/verif/#" $D/verif/tools/seeds.sh
sed -i "s#/tmp/seeds.out#$D/seeds.out#g" $D/verif/tools/seeds.sh
