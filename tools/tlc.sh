#!/bin/bash
# tlc.sh CONFIG MODULE [TLC options]   run TLC by hand in spec/
cd "$(dirname "$0")/../spec"
c=$1; m=$2; shift 2
exec java -XX:+UseParallelGC -Xss64m -Xmx6g -cp /opt/veriftools/tla/tla2tools.jar:/opt/veriftools/tla/CommunityModules-deps.jar tlc2.TLC -workers 4 -noGenerateSpecTE -metadir /tmp/meta.$$ -config $c "$@" $m
