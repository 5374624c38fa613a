#!/bin/bash
# TLC with unbounded integers (tlc-bigint). Usage: tlc.sh TLC-ARGS...
D=$(cd "$(dirname "$0")" && pwd)
exec java -XX:+UseParallelGC ${TLC_JAVA:-} -cp "$D/build/tlc:/opt/veriftools/tla/tla2tools.jar:/opt/veriftools/tla/CommunityModules-deps.jar" tlc2.TLC "$@"
