#!/bin/sh
# TLC with the evaluator of module Rat
V=$(cd "$(dirname "$0")/.." && pwd)
J=/opt/veriftools/tla
exec java ${TLC_JAVA_OPTS:--XX:+UseSerialGC -XX:TieredStopAtLevel=4 -Xmx3g -Xss16m} \
  -Dtlc2.overrides.TLCOverrides=tlc2.overrides.TLCOverrides:RatOverrides \
  -DTLA-Library=$V/spec \
  -cp $V/build/classes:$J/tla2tools.jar:$J/CommunityModules-deps.jar tlc2.TLC "$@"
