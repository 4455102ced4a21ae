#!/bin/sh
# Builds the evaluator of module Rat (offline, about 1 s)
set -e
cd "$(dirname "$0")"
mkdir -p build/classes work evidence
javac -nowarn -cp /opt/veriftools/tla/tla2tools.jar -d build/classes java/*.java
