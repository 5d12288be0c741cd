#!/bin/bash
# compile the TLC operator overrides (needs only javac + tla2tools.jar)
set -e
cd "$(dirname "$0")/.."
out=${1:-build/classes}
mkdir -p "$out"
javac -nowarn -cp /opt/veriftools/tla/tla2tools.jar -d "$out" java/src/vr/R64.java
