#!/bin/bash
# Offline: checks that the tools are there and the specifications parse.
set -e
cd "$(dirname "$0")/../spec"
JARS=/opt/veriftools/tla/tla2tools.jar:/opt/veriftools/tla/CommunityModules-deps.jar
for m in GCSTrace FuncTrace; do
  out=$(java -cp "$JARS" tla2sany.SANY $m.tla 2>&1) || { echo "$out"; exit 1; }
done
mkdir -p ../evidence
echo ready
