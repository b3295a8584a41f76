#!/bin/bash
# nothing to install: verify the tools the checks need are there
cd "$(dirname "$0")" || exit 1
for t in java gcc clang python3 ar; do command -v $t >/dev/null || { echo "missing $t"; exit 1; }; done
test -f /opt/veriftools/tla/tla2tools.jar
