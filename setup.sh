#!/bin/bash
# Nothing is compiled ahead of time: every check builds its drivers from /repo's working tree.
# This only makes sure the tools are there and creates the scratch folders.
cd "$(dirname "$0")" || exit 1
mkdir -p build out evidence
command -v java >/dev/null && command -v clang++-18 >/dev/null && command -v python3 >/dev/null || { echo "missing tool"; exit 1; }
test -f /opt/veriftools/tla/tla2tools.jar
