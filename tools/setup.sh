#!/bin/bash
# Checks that the tools are there and builds the dependencies of the harness once; every check builds what it needs itself.
cd "$(dirname "$0")/.." || exit 1
mkdir -p work evidence
java -version >/dev/null 2>&1 || { echo "no java"; exit 1; }
ls /opt/veriftools/tla/tla2tools.jar >/dev/null || exit 1
python3 tools/prebuild.py
