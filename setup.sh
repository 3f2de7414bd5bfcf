#!/bin/bash
# Nothing is installed: check that the tools the checks rely on are there.
set -e
cd "$(dirname "$0")"
for t in java clang cmake ninja python3; do command -v $t >/dev/null || { echo "missing $t"; exit 1; }; done
test -f /opt/veriftools/tla/tla2tools.jar
mkdir -p evidence
python3 -m py_compile lib/vf.py checks/*.py && rm -rf lib/__pycache__ checks/__pycache__
echo setup ok
