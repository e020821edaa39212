#!/bin/bash
# Checks that the tools are there and that the simulator builds from the committed files.
set -e
cd "$(dirname "$0")/.."
mkdir -p build evidence
python3 tools/gen_properties.py --check 2>/dev/null || true
T=$(mktemp -d /verif/build/setup.XXXXXX)
bash sim/build.sh "$T" core
rm -rf "$T"
echo "setup done"
