#!/bin/bash
# Builds the MIR driver and type-checks the dependencies once; the checks re-dump only the crate itself.
cd "$(dirname "$0")/.." || exit 1
mkdir -p build && bash tools/mirdump.sh "${REPO:-/repo}" "$PWD/build/setup.json" && rm -f build/setup.json
