#!/bin/bash
# Checks build what they need from /repo themselves; this only verifies that
# the tools they rely on are there.
set -e
cd "$(dirname "$0")/.."
for t in g++ python3-vt; do command -v $t >/dev/null || { echo "missing $t"; exit 1; }; done
python3-vt -c 'import numpy, scipy'
test -f /usr/include/pybind11/pybind11.h
test -d /usr/include/eigen3
mkdir -p evidence build
