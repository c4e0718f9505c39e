#!/bin/bash
# Checks that the harness builds offline against /repo's working tree, and warms the build cache.
cd "$(dirname "$0")/.." || exit 2
exec python3 run.py --build
