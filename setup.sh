#!/bin/bash
# Build everything the checks need from /repo's working tree (the checks rebuild
# what changed since).
set -e
cd "$(dirname "$0")"
mkdir -p evidence .build
exec python3 lib/build.py --prebuild
