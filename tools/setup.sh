#!/bin/sh
# Checks that the tools the checks build with are there; every check builds
# what it needs from /repo's current tree itself.
set -e
cd "$(dirname "$0")/.."
for t in clang++ ninja protoc python3; do command -v $t >/dev/null || { echo "missing $t"; exit 1; }; done
mkdir -p evidence
echo "setup ok"
