#!/bin/bash
# Builds the facts driver and warms the dependency builds.
cd "$(dirname "$0")" || exit 2
mkdir -p target/runs evidence
OUT=$(mktemp -d "$PWD/target/runs/XXXXXX") || exit 2
trap 'rm -rf "$OUT"' EXIT
python3 engine/build.py "$OUT"
