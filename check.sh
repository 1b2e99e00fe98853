#!/bin/bash
# Decides one property on /repo's current tree: check.sh PNN
cd "$(dirname "$0")" || exit 2
export VERIF_T0=$(date +%s.%N) PYTHONHASHSEED=0 PYTHONDONTWRITEBYTECODE=1
P=$1
mkdir -p target/runs evidence
OUT=$(mktemp -d "$PWD/target/runs/XXXXXX") || exit 2
trap 'rm -rf "$OUT"' EXIT
python3 engine/build.py "$OUT" || exit 2
python3 engine/check.py "$P" "$OUT"
