#!/bin/bash
# Runs each planted bug's own check on a scratch copy of /repo: try.sh [id…].  Prints caught / MISSED per bug.
V=$(cd "$(dirname "$0")/.." && pwd)
W=${W:-/tmp/vt}
mkdir -p $W/laws $W/evidence $W/target/runs
for n in engine driver check.sh known_findings.jsonl; do ln -sfn "$V/$n" $W/$n; done
ln -sfn "$V/laws/src" $W/laws/src
[ -d $W/repo ] || cp -a /repo $W/repo
git -C $W/repo checkout -q -- .
sed "s#/repo#$W/repo#" "$V/laws/Cargo.toml" > $W/laws/Cargo.toml
cp "$V/laws/Cargo.lock" $W/laws/ 2>/dev/null
[ $# -gt 0 ] || set -- $(ls "$V/seeded")
for b in "$@"; do
  p=$(python3 -c "import json;print(json.load(open('$V/seeded/$b/meta.json'))['property'])")
  git -C $W/repo apply "$V/seeded/$b/patch.diff" || { echo "$b does not apply"; continue; }
  OUT=$(mktemp -d $W/target/runs/XXXXXX)
  s=$(date +%s)
  (cd $W && python3 engine/build.py "$OUT" && VERIF_T0=$s PYTHONHASHSEED=0 PYTHONDONTWRITEBYTECODE=1 python3 engine/check.py $p "$OUT") > $W/log.$b 2>&1
  rc=$?
  e=$(date +%s)
  case $rc in 1) echo "$b caught $((e-s)) s $(grep -m1 '^  ' $W/log.$b | cut -c1-150)";; 0) echo "$b MISSED $((e-s)) s $(grep -m2 UNDECIDED $W/log.$b | cut -c1-200)";; *) echo "$b rc=$rc $(tail -1 $W/log.$b | cut -c1-200)";; esac
  rm -rf "$OUT"
  git -C $W/repo checkout -q -- .
done
