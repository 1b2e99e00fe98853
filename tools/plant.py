"""Turns the bug descriptions of tools/bugs.py into /verif/seeded/<id>/: patch, demonstration and meta data, each confirmed in a scratch
copy of /repo (compiles, the tests pass, the demonstration passes without and fails with the change).  plant.py [id…]"""
import json
import os
import shutil
import subprocess
import sys

V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
W = '/tmp/plant'
sys.path.insert(0, os.path.join(V, 'tools'))
DEMO = '''#!/bin/bash
# Builds main.rs against the library in the current directory and runs it: exit 0 when the property's example holds.
D=$(cd "$(dirname "$0")" && pwd)
R=$PWD
W=$(mktemp -d) || exit 2
trap 'rm -rf "$W"' EXIT
mkdir -p "$W/src"
cp "$D/main.rs" "$W/src/main.rs"
[ -f "$R/Cargo.lock" ] && cp "$R/Cargo.lock" "$W/Cargo.lock"
cat > "$W/Cargo.toml" <<EOF
[package]
name = "demo"
version = "0.1.0"
edition = "2021"
[dependencies]
financelib = { path = "$R" }
chrono = { version = "*", features = ["serde"] }
serde = { version = "*", features = ["derive"] }
serde_json = "*"
ron = "*"
[workspace]
EOF
cd "$W" || exit 2
export CARGO_TARGET_DIR=${DEMO_TARGET:-$W/target}
cargo build --offline -q 2> "$W/log" || { cat "$W/log"; exit 2; }
timeout 100 "$CARGO_TARGET_DIR/debug/demo"
'''
HEAD = '''#![allow(unused_imports, dead_code)]
use chrono::naive::NaiveDate as NDt;
use financelib::fixedincomes::bonds::rates::*;
use financelib::fixedincomes::bonds::*;
use financelib::fixedincomes::moneymarkets::*;
use financelib::statements::BsType::*;
use financelib::statements::CfType::*;
use financelib::statements::FinOthersTyp::*;
use financelib::statements::PlType::*;
use financelib::statements::*;
use financelib::*;
use std::collections::{BTreeMap, BTreeSet, HashMap};

fn d(y: i32, m: u32, day: u32) -> NDt {
    NDt::from_ymd_opt(y, m, day).unwrap()
}
fn near(a: f64, b: f64) -> bool {
    (a - b).abs() <= 1e-7 * (1.0 + a.abs().max(b.abs()))
}
fn accounts() -> Accounts {
    Accounts {
        currency: Currency::INR,
        consolidated: true,
        dates: BTreeSet::new(),
        balance_sheet: BTreeMap::new(),
        profit_loss: BTreeMap::new(),
        cash_flow: BTreeMap::new(),
        others: BTreeMap::new(),
    }
}
'''


def sh(cmd, cwd, env=None):
    e = dict(os.environ)
    e.update(env or {})
    return subprocess.run(cmd, cwd=cwd, shell=True, capture_output=True, text=True, env=e)


def reset():
    sh('git checkout -q -- .', W + '/repo')


def setup():
    os.makedirs(W, exist_ok=True)
    if not os.path.isdir(W + '/repo'):
        sh(f'cp -a /repo {W}/repo', '/')
    head = sh('git rev-parse HEAD', '/repo').stdout.strip()
    if sh('git rev-parse HEAD', W + '/repo').stdout.strip() != head:
        sh(f'rm -rf {W}/repo && cp -a /repo {W}/repo', '/')
    reset()


def tests():
    r = sh('cargo test --workspace --no-fail-fast --offline', W + '/repo')
    return r.returncode == 0, r.stdout + r.stderr


def demo(d):
    r = sh(f'bash {d}/demo.sh', W + '/repo', {'DEMO_TARGET': W + '/target'})
    return r.returncode, (r.stdout + r.stderr)[-800:]


def plant(b):
    d = os.path.join(W, 'out', b['id'])
    shutil.rmtree(d, ignore_errors=True)
    os.makedirs(d)
    with open(d + '/main.rs', 'w') as f:
        f.write(HEAD + '\n' + b['demo'].strip() + '\n')
    with open(d + '/demo.sh', 'w') as f:
        f.write(DEMO)
    reset()
    rc, out = demo(d)
    if rc != 0:
        return f'demo fails on the unchanged tree: {rc} {out}'
    for file, old, new in b['edits']:
        p = f'{W}/repo/{file}'
        s = open(p).read()
        if s.count(old) != b.get('count', 1) and s.count(old) < 1:
            return f'text occurs {s.count(old)} times: {old[:60]}'
        n = b.get('nth', 0)
        parts = s.split(old)
        if len(parts) != 2 and 'nth' not in b:
            return f'text occurs {len(parts) - 1} times: {old[:60]}'
        s = old.join(parts[:n + 1]) + new + old.join(parts[n + 1:])
        open(p, 'w').write(s)
    diff = sh('git diff', W + '/repo').stdout
    ok, log = tests()
    if not ok:
        reset()
        return 'tests fail: ' + ' '.join(__import__('re').findall(r'panicked at \S+|error\S* .*', log))[:300]
    rc, out = demo(d)
    reset()
    if rc == 0 or rc == 2:
        return f'demo gives {rc} with the change {out}'
    with open(d + '/patch.diff', 'w') as f:
        f.write(diff)
    with open(d + '/meta.json', 'w') as f:
        json.dump(dict(property=b['prop'], needs=b['needs'], what_it_breaks=b['breaks']), f, indent=1)
    dst = os.path.join(V, 'seeded', b['id'])
    shutil.rmtree(dst, ignore_errors=True)
    shutil.copytree(d, dst)
    return None


def main():
    import bugs
    setup()
    for b in bugs.BUGS:
        if len(sys.argv) > 1 and b['id'] not in sys.argv[1:]:
            continue
        if len(sys.argv) == 1 and os.path.isdir(os.path.join(V, 'seeded', b['id'])):
            continue
        e = plant(b)
        print(b['id'], 'ok' if e is None else 'NO: ' + e, flush=True)


main()
