"""Rebuilds the typed-tree facts of /repo's current source and of the laws: build.py OUTDIR [--warm].

Laws that no longer type-check against the library are set aside (listed in OUTDIR/dropped.json); everything else is analysed."""
import fcntl
import glob
import json
import os
import re
import shutil
import subprocess
import sys

V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
T = os.path.join(V, 'target')


def env():
    e = dict(os.environ, RUSTUP_TOOLCHAIN='nightly', CARGO_NET_OFFLINE='true', CARGO_INCREMENTAL='0')
    sysroot = subprocess.run(['rustc', '--print', 'sysroot'], env=e, capture_output=True, text=True, check=True).stdout.strip()
    e['LD_LIBRARY_PATH'] = sysroot + '/lib'
    for k in ('RUSTFLAGS', 'CARGO_ENCODED_RUSTFLAGS', 'RUSTC_WORKSPACE_WRAPPER', 'CARGO_BUILD_TARGET'):
        e.pop(k, None)
    return e


def main():
    out = os.path.abspath(sys.argv[1])
    os.makedirs(out, exist_ok=True)
    os.makedirs(T, exist_ok=True)
    with open(os.path.join(T, '.lock'), 'w') as lk:
        fcntl.flock(lk, fcntl.LOCK_EX)
        return build(out)


def build(out):
    e = env()
    r = subprocess.run(['cargo', 'build', '-q', '--offline', '--manifest-path', os.path.join(V, 'driver/Cargo.toml')],
                       env=dict(e, CARGO_TARGET_DIR=T + '/driver'))
    if r.returncode:
        print('the facts driver does not build')
        return 2
    for n in ('financelib.json', 'laws.json', 'dropped.json'):
        p = os.path.join(out, n)
        if os.path.exists(p):
            os.remove(p)
    e.update(RUSTC_WRAPPER=T + '/driver/debug/thirfacts', THIRFACTS_CRATES='financelib,laws', THIRFACTS_OUT=out, CARGO_TARGET_DIR=T + '/laws')
    man = os.path.join(V, 'laws/Cargo.toml')
    dropped = []
    for attempt in range(6):
        # analyse both crates again, whatever cargo believes about their freshness
        for c in ('financelib', 'laws'):
            for p in glob.glob(f'{T}/laws/debug/.fingerprint/{c}-*') + glob.glob(f'{T}/laws/debug/build/{c}') + glob.glob(f'{T}/laws/debug/build/{c}-*'):
                shutil.rmtree(p)
        for n in ('financelib.json', 'laws.json'):
            p = os.path.join(out, n)
            if os.path.exists(p):
                os.remove(p)
        r = subprocess.run(['cargo', 'check', '--offline', '--message-format=json', '--manifest-path', man], env=e, capture_output=True, text=True)
        if r.returncode == 0:
            break
        if not os.path.exists(os.path.join(out, 'financelib.json')):
            sys.stdout.write(r.stderr[-3000:])
            print('the library does not compile')
            return 2
        spans = []
        for l in r.stdout.splitlines():
            try:
                m = json.loads(l)
            except ValueError:
                continue
            if m.get('reason') == 'compiler-message' and m['message']['level'] == 'error':
                for s in m['message']['spans']:
                    if s['is_primary']:
                        spans.append((s['file_name'], s['line_start'], m['message']['message']))
        cp = os.path.join(out, 'laws')
        if not os.path.exists(cp):
            shutil.copytree(os.path.join(V, 'laws'), cp, ignore=shutil.ignore_patterns('target'))
        man = os.path.join(cp, 'Cargo.toml')
        if not drop(cp, spans, dropped):
            sys.stdout.write(r.stderr[-3000:])
            print('the laws do not compile')
            return 2
    else:
        print('the laws do not compile')
        return 2
    if dropped:
        with open(os.path.join(out, 'dropped.json'), 'w') as f:
            json.dump(dropped, f)
    ok = all(os.path.exists(os.path.join(out, n)) for n in ('financelib.json', 'laws.json'))
    if not ok:
        print('no facts were written')
    return 0 if ok else 2


def drop(cp, spans, dropped):
    """cuts the top-level items that hold the errors out of the copied laws"""
    by = {}
    for f, line, msg in spans:
        p = f if os.path.isabs(f) else os.path.join(cp, f)
        p = os.path.join(cp, 'src', os.path.basename(p))
        by.setdefault(p, []).append((line, msg))
    n = 0
    for p, ls in by.items():
        if not os.path.exists(p):
            continue
        with open(p) as f:
            lines = f.read().split('\n')
        for line, msg in sorted(set(ls), reverse=True):
            i = line - 1
            if i >= len(lines):
                continue
            while i >= 0 and not re.match(r'(pub )?(fn|use|struct|enum|impl|trait|static|const|mod)\b', lines[i]):
                i -= 1
            if i < 0 or not re.match(r'(pub )?fn', lines[i]):
                continue
            j = i
            while j < len(lines) and lines[j] != '}':
                j += 1
            m = re.match(r'(?:pub )?fn (\w+)', lines[i])
            mod = os.path.basename(p)[:-3]
            dropped.append(dict(law=f'{mod}::{m.group(1)}', why=msg))
            for k in range(i, min(j + 1, len(lines))):
                lines[k] = ''
            n += 1
        with open(p, 'w') as f:
            f.write('\n'.join(lines))
    return n


if __name__ == '__main__':
    sys.exit(main())
