#!/usr/bin/env python3
"""Runs laws in parallel: lawrun.py FACTSDIR [-w] [pattern…]; -w also interprets the graphs of discharged laws at random points."""
import os, re, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), '..', 'engine'))
import multiprocessing as mp
from facts import Facts
import law
F = Facts(sys.argv[1])
W = '-w' in sys.argv
pats = [x for x in sys.argv[2:] if x[0] != '-']
SEC = int(os.environ.get('SEC', '20'))


def go(k):
    try:
        o = law.run_law(F, k, SEC, selfcheck=W)
    except BaseException as e:
        return f'FAIL {k} {e!r}'
    p = o.points or ''
    if p and 'given_up' in p:
        p = f"points {p['points']}/{p['tried']} " + str(sorted(p['given_up'].items(), key=lambda x: -x[1])[:3])
    return f'{o.verdict:5} {o.seconds:6.2f} {k[6:]:36} split {o.splits} case {o.cases} unk {o.unknown[:3]} {str(o.why)[:600]} | {p}' + (' CONFIRMED' if o.verdict == 'diff' and getattr(o, 'confirmed', False) else ' UNCONFIRMED' if o.verdict == 'diff' and 'value graphs differ' not in str(o.why) else '')


ks = [k for k in sorted(F.bodies) if re.match(r'laws::(\w+::)?p\d\d_\w+$', k) and (not pats or any(p in k for p in pats)) and F.bodies[k]['kind'] == 'Fn']
with mp.get_context('fork').Pool(8, maxtasksperchild=1) as pool:
    for r in pool.imap_unordered(go, ks, chunksize=1):
        print(r, flush=True)
