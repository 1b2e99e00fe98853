"""Decides one property on the current tree of the library: check.py PNN FACTSDIR.

The laws of the property (functions of the laws crate) are evaluated as value graphs together with the library functions they reach;
structural rules run on the typed trees directly. A difference is a violation, reported with the construct it comes from; what the
analysis cannot decide is recorded as undecided in the evidence and raises no alarm."""
import json
import multiprocessing as mp
import multiprocessing.connection
import os
import re
import sys
import time

V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
T0 = float(os.environ.get('VERIF_T0') or time.time())


def known_findings():
    p = os.path.join(V, 'known_findings.jsonl')
    out = []
    if os.path.exists(p):
        with open(p) as f:
            for l in f:
                if l.strip():
                    out.append(json.loads(l))
    return out


def one(name, seconds):
    import law
    try:
        return law.run_law(FACTS, name, seconds)
    except BaseException as e:
        import traceback
        o = law.Outcome(name)
        o.verdict, o.why = 'und', 'analysis failed: ' + repr(e)[:200] + ' ' + traceback.format_exc()[-300:]
        return o


def child(w, name, seconds):
    o = one(name, seconds)
    try:
        w.send(o)
    finally:
        w.close()
        os._exit(0)


def run_all(names, seconds, jobs=8):
    """Each law in a process of its own, so that one that fails or hangs costs only itself; once a law is broken the rest gets a short
    time to finish."""
    import law
    ctx = mp.get_context('fork')
    todo, live, outs = list(names), {}, {}
    broken = None
    while todo or live:
        while todo and len(live) < jobs:
            n = todo.pop(0)
            r, w = ctx.Pipe(duplex=False)
            p = ctx.Process(target=child, args=(w, n, seconds), daemon=True)
            p.start()
            w.close()
            live[r] = (n, p, time.time())
        for r in mp.connection.wait(list(live), timeout=1.0):
            n, p, t = live.pop(r)
            try:
                outs[n] = r.recv()
            except Exception:
                outs[n] = law.Outcome(n)
                outs[n].verdict, outs[n].why = 'und', 'the analysis of this law ended without an answer'
            r.close()
            p.join(5)
            if p.is_alive():
                p.kill()
            if outs[n].verdict == 'diff' and broken is None:
                broken = time.time()
        now = time.time()
        for r, (n, p, t) in list(live.items()):
            if now - t > 6 * seconds + 90 or now - T0 > LIMIT or broken is not None and now - broken > GRACE:
                p.kill()
                p.join(5)
                r.close()
                del live[r]
                outs[n] = law.Outcome(n)
                outs[n].verdict = 'und'
                outs[n].why = 'stopped after a violation was found' if broken is not None else 'out of time'
        if now - T0 > LIMIT and todo:
            for n in todo:
                outs[n] = law.Outcome(n)
                outs[n].verdict, outs[n].why = 'und', 'not analysed: out of time'
            todo = []
        if broken is not None and now - broken > GRACE:
            for n in todo:
                outs[n] = law.Outcome(n)
                outs[n].verdict, outs[n].why = 'und', 'not analysed after a violation was found'
            todo = []
    return [outs[n] for n in names]


GRACE = 15
LIMIT = 780


def main():
    global FACTS
    prop, d = sys.argv[1], sys.argv[2]
    tier = os.environ.get('VERIF_TIER', 'quick')
    seed = int(os.environ.get('VERIF_SEED', '1') or 1)
    from facts import Facts
    FACTS = Facts(d)
    dropped = []
    dp = os.path.join(d, 'dropped.json')
    if os.path.exists(dp):
        with open(dp) as f:
            dropped = json.load(f)
    num = prop[1:]
    names = sorted(k for k, b in FACTS.bodies.items()
                   if b['kind'] == 'Fn' and re.match(r'laws::(\w+::)?p%s_\w+$' % num, k))
    import law
    seconds = 30 if tier == 'quick' else 240
    law.SEED = seed
    if tier != 'quick':
        law.SEARCH = 90.0
    outs = []
    if names:
        outs = run_all(names, seconds)
    import rules
    found = rules.run(FACTS, prop)                 # {'rule':…, 'sites': n, 'violations': [{construct, why}], 'undecided': [...]}
    viol, und = [], []
    for o in outs:
        if o.verdict == 'diff':
            viol.append(dict(law=o.name[6:], construct=o.site or ', '.join(o.functions[:6]), where=o.span, why=o.why[:2000]))
        elif o.verdict != 'eq':
            und.append(dict(law=o.name[6:], why=o.why[:500], unknown=o.unknown[:5]))
    for n in dropped:
        if re.match(r'(\w+::)?p%s_' % num, n['law']):
            und.append(dict(law=n['law'], why='the law no longer type-checks against the library: ' + n['why'][:300]))
    for r in found:
        for v in r['violations']:
            viol.append(dict(rule=r['rule'], **v))
        for u in r.get('undecided', []):
            und.append(dict(rule=r['rule'], why=u))
    known = [k for k in known_findings() if k.get('property') == prop and k.get('status') == 'known']
    fresh = []
    for v in viol:
        key = v.get('law') or v.get('construct')
        k = [k for k in known if k.get('key') == key]
        if k:
            print(f'KNOWN-FINDING: property={prop} {k[0]["what"]}')
        else:
            fresh.append(v)
    fns, spans = set(), {}
    for o in outs:
        fns.update(o.functions)
    obl = sum(o.obligations for o in outs) + sum(r['sites'] for r in found)
    cov = dict(
        explanation='Static value-graph analysis: each law is evaluated symbolically as one gated value graph over the typed trees of the '
                    'current source (no path is executed or enumerated by a solver) and both sides are compared in algebraic normal form; graphs that '
                    'are not discharged are interpreted at random points to confirm a difference (never to discharge a law); '
                    'structural rules inspect every site of their kind.',
        rule='a law is discharged when both sides have the same normal form under every guard; a structural rule when no site breaks it',
        laws=len(outs), laws_discharged=sum(o.verdict == 'eq' for o in outs),
        obligations=obl, discharged=obl - sum(1 for o in outs if o.verdict != 'eq') - sum(len(r['violations']) for r in found),
        functions_analysed=sorted(fns), calls_inlined=sum(o.calls for o in outs), loops_summarised=sum(o.loops for o in outs),
        guard_cases=sum(o.cases for o in outs), case_splits=sum(o.splits for o in outs),
        sites_inspected=sum(r['sites'] for r in found),
        structural_rules=[dict(rule=r['rule'], sites=r['sites'], detail=r.get('detail', '')) for r in found],
        samples=[dict(law=o.name[6:], verdict=o.verdict, at=o.span, seconds=o.seconds, functions=o.functions[:8],
                      **({'interpreted': o.points} if o.points else {})) for o in outs],
        undecided=und, exhaustive=not und,
        crates_analysed=FACTS.crates, bodies_in_library=sum(b['crate'] == 'financelib' for b in FACTS.bodies.values()),
        trusted_base=['rustc front end (type-checked trees)', 'models of std and chrono calls in engine/models.py',
                      'real arithmetic in place of floating point', 'mathematical identities used by engine/terms.py'])
    ev = dict(property=prop, tier=tier, seed=seed, level='other', coverage=cov, wall_s=round(time.time() - T0, 3), violations=len(fresh),
              assumptions=['floating-point operations are read as exact real operations',
                           'library calls (std, chrono, serde derive) behave as documented',
                           'bases of symbolic powers are positive and symbolic denominators nonzero unless the law says otherwise'])
    os.makedirs(os.path.join(V, 'evidence'), exist_ok=True)
    with open(os.path.join(V, 'evidence', prop + '.json'), 'w') as f:
        json.dump(ev, f, indent=1)
    for u in und:
        print(f'UNDECIDED property={prop} {u.get("law") or u.get("rule")}: {u["why"][:200]}')
    if not outs and not found and not und:
        print(f'no law of {prop} was analysed')
        return 2
    if fresh:
        rp = os.path.join(V, 'evidence', prop + '.violation.json')
        with open(rp, 'w') as f:
            json.dump(fresh, f, indent=1)
        for v in fresh:
            print(f'  {v.get("law") or v.get("rule")}: {v["construct"]}: {v["why"][:400]}')
        print(f'VIOLATION property={prop} replay={rp}')
        return 1
    print(f'{prop}: {len(outs)} laws and {len(found)} rules, {obl} obligations, {len(fns)} library functions; '
          f'{len(und)} undecided; {time.time() - T0:.1f} s')
    return 0


if __name__ == '__main__':
    sys.exit(main())
