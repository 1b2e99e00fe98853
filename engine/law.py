"""Evaluates the laws of one property on the value graphs of the current source and decides them."""
import re
import sys
import time
import traceback
from terms import *
import terms as TM
from values import *
import values as VL
import evalr
from evalr import Ev
import equal

PANICS = ('explicit', 'unwrap')


class Outcome:
    def __init__(self, name):
        self.name = name
        self.verdict = None
        self.why = ''
        self.unknown = []
        self.functions = []
        self.calls = self.loops = 0
        self.cases = self.splits = self.obligations = 0
        self.seconds = 0.0
        self.span = ''
        self.site = ''
        self.points = None
        self.confirmed = None
        self.soft = False


def bool_of(v):
    return v if isbool(v) else atom(v)


def install(ev):
    """the intrinsics of the laws crate"""
    def assume(ev, args, rty, sp):
        c = bool_of(ev.val(args[0]))
        f = IMP_(ev.live, c)
        ev.assumed = AND(ev.assumed, f)
        if ev.live is TRUE:
            equal.assume_conj(CTX[-1], c)
        return UNIT

    def panics(ev, args, rty, sp):
        """does the closure panic (explicitly)"""
        p = len(ev.panics)
        saved = ev.live
        st = dict(ev.store)
        ev.live = TRUE
        ev.call_value(args[0], [], sp, ('tuple',))
        ps = ev.panics[p:]
        del ev.panics[p:]
        kinds = PANICS + (('oob', 'overflow', 'div0') if 'bounds' in ev.flags else ())
        c = OR(*[x.cond for x in ps if x.kind in kinds])
        ev.live = saved
        ev.store = st
        return c

    def written(ev, args, rty, sp):
        """the files the closure writes: (path, content)"""
        n, p = len(ev.written), len(ev.panics)
        saved = ev.live
        st = dict(ev.store)
        ev.live = TRUE
        ev.call_value(args[0], [], sp, ('tuple',))
        del ev.panics[p:]
        ws = ev.written[n:]
        del ev.written[n:]
        ev.live = saved
        ev.store = st
        return VL.mkglist([(l, mk('tuple', a, b)) for l, a, b in ws])

    def tables(ev, args, rty, sp):
        """what the closure returns with every table in it taken as a fixed text, and the tables it asks for"""
        calls, key = [], 'statements::format_table'

        def table(ev2, a, rty2, sp2):
            calls.append((ev2.live, mk('tuple', *[ev2.val(x) for x in a])))
            return mk('str', '<table>')
        p, saved, st = len(ev.panics), ev.live, dict(ev.store)
        old = ev.spied.get(key)
        ev.spied[key] = table
        ev.live = TRUE
        r = ev.val(ev.call_value(args[0], [], sp, ('obj', 'String')))
        del ev.panics[p:]
        if old is None:
            del ev.spied[key]
        else:
            ev.spied[key] = old
        ev.live = saved
        ev.store = st
        if not calls:
            ev.note_unknown('a table made in another way', sp)
            return ev.unk('table', rty)
        return mk('tuple', r, VL.mkglist(calls))

    def flag(name):
        def f(ev, args, rty, sp):
            ev.flags.add(name)
            return UNIT
        return f

    def opaque_newt(ev, args, rty, sp):
        return newt(ev, args, rty)

    def opaque_calls(ev, args, rty, sp):
        """first try: a call of the function named by the end of its path is a function of its arguments, whatever it computes"""
        if FIRST[0]:
            name = ev.val(args[0]).a[0]
            ev.spied[name] = lambda ev2, a, rty2, sp2: expand(rty2, lambda s: mk('app', 'fn ' + name, s, *[ev2.val(x) for x in a]))
        return UNIT

    def use_solver(ev, args, rty, sp):
        ev.opaque['financelib::newt_raph'] = opaque_newt
        return UNIT
    ev.opaque.update({'laws::assume': assume, 'laws::panics': panics, 'laws::written': written, 'laws::tables': tables, 'laws::allow_panics': flag('allow'),
                      'laws::check_bounds': flag('bounds'), 'laws::check_overflow': flag('ints'), 'laws::opaque_solver': use_solver, 'laws::opaque_calls': opaque_calls, 'laws::negligible': flag('negl')})


def IMP_(a, b):
    return OR(NOT(a), b)


FIRST = [False]         # calls named by the law are taken as functions of their arguments


def newt(ev, args, rty):
    """a call of the root finder: determined by the function whose root is sought, up to a nonzero factor"""
    x = fresh('f', 'x')
    saved = ev.live
    ev.live = TRUE
    p = len(ev.panics)
    y = ev.val(ev.call_value(args[0], [x], None, 'f64'))
    del ev.panics[p:]
    ev.live = saved
    if y is UNDEF:
        return UNDEF
    y = canon_root(y, x)
    g = close('lam', x, 'f', y)
    from values import NONE
    tag = mk('app', 'roottag', ('enum', 'Option'), g)
    return gate(member(tag, frozenset(['Some'])), some(mk('app', 'root', 'f', g)), NONE)


def canon_root(y, x):
    """y up to a factor that vanishes for no x: numbers, factors without x, negative and symbolic powers (their bases are positive)"""
    if y.op == 'gate':
        return gate(y.a[0], canon_root(y.a[1], x), canon_root(y.a[2], x))
    if not isnum(y) or y is ZERO:
        return y
    k, f, prim = content(y)
    (m, c), = P(f)
    for b, e in m:
        q, sym = sym_split(e)
        if sym is None and q > 0 and x in b.fv:
            prim = mul(prim, powr(b, const(q)))
    return prim


class Late(BaseException):
    pass


def run_law(F, name, seconds=20, trace=False, selfcheck=False):
    """evaluate law function laws::name and decide it, within limits of time and memory"""
    import resource
    import signal

    def late(*a):
        raise Late()
    resource.setrlimit(resource.RLIMIT_AS, (6 << 30, resource.getrlimit(resource.RLIMIT_AS)[1]))
    old = signal.signal(signal.SIGPROF, late)
    signal.setitimer(signal.ITIMER_PROF, seconds * 1.5 + 5)
    t0 = time.process_time()
    o = Outcome(name)
    g = {}
    try:
        FIRST[0] = True
        try:
            run_law_(F, o, name, seconds, g)
        except (Late, MemoryError):
            if 'first' not in g:
                raise
        if 'first' in g and o.verdict != 'eq':
            signal.setitimer(signal.ITIMER_PROF, seconds * 1.5 + 5)
            FIRST[0] = False
            o = Outcome(name)
            g.clear()
            run_law_(F, o, name, seconds, g)
    except (Late, MemoryError) as e:
        o.verdict, o.why = 'und', 'out of ' + ('time' if isinstance(e, Late) else 'memory')
        if 'cmp' in g:
            c = g['cmp']
            o.cases, o.splits, o.obligations = c.ncase, c.nsplit, c.obl + 1
    signal.setitimer(signal.ITIMER_PROF, 0)
    del CTX[1:]
    if 'L' in g and (o.verdict in ('und', 'diff') or selfcheck):
        secs = SEARCH if o.verdict == 'und' or o.soft else WITNESS
        signal.setitimer(signal.ITIMER_PROF, secs * 2 + 5)
        try:
            interpret(F, o, g, secs)
        except (Late, MemoryError, RecursionError, ArithmeticError) as e:
            o.points = dict(stopped=repr(e)[:100])
    signal.setitimer(signal.ITIMER_PROF, 0)
    if o.verdict == 'diff' and o.soft and not o.confirmed:
        o.verdict = 'und'
        o.why = 'a difference under conditions that may exclude each other or that involves something not modelled, and no point was found: ' + o.why
    signal.signal(signal.SIGPROF, old)
    del CTX[1:]
    o.seconds = round(time.process_time() - t0, 3)
    return o


WITNESS = 6.0           # seconds spent on a discharged law (self-check) or a definite difference
SEARCH = 15.0           # … on an undecided law or a difference that may be spurious
SEED = 0


def interpret(F, o, g, secs):
    """random interpretation of the two graphs"""
    import witness
    d, point, st = witness.search(F, g['params'], g['assumed'], g['live'], g['L'], g['R'], g['panics'], g['kinds'], secs, seed=SEED, good=250 if o.verdict == 'eq' else 100000)
    o.points = st
    if o.verdict == 'diff':
        o.confirmed = d is not None
        if d is not None:
            at = ', '.join(f'{k} = {v}' for k, v in point.items())
            o.why += f'; the value graphs differ at {at[:600]}: {d[:200]}'
    elif d is not None:
        if o.verdict == 'eq':
            o.verdict = 'CONTRADICTION'
        else:
            o.verdict = 'diff'
        at = ', '.join(f'{k} = {v}' for k, v in point.items())
        o.why = f'the value graphs differ at {at[:900]}: {d[:300]} [{o.why[:200]}]'


def run_law_(F, o, name, seconds, G):
    t0 = time.process_time()
    b = F.bodies.get(name if name.startswith('laws::') else 'laws::' + name)
    if b is None:
        o.verdict, o.why = 'missing', 'law not compiled'
        return o
    o.span = b['span'] if isinstance(b['span'], str) else str(b['span'])
    ev = Ev(F)
    install(ev)
    del CTX[1:]
    cx = Ctx()
    CTX.append(cx)
    ev.memo_static = STATICS.setdefault(id(F), {})
    try:
        args = []
        for i, p in enumerate(b['params']):
            ty = F.ty(b['crate'], p['ty'])
            nm = pname(p['pat'], i)
            if isinstance(ty, tuple) and ty[0] == 'ref' and ty[1]:
                args.append(ev.tmp(symbol(nm, ty[2]), ty[2]))
            else:
                args.append(symbol(nm, ty))
        v = ev.val(ev.call_body(b, args, {}))
    except (evalr.Unsupported, RecursionError) as e:
        o.verdict, o.why = 'und', 'not evaluated: ' + repr(e)[:200]
        return o
    finally:
        del CTX[1:]
    o.functions = sorted(k for k in ev.visited if not k.startswith('laws::'))
    o.calls, o.loops = ev.ncall, ev.nloop
    o.unknown = sorted(ev.unknown)
    assumed = ev.assumed
    if ev.spied:
        G['first'] = True
        seconds = seconds / 3
    c = equal.Cmp(seconds=seconds)
    res = []
    kinds = () if 'allow' in ev.flags else PANICS + (('oob', 'overflow', 'div0') if 'bounds' in ev.flags else ())
    L, R = sides(v)
    if L is not None and 'negl' in ev.flags:
        L, R = drop_negligible(L), drop_negligible(R)
    if L is not None:
        G.update(cmp=c, L=L, R=R, assumed=assumed, live=ev.live, kinds=kinds, panics=list(ev.panics),
                 params=[(pname(p['pat'], i), F.ty(b['crate'], p['ty'])) for i, p in enumerate(b['params'])])
    # panics
    if 'allow' not in ev.flags:
        for p in ev.panics:
            if p.kind not in kinds:
                continue
            if p.fn.startswith('laws::'):
                pass
            try:
                p.cond = c.settled(p.cond)
            except equal.Budget:
                pass
            r = c.equal(p.cond, FALSE, assumed)
            if r.v != equal.EQ:
                r.why = f'{p.kind} panic reached in {p.fn} at {p.span}: {r.why}'
                if r.v == equal.DIFF:
                    o.site = f'{p.fn} at {p.span}'
                res.append(r)
                break
    if not res or res[0].v != equal.DIFF:
        live = ev.live
        g = AND(assumed, live)
        if v is UNDEF or g is FALSE:
            res.append(equal.Res(equal.UND, 'the law never completes'))
        else:
            r = c.equal(L, R, g)
            res.append(r)
    o.verdict = 'diff' if any(r.v == equal.DIFF for r in res) else 'und' if any(r.v == equal.UND for r in res) else 'eq'
    o.why = '; '.join(str(r.why) for r in res if r.v == (equal.DIFF if o.verdict == 'diff' else equal.UND))
    if o.verdict == 'diff' and any(u.startswith(('closure passed', 'assign through')) for u in o.unknown):
        o.verdict, o.why = 'und', 'the graph may miss a write: ' + o.why
        G.clear()
    o.soft = o.verdict == 'diff' and (bool(o.unknown) or all(r.soft for r in res if r.v == equal.DIFF))
    o.cases, o.splits, o.obligations = c.ncase, c.nsplit, c.obl + 1
    return o


def sides(v):
    if v is UNDEF:
        return None, None
    if v.op == 'tuple' and len(v.a) == 2:
        return v.a
    if v.op == 'tuple' and not v.a:
        return TRUE, TRUE
    return v, TRUE


STATICS = {}


def pname(p, i):
    while p is not None:
        if p.get('k') == 'bind':
            return p.get('n') or f'a{i}'
        p = p.get('sub') if isinstance(p.get('sub'), dict) else None
    return f'a{i}'


def drop_negligible(t):
    """x for (|x| > 1e-5 ? x : 0): the identity up to negligible amounts"""
    from fractions import Fraction
    lim = Fraction(1, 100000)
    m = {}
    for x in subterms(t):
        if x.op in ('lt0', 'le0'):
            d = dict(P(x.a[0]))
            c = d.pop((), 0)
            if abs(c) == lim and d and all(k * c < 0 and any(b.op == 'abs' for b, e in mm) for mm, k in d.items()):
                m[x] = FALSE if c < 0 else TRUE
    return subst(t, m) if m else t


if __name__ == '__main__':
    from facts import Facts
    F = Facts(sys.argv[1])
    if F.errors:
        print(F.errors[:3])
    pats = [x for x in sys.argv[2:] if x[0] != '-']
    for k in sorted(F.bodies):
        if re.match(r'laws::(\w+::)?p\d\d_\w+$', k) and (not pats or any(p in k for p in pats)) and F.bodies[k]['kind'] == 'Fn':
            o = run_law(F, k, selfcheck='-w' in sys.argv)
            sys.stdout.flush()
            print(f'{o.verdict:5} {o.seconds:6.2f} {k[6:]:40} split {o.splits} case {o.cases} unk {o.unknown[:3]} {str(o.why)[:500]} {o.points or ""}')
