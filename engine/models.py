"""Meaning of the standard library, chrono and lazy_static operations the code uses (and of close alternatives)."""
from fractions import Fraction
from terms import *
import terms as TM
from values import *
import values as VL
import loops

H = {}


def model(*names):
    def d(f):
        for n in names:
            H[n] = f
        return f
    return d


class Call:
    __slots__ = ('ev', 'c', 'env', 'args', 'sp', 'rty', 'atys', 'self_ty')

    def __init__(self, ev, c, env, args, sp, rty, atys):
        self.ev, self.c, self.env, self.args, self.sp, self.rty, self.atys = ev, c, env, args, sp, rty, atys
        st = env.get('Self')
        if st is None and 'self' in c:
            st = tsubst(c['self'], env)
        self.self_ty = st

    def v(self, i):
        return self.ev.val(self.args[i])

    def seq(self, i):
        x = self.args[i]
        t = self.atys[i] if self.atys else None
        return seq_of(self.ev, x, t)

    def ismut(self, i):
        t = self.atys[i] if self.atys else None
        return isinstance(t, tuple) and t[0] == 'ref' and t[1] is True

    def call(self, f, *args):
        return self.ev.call_value(f, list(args), self.sp)


MAPS = ('HashMap', 'BTreeMap')
SETS = ('HashSet', 'BTreeSet')


def tyname(t):
    """a short name of the type behind references"""
    while isinstance(t, tuple) and t and t[0] == 'ref':
        t = t[2]
    if isinstance(t, str):
        return t
    if t is None:
        return None
    if t[0] == 'adt':
        n = t[2]
        if n in MAPS:
            return 'Map'
        if n in SETS:
            return 'Set'
        if n in ('VecDeque',):
            return 'Vec'
        if n in ('Map', 'Set', 'Vec') and not (t[1].startswith('alloc::vec') or t[1].startswith('std::vec')):
            return n + 'Iter'
        if n == 'Box' and len(t) > 3:
            return tyname(t[3])
        return n
    if t[0] in ('slice', 'array'):
        return 'Vec'
    return t[0]


def under(t):
    while isinstance(t, tuple) and t and t[0] == 'ref':
        t = t[2]
    if isinstance(t, tuple) and t[0] == 'adt' and t[2] == 'Box' and len(t) > 3:
        return under(t[3])
    return t


# ---------------------------------------------------------------- dispatch
def call(ev, c, env, args, sp, rty, atys):
    n = c['n']
    k = c['k']
    C = Call(ev, c, env, args, sp, rty, atys)
    if 'panicking' in k or n in ('begin_panic', 'panic_display', 'panic_any', 'panic_fmt', 'unwrap_failed', 'expect_failed'):
        todo = any(a.op == 'todo' or any(x.op == 'todo' for x in subterms(ev.val(a))) for a in args if isinstance(a, T))
        ev.panic(TRUE, 'todo' if todo else 'explicit', sp)
        ev.live = FALSE
        return UNDEF
    if n in ('todo_default_msg', 'unimplemented_default_msg'):
        return mk('todo')
    if n in ('abort', 'exit') and 'process' in k:
        ev.panic(TRUE, 'explicit', sp)
        ev.live = FALSE
        return UNDEF
    if 'trait_n' in c:
        st = tyname(C.self_ty)
        cand = (f'{st}:{c["trait_n"]}.{n}', f'{c["trait_n"]}.{n}')
    elif 'self' in c or C.self_ty is not None:
        st = tyname(C.self_ty)
        cand = (f'{st}.{n}',)
    else:
        cand = ('::'.join(k.split('::')[-2:]), n)
    if n in ('new', 'pin') and 'boxed' in k and len(args) == 1:
        return C.args[0]
    for x in cand:
        h = H.get(x)
        if h is not None:
            r = h(C)
            if r is not NotImplemented:
                return r
    return unknown(C, cand[-1])


def unknown(C, name):
    ev = C.ev
    ev.note_unknown(name, C.sp)
    vals = [ev.val(a) for a in C.args]
    for a in C.args:
        if ev.isref(a):
            havoc_ref(ev, a, name, vals)
    for a in C.args:
        for x in subterms(ev.val(a)):
            if x.op == 'closure':
                ev.note_unknown('closure passed to ' + name, C.sp)
    return ev.unk(name, C.rty, *vals)


def havoc_ref(ev, r, name, vals):
    old = ev.load(r)
    ev.assign(r, loops.havoc_like(old, lambda s: mk('app', '?' + name + '!', s, *vals)))


# ---------------------------------------------------------------- sequences of things
def rng_seq(r):
    a, b, incl = r.a
    if a is UNDEF:
        a = ZERO
    if b is UNDEF:
        return mk('inf_range', a)
    n = sub(b, a)
    if incl:
        n = add(n, ONE)
    v = fresh('u', 'i')
    return mkseq(v, mk('range', n), TRUE, add(a, v))


def to_seq(ev, v):
    v = ev.val(v)
    if v.op == 'rng':
        return rng_seq(v)
    if v.op == 'gate':
        return gate(v.a[0], to_seq(ev, v.a[1]), to_seq(ev, v.a[2]))
    if v.op == 'rec' and len(v.a) == 2:
        return v
    if v.op == 'variant' and v.a[0] == 'Option':
        return mk('list', v.a[2]) if v.a[1] == 'Some' else NIL
    if v.op in ('mempty', 'mst', 'mstore', 'mfun', 'mext'):
        return mitems(v)
    return v


def seq_of(ev, x, t):
    """the items into_iter() of x (of type t) yields"""
    n = tyname(t)
    ismut = isinstance(t, tuple) and t and t[0] == 'ref' and t[1] and ev.isref(x)
    if ismut and n in ('Vec', 'Map'):
        return iter_mut(ev, x, n)
    v = ev.val(x)
    if ismut:
        ev.assign(x, NIL)
    if n == 'Map':
        return mitems(v)
    if n == 'Set':
        return mkeys(v)
    if n == 'Option':
        return mkglist([(is_variant(v, 'Some'), payload(v, 'Some', 0))])
    return to_seq(ev, v)


def iter_mut(ev, r, n, what='iter'):
    v = ev.load(r)
    while ev.isref(v):
        r, v = v, ev.load(v)
    if n == 'Vec':
        s = as_seq(v)
        if s.op == 'list':
            return mk('list', *[ev.extend(r, ('i', const(i))) for i in range(len(s.a))])
        i = fresh('u', 'i')
        return mkseq(i, mk('range', length(v)), TRUE, ev.extend(r, ('i', i)))
    items = mitems(v)
    if what == 'values':
        return seq_map(items, lambda e: ev.extend(r, ('k', field(e, 0))))
    return seq_map(items, lambda e: mk('tuple', field(e, 0), ev.extend(r, ('k', field(e, 0)))))


def smap(ev, s, f, filt=False):
    """s mapped by f, which evaluates code; filt: f gives the condition to keep"""
    if s.op == 'gate' and not ev.isref(s):
        a, b = s.a[1], s.a[2]
        return ev.ifelse(s.a[0], lambda: smap(ev, a, f, filt), lambda: smap(ev, b, f, filt))
    if s.op in ('list', 'glist'):
        out = []
        for g, e in glist(s):
            if g is TRUE:
                r = f(e)
            else:
                r = ev.ifelse(g, lambda: f(e), lambda: UNDEF)
            if filt:
                out.append((AND(g, ev.bool(r)), e))
            else:
                out.append((g, r))
            if ev.live is FALSE:
                return UNDEF
        return mkglist(out)
    if s.op == 'cat':
        return cat(*[smap(ev, p, f, filt) for p in s.a])
    if s.op in ('astore', 'recarr', 'var', 'app'):
        if s.op == 'app' and s.a[0].startswith('?'):
            ev.note_unknown('map over ' + s.a[0])
        s = as_seq(s)
    if s.op == 'flat':
        v, (src, g, inner) = open_(s)
        r, ok = loops.bound(ev, v, src, g, lambda: smap(ev, inner, f, filt))
        return close('flat', v, v.a[1], src, g, r)
    if s.op == 'inf_range':
        return mk('app', '?map', ('obj', ('?',)), s)
    if s.op != 'seq':
        ev.note_unknown('map over ' + s.op)
        return mk('app', '?map', ('obj', ('?',)), s)
    v, (src, g, e) = open_(s)
    before = dict(ev.store)
    r, pure = loops.bound(ev, v, src, g, lambda: f(e))
    if not pure:
        # the closure has effects: run it as a loop that pushes its results
        ev.store = before
        acc = ev.tmp(NIL)

        def body(x):
            y = f(x)
            if filt:
                c = ev.bool(y)
                ev.ifelse(c, lambda: ev.assign(acc, push(ev.load(acc), x)), lambda: UNIT)
            else:
                ev.assign(acc, push(ev.load(acc), y))
        loops.iterate(ev, s, body, set(), None)
        return ev.load(acc)
    if filt:
        return mkseq(v, src, AND(g, ev.bool(r)), e)
    with range_facts(v, src):
        return mkseq(v, src, g, r)


def flat_of(ev, s, f):
    """concatenation of f(e) for the elements of s"""
    if s.op in ('list', 'glist'):
        return cat(*[(f(e) if g is TRUE else gate(g, f(e), NIL)) for g, e in glist(s)])
    if s.op == 'cat':
        return cat(*[flat_of(ev, p, f) for p in s.a])
    if s.op == 'gate':
        return gate(s.a[0], flat_of(ev, s.a[1], f), flat_of(ev, s.a[2], f))
    if s.op != 'seq':
        s = as_seq(s)
    v, (src, g, e) = open_(s)
    inner, _ = loops.bound(ev, v, src, g, lambda: f(e))
    if inner.op == 'glist' and len(inner.a[0]) == 1:
        return mkseq(v, src, AND(g, inner.a[0][0][0]), inner.a[0][0][1])
    if inner.op == 'list' and len(inner.a) == 1:
        return mkseq(v, src, g, inner.a[0])
    return close('flat', v, v.a[1], src, g, inner)


def build(ev, s, ty):
    """collect sequence s into a value of type ty"""
    ty = under(ty)
    n = tyname(ty)
    if s is UNDEF:
        return UNDEF
    if n == 'Vec':
        return s
    if n == 'Map':
        return mext(mempty(ty[3], ty[4]), s)
    if n == 'Set':
        return set_of(mempty(ty[3], UNIT_TY), s, ty[3])
    if n == 'String':
        return scat_seq(s)
    if n == 'Option':
        bad = s_exists(s, lambda e: is_variant(e, 'None'))
        return gate(bad, NONE, some(build(ev, seq_map(s, lambda e: payload(e, 'Some', 0)), ty[3])))
    if n == 'Result':
        bad = s_exists(s, lambda e: is_variant(e, 'Err'))
        ex, x = s_first(seq_map(s, lambda e: payload(e, 'Err', 0), lambda e: is_variant(e, 'Err')))
        return gate(bad, mk('variant', 'Result', 'Err', x), mk('variant', 'Result', 'Ok', build(ev, seq_map(s, lambda e: payload(e, 'Ok', 0)), ty[3])))
    if n == 'tuple' and len(ty) == 1:
        return UNIT
    ev.note_unknown('collect into ' + str(n))
    return mk('app', '?collect', ('obj', ty), s)


def set_of(M, s, K):
    pairs = seq_map(s, lambda e: mk('tuple', e, UNIT)) if s.op != 'flat' else None
    if pairs is not None and s.op != 'app':
        return mext(M, pairs)
    if s.op == 'app':
        return mk('app', '?set', ('map', K, UNIT_TY), M, s)
    v = keyvar(K)
    kv = keyval(K, v)
    return mfun(v, K, OR(mhas(M, kv), s_exists(s, lambda e: veq(e, kv))), UNIT)


def istext(t):
    return t.op in TEXT or (t.op in ('var', 'app') and t.a[1] == 's') or t.op == 'gate' and istext(t.a[1])


def tparts(t):
    return list(t.a) if t.op == 'scat' else [] if t.op == 'str' and t.a[0] == '' else [t]


def scat(*parts):
    out = []
    todo = list(reversed(parts))
    while todo:
        q = todo.pop()
        if q.op == 'scat':
            todo.extend(reversed(q.a))
        elif q.op == 'str' and q.a[0] == '':
            continue
        elif q.op == 'str' and out and out[-1].op == 'str':
            out[-1] = mk('str', out[-1].a[0] + q.a[0])
        elif q.op == 'gate' and out and out[-1].op == 'gate' and q.a[0] in (out[-1].a[0], NOT(out[-1].a[0])):
            c, x, y = out.pop().a
            x2, y2 = q.a[1:] if q.a[0] is c else q.a[:0:-1]
            todo.append(gate(c, scat(x, x2), scat(y, y2)))
        else:
            out.append(q)
    if not out:
        return mk('str', '')
    return out[0] if len(out) == 1 else mk('scat', *out)


def gmerge_text(c, a, b):
    """one of two texts: what they begin and end with in common stands outside"""
    if not (istext(a) and istext(b)):
        return None
    pa, pb = tparts(a), tparts(b)
    if not pa or not pb:
        return None
    pre, suf = [], []
    while pa and pb:
        x, y = pa[0], pb[0]
        if x is y:
            pre.append(x)
            del pa[0], pb[0]
        elif x.op == y.op == 'str':
            n = 0
            while n < min(len(x.a[0]), len(y.a[0])) and x.a[0][n] == y.a[0][n]:
                n += 1
            if n == 0:
                break
            pre.append(mk('str', x.a[0][:n]))
            pa[0:1] = [mk('str', x.a[0][n:])] if n < len(x.a[0]) else []
            pb[0:1] = [mk('str', y.a[0][n:])] if n < len(y.a[0]) else []
        else:
            break
    while pa and pb:
        x, y = pa[-1], pb[-1]
        if x is y:
            suf.insert(0, x)
            del pa[-1], pb[-1]
        elif x.op == y.op == 'str':
            n = 0
            while n < min(len(x.a[0]), len(y.a[0])) and x.a[0][-1 - n] == y.a[0][-1 - n]:
                n += 1
            if n == 0:
                break
            suf.insert(0, mk('str', x.a[0][-n:]))
            pa[-1:] = [mk('str', x.a[0][:-n])] if n < len(x.a[0]) else []
            pb[-1:] = [mk('str', y.a[0][:-n])] if n < len(y.a[0]) else []
        else:
            break
    if not pre and not suf:
        return None
    return scat(*pre, gate(c, scat(*pa), scat(*pb)), *suf)


TEXT = ('str', 'scat', 'sjoin', 'fmtstr')
for _o in TEXT:
    GATE_MERGE[_o] = gmerge_text


REBUILD['scat'] = scat


def scat_seq(s):
    if s.op in ('list', 'glist'):
        return scat(*[e if g is TRUE else gate(g, e, mk('str', '')) for g, e in glist(s)])
    if s.op == 'cat':
        return scat(*[scat_seq(p) for p in s.a])
    if s.op == 'seq':
        v, (src, g, e) = open_(s)
        return close('sjoin', v, v.a[1], src, g, e)
    return mk('app', '?join', 's', s)


BINDERS['sjoin'] = lambda v, src, g, e: scat_seq(mkseq(v, src, g, e))
REBUILD['sjoin'] = 'binder'


def _flat(v, src, g, inner):
    if src.op == 'range' and isconst(src.a[0]) is not None and 0 <= isconst(src.a[0]) <= 64:
        return cat(*[gate(subst(g, {v: const(k)}), subst(inner, {v: const(k)}), NIL) for k in range(int(isconst(src.a[0])))])
    return close('flat', v, v.a[1], src, g, inner)


BINDERS['flat'] = _flat
REBUILD['flat'] = 'binder'


# ---------------------------------------------------------------- constants and types
def const_value(k, n):
    import math
    last = k.split('::')
    if n == 'INIT' and 'lazy_static' in k:
        return UNIT
    if 'f64' in k:
        if n in ('EPSILON',):
            return const(Fraction(2) ** -52)
        if n == 'INFINITY':
            return INF
        if n == 'NEG_INFINITY':
            return neg(INF)
        if n == 'NAN':
            return NAN
        if n in ('MAX', 'MIN', 'MIN_POSITIVE', 'PI', 'LN_2', 'LN_10', 'SQRT_2', 'TAU', 'FRAC_PI_2'):
            return app('const_' + n, 'f')
        if n == 'E':
            return E
    for t, w in (('i32', 31), ('i64', 63), ('isize', 63), ('i16', 15), ('i8', 7)):
        if t in k and n == 'MAX':
            return const(2 ** w - 1)
        if t in k and n == 'MIN':
            return const(-2 ** w)
    for t, w in (('u32', 32), ('u64', 64), ('usize', 64), ('u16', 16), ('u8', 8)):
        if t in k and n == 'MAX':
            return const(2 ** w - 1)
        if t in k and n == 'MIN':
            return ZERO
    return None


def std_assoc(name, args):
    t = args[0]
    u = under(t)
    if name == 'Target' and isinstance(u, tuple) and u[0] == 'adt' and u[2] in ('Vec', 'Box'):
        return ('slice', u[3])
    if name in ('Item',) and isinstance(u, tuple):
        if u[0] in ('slice', 'array'):
            return u[1]
        if u[0] == 'adt' and u[2] in ('Vec', 'HashSet', 'BTreeSet', 'Option', 'VecDeque'):
            return u[3]
        if u[0] == 'adt' and u[2] in MAPS:
            return ('tuple', u[3], u[4])
    if name == 'Output' and u in ('f64', 'i32', 'i64', 'u32', 'usize'):
        return u
    return None


# ---------------------------------------------------------------- operators on values behind references
BIN = {'Add.add': 'Add', 'Sub.sub': 'Sub', 'Mul.mul': 'Mul', 'Div.div': 'Div', 'Rem.rem': 'Rem',
       'BitAnd.bitand': 'BitAnd', 'BitOr.bitor': 'BitOr', 'BitXor.bitxor': 'BitXor'}


def _months(x):
    return x.a[2] if x.op == 'app' and x.a[0] == 'months' else None


def add_months(ev, d, k):
    y, m, dd = dfield('year', d), dfield('month', d), dfield('day', d)
    t = add(scale(y, 12), m, const(-1), k)
    y2 = mk('app', 'ediv', 'i', t, const(12)) if isconst(k) is None or int(isconst(k)) % 12 else add(y, const(isconst(k) / 12))
    m2 = m if isconst(k) is not None and int(isconst(k)) % 12 == 0 else add(mk('app', 'emod', 'i', t, const(12)), ONE)
    n = dim(y2, m2)
    return ymd(y2, m2, gate(le(dd, n), dd, n))


def binop(C, op):
    ev = C.ev
    a, b = C.v(0), C.v(1)
    ta = under(C.self_ty)
    tn = tyname(ta)
    if tn in ('Set', 'Map'):
        f = {'BitOr': 'union', 'BitAnd': 'intersection', 'Sub': 'difference'}.get(op)
        return set_op(a, b, f, ta[3])
    if tn == 'String' and op == 'Add':
        return scat(a, b)
    if _months(b) is not None:
        return add_months(ev, a, _months(b) if op == 'Add' else neg(_months(b)))
    t = ta if isinstance(ta, str) else ('f64' if op in ('Mul', 'Div') else 'i64')
    if isinstance(ta, tuple) and ta[0] == 'adt' and ta[2] in ('TimeDelta', 'NaiveDate', 'Duration') and op in ('Mul', 'Div') and op == 'Div':
        return idiv(a, b)
    return ev.binop(op, a, b, t, C.sp)


for _k, _o in BIN.items():
    H[_k] = lambda C, _o=_o: binop(C, _o)
    tr, m = _k.split('.')

    def _asg(C, _o=_o):
        ev = C.ev
        old = C.v(0)
        D = Call(ev, C.c, C.env, [old, C.args[1]], C.sp, C.rty, C.atys)
        ev.assign(C.args[0], binop(D, _o))
        return UNIT
    H[f'{tr}Assign.{m}_assign'] = _asg


@model('Neg.neg')
def _(C):
    return neg(C.v(0))


@model('Not.not')
def _(C):
    return NOT(C.ev.bool(C.v(0)))


@model('PartialEq.eq')
def _(C):
    return eqv(C, C.v(0), C.v(1))


def eqv(C, a, b):
    return veq(a, b)


@model('PartialEq.ne')
def _(C):
    return NOT(eqv(C, C.v(0), C.v(1)))


H['PartialOrd.lt'] = lambda C: vlt(C.v(0), C.v(1), True)
H['PartialOrd.le'] = lambda C: vlt(C.v(0), C.v(1), False)
H['PartialOrd.gt'] = lambda C: vlt(C.v(1), C.v(0), True)
H['PartialOrd.ge'] = lambda C: vlt(C.v(1), C.v(0), False)

LESS, EQUAL, GREATER = (mk('variant', 'Ordering', n) for n in ('Less', 'Equal', 'Greater'))


def cmpv(a, b):
    return gate(vlt(a, b, True), LESS, gate(veq(a, b), EQUAL, GREATER))


H['Ord.cmp'] = H['f64.total_cmp'] = lambda C: cmpv(C.v(0), C.v(1))
H['PartialOrd.partial_cmp'] = lambda C: NONE if C.v(0) is TM.NAN or C.v(1) is TM.NAN else some(cmpv(C.v(0), C.v(1)))
H['Ordering.reverse'] = lambda C: gate(is_variant(C.v(0), 'Less'), GREATER, gate(is_variant(C.v(0), 'Equal'), EQUAL, LESS))
H['Ordering.is_lt'] = lambda C: is_variant(C.v(0), 'Less')
H['Ordering.is_le'] = lambda C: NOT(is_variant(C.v(0), 'Greater'))
H['Ordering.is_gt'] = lambda C: is_variant(C.v(0), 'Greater')
H['Ordering.is_ge'] = lambda C: NOT(is_variant(C.v(0), 'Less'))
H['Ordering.is_eq'] = lambda C: is_variant(C.v(0), 'Equal')
H['Ordering.is_ne'] = lambda C: NOT(is_variant(C.v(0), 'Equal'))
H['Ordering.then'] = lambda C: gate(is_variant(C.v(0), 'Equal'), C.v(1), C.v(0))


def vmax(a, b):
    if isnum(a) and isnum(b):
        return maxv(a, b)
    return gate(vlt(b, a, True), a, b)


def vmin(a, b):
    if isnum(a) and isnum(b):
        return minv(a, b)
    return gate(vlt(b, a, True), b, a)


H['Ord.max'] = H['f64.max'] = lambda C: vmax(C.v(0), C.v(1))
H['Ord.min'] = H['f64.min'] = lambda C: vmin(C.v(0), C.v(1))
H['cmp::max'] = H['Ord.max']
H['cmp::min'] = H['Ord.min']


@model('Ord.clamp', 'f64.clamp')
def _(C):
    if isnum(C.v(1)) and isnum(C.v(2)):
        nan = C.v(1) is TM.NAN or C.v(2) is TM.NAN
        C.ev.panic(TRUE if nan else vlt(C.v(2), C.v(1), True), 'explicit', C.sp)
    return vmin(vmax(C.v(0), C.v(1)), C.v(2))


# ---------------------------------------------------------------- numbers
H['f64.abs'] = H['i32.abs'] = H['i64.abs'] = H['i64.unsigned_abs'] = H['i32.unsigned_abs'] = lambda C: absv(C.v(0))
for _f in ('floor', 'ceil', 'round', 'trunc'):
    H['f64.' + _f] = lambda C, _f=_f: rnd(_f, C.v(0))
H['f64.fract'] = lambda C: sub(C.v(0), rnd('trunc', C.v(0)))
H['f64.exp'] = lambda C: exp_(C.v(0))
H['f64.exp_m1'] = lambda C: sub(exp_(C.v(0)), ONE)
H['f64.exp2'] = lambda C: powr(const(2), C.v(0))
H['f64.ln'] = lambda C: ln_(C.v(0))
H['f64.ln_1p'] = lambda C: ln_(add(C.v(0), ONE))
H['f64.log2'] = lambda C: div(ln_(C.v(0)), ln_(const(2)))
H['f64.log10'] = lambda C: div(ln_(C.v(0)), ln_(const(10)))
H['f64.log'] = lambda C: div(ln_(C.v(0)), ln_(C.v(1)))
H['f64.powf'] = H['f64.powi'] = lambda C: powr(C.v(0), C.v(1))
H['f64.sqrt'] = lambda C: powr(C.v(0), const(Fraction(1, 2)))
H['f64.cbrt'] = lambda C: powr(C.v(0), const(Fraction(1, 3)))
H['f64.recip'] = lambda C: powr(C.v(0), const(-1))
H['f64.mul_add'] = lambda C: add(mul(C.v(0), C.v(1)), C.v(2))
H['f64.is_nan'] = lambda C: TRUE if C.v(0) is NAN else FALSE if infinite(C.v(0)) else (atom(app('is_nan', 'b', C.v(0))) if has_partial(C.v(0)) else FALSE)
H['f64.is_infinite'] = lambda C: TRUE if infinite(C.v(0)) else FALSE if C.v(0) is NAN or not has_partial(C.v(0)) else atom(app('is_inf', 'b', C.v(0)))
H['f64.is_finite'] = lambda C: FALSE if C.v(0) is NAN or infinite(C.v(0)) else TRUE if not has_partial(C.v(0)) else atom(app('is_fin', 'b', C.v(0)))
H['f64.signum'] = lambda C: gate(lt0(C.v(0)), const(-1), ONE)
H['f64.copysign'] = lambda C: gate(lt0(C.v(1)), neg(absv(C.v(0))), absv(C.v(0)))
H['f64.is_sign_negative'] = lambda C: lt0(C.v(0))
H['f64.is_sign_positive'] = lambda C: NOT(lt0(C.v(0)))


def infinite(x):
    return x is TM.INF or x is neg(TM.INF)


def has_partial(x):
    """could this number be non-finite with finite inputs (a division or power)"""
    return x.op in ('inf', 'nan') or any(y.op == 'poly' and any(isconst(e) is None or isconst(e) < 0 for m, c in y.a[0] for b, e in m) for y in subterms(x))


@model(*[f'{t}.pow' for t in ('i32', 'u32', 'i64', 'u64', 'usize')])
def _(C):
    return powr(C.v(0), C.v(1))


def floor_cases(a, c):
    """the quotient and the rest of a over the constant c, where a is a multiple of c and a term of few quotients"""
    if isconst(a) is not None or c.denominator != 1 or c < 2:
        return None
    q, r = [], []
    for m, k in P(a):
        if k.denominator != 1 or any(b.op == 'gate' for b, e in m):
            return None
        (q if m != () and k % c == 0 else r).append(mkpoly({m: k}))
    r = add(*r) if r else ZERO
    lo, hi = bounds(r)
    if lo is None or hi is None:
        return None
    lo, hi = lo // c, hi // c
    if hi - lo > 2:
        return None
    k = const(hi)
    for j in range(int(hi) - 1, int(lo) - 1, -1):
        k = gate(lt(r, const(c * (j + 1))), const(j), k)
    return add(scale(add(*q), 1 / Fraction(c)) if q else ZERO, k), sub(r, scale(k, c))


def _emod(a, b):
    ca, cb = isconst(a), isconst(b)
    if ca is not None and cb is not None and cb:
        return const(ca % abs(cb))
    if cb is not None and cb > 0:
        if a.op == 'gate':
            return gate(a.a[0], _emod(a.a[1], b), _emod(a.a[2], b))
        r = floor_cases(a, cb)
        if r is not None:
            return r[1]
    if nonneg(a) and cb is not None and cb > 0:
        return imod(a, b)
    return mk('app', 'emod', 'i', a, b)


def _ediv(a, b):
    ca, cb = isconst(a), isconst(b)
    if ca is not None and cb is not None and cb > 0:
        return const(ca // cb)
    if cb is not None and cb > 0:
        if a.op == 'gate':
            return gate(a.a[0], _ediv(a.a[1], b), _ediv(a.a[2], b))
        r = floor_cases(a, cb)
        if r is not None:
            return r[0]
    if nonneg(a) and cb is not None and cb > 0:
        return idiv(a, b)
    return mk('app', 'ediv', 'i', a, b)


APPR['emod'] = lambda s, a, b: _emod(a, b)
APPR['ediv'] = lambda s, a, b: _ediv(a, b)
for _t in ('i32', 'i64', 'u32', 'usize', 'isize', 'u64'):
    H[_t + '.rem_euclid'] = lambda C: _emod(C.v(0), C.v(1))
    H[_t + '.div_euclid'] = lambda C: _ediv(C.v(0), C.v(1))
    H[_t + '.is_multiple_of'] = lambda C: C.ev.binop('Eq', imod(C.v(0), C.v(1)), ZERO, 'i32', C.sp)
    H[_t + '.saturating_sub'] = (lambda C: gate(lt(C.v(0), C.v(1)), ZERO, sub(C.v(0), C.v(1)))) if _t[0] == 'u' else (lambda C: sub(C.v(0), C.v(1)))
    H[_t + '.saturating_add'] = H[_t + '.wrapping_add'] = lambda C: add(C.v(0), C.v(1))
    H[_t + '.wrapping_sub'] = lambda C: sub(C.v(0), C.v(1))
    H[_t + '.abs_diff'] = lambda C: absv(sub(C.v(0), C.v(1)))
    H[_t + '.checked_sub'] = (lambda C: gate(lt(C.v(0), C.v(1)), NONE, some(sub(C.v(0), C.v(1))))) if _t[0] == 'u' else (lambda C: some(sub(C.v(0), C.v(1))))
    H[_t + '.checked_add'] = lambda C: some(add(C.v(0), C.v(1)))
    H[_t + '.checked_mul'] = lambda C: some(mul(C.v(0), C.v(1)))
    H[_t + '.signum'] = lambda C: gate(lt0(C.v(0)), const(-1), gate(eq0(C.v(0)), ZERO, ONE))
    H[_t + '.div_ceil'] = lambda C: idiv(add(C.v(0), C.v(1), const(-1)), C.v(1))
H['bool.then_some'] = lambda C: gate(C.ev.bool(C.v(0)), some(C.v(1)), NONE)
H['bool.then'] = lambda C: C.ev.ifelse(C.ev.bool(C.v(0)), lambda: some(C.call(C.v(1))), lambda: NONE)


# ---------------------------------------------------------------- conversions, cloning, memory
for _n in ('Clone.clone', 'ToOwned.to_owned', 'Borrow.borrow', 'AsRef.as_ref', 'Cow.into_owned',
           'convert::identity', 'hint::must_use', 'must_use', 'black_box', 'Vec.to_vec', 'Vec.into_boxed_slice',
           'Vec.into_vec', 'Vec.as_slice', 'String.as_str', 'String.as_ref', 'str.to_string', 'str.to_owned', 'str.into_string',
           'Box.new', 'Vec.into_iter_sorted', 'Rc.new', 'Arc.new', 'Cell.new', 'RefCell.new', 'MutexGuard.deref'):
    H[_n] = lambda C: C.v(0)
H['box_assume_init_into_vec_unsafe'] = H['boxed::box_assume_init_into_vec_unsafe'] = lambda C: C.v(0)
H['Box.new_uninit'] = lambda C: UNIT
H['ToString.to_string'] = lambda C: C.v(0) if tyname(C.self_ty) in ('str', 'String') else shown(C.ev, 'display', C.v(0), C.self_ty)


@model('Deref.deref')
def _(C):
    return C.v(0)


@model('DerefMut.deref_mut', 'AsMut.as_mut', 'BorrowMut.borrow_mut', 'Vec.as_mut_slice')
def _(C):
    return C.args[0]


@model('From.from', 'Into.into')
def _(C):
    dst = C.self_ty if C.c['n'] == 'from' else under(C.rty)
    src = C.atys[0] if C.atys else None
    n = tyname(dst)
    if C.c['n'] == 'into':
        # the blanket implementation: From of the destination
        i, m = C.ev.F.find_impl('core::convert::From', dst, [dst, src])
        if i is not None and i['fns'].get('from') in C.ev.F.bodies:
            return C.ev.call_body(C.ev.F.bodies[i['fns']['from']], C.args, m)
    v = C.v(0)
    if isbool(v) and (n in TM_INTS or n == 'f64'):
        return gate(v, ONE, ZERO)
    if n in ('Map', 'Set', 'Vec') and tyname(src) in ('Vec', 'Map', 'Set'):
        s = seq_of(C.ev, C.args[0], src)
        return build(C.ev, s, dst)
    if n == 'Option' and tyname(src) != 'Option':
        return some(v)
    if n in TM_INTS or n == 'f64' or n == 'f32' or n == 'String' or n == tyname(src) or n in ('str', 'Box', 'Rc', 'Arc'):
        return v
    return NotImplemented


TM_INTS = ('i8', 'i16', 'i32', 'i64', 'i128', 'isize', 'u8', 'u16', 'u32', 'u64', 'u128', 'usize')


@model('TryFrom.try_from', 'TryInto.try_into')
def _(C):
    v = C.v(0)
    dst = C.self_ty if C.c['n'] == 'try_from' else None
    if dst is None:
        u = under(C.rty)
        dst = u[3] if isinstance(u, tuple) and u[0] == 'adt' and u[2] == 'Result' else None
    ok = mk('variant', 'Result', 'Ok', v)
    if isinstance(dst, str) and dst[0] == 'u' and not nonneg(v):
        return gate(lt0(v), mk('variant', 'Result', 'Err', UNIT), ok)
    return ok


@model('Default.default')
def _(C):
    return default(C.ev, C.self_ty or C.rty)


def default(ev, t):
    t = under(t)
    n = tyname(t)
    if n in TM_INTS or n == 'f64':
        return ZERO
    if n == 'bool':
        return FALSE
    if n in ('String', 'str'):
        return mk('str', '')
    if n == 'Vec':
        return NIL
    if n == 'Map':
        return mempty(t[3], t[4])
    if n == 'Set':
        return mempty(t[3], UNIT_TY)
    if n == 'Option':
        return NONE
    if n == 'tuple':
        return mk('tuple', *[default(ev, x) for x in t[1:]])
    a = VL.TypeInfo.adt(t[1]) if isinstance(t, tuple) and t[0] == 'adt' else None
    if a and a['kind'] == 'struct':
        m = dict(zip(a['g'], t[3:]))
        return mk('rec', t[1], *[default(ev, tsubst(f['ty'], m)) for f in a['variants'][0]['fields']])
    ev.note_unknown('default of ' + str(n))
    return ev.unk('default', t)


@model('mem::replace')
def _(C):
    old = C.ev.load(C.args[0])
    C.ev.assign(C.args[0], C.v(1))
    return old


@model('mem::take')
def _(C):
    old = C.ev.load(C.args[0])
    C.ev.assign(C.args[0], default(C.ev, C.rty))
    return old


@model('mem::swap')
def _(C):
    a, b = C.ev.load(C.args[0]), C.ev.load(C.args[1])
    C.ev.assign(C.args[0], b)
    C.ev.assign(C.args[1], a)
    return UNIT


H['mem::drop'] = H['drop'] = H['mem::forget'] = lambda C: UNIT
H['discriminant_value'] = H['intrinsics::discriminant_value'] = H['mem::discriminant'] = lambda C: C.ev.discr(C.v(0), under(C.atys[0]) if C.atys else None)


@model('Fn.call', 'FnMut.call_mut', 'FnOnce.call_once')
def _(C):
    a = C.v(1)
    args = list(a.a) if a.op == 'tuple' else [a]
    return C.ev.call_value(C.args[0], args, C.sp, C.rty)


@model('Lazy.get', 'LazyLock.force', 'LazyLock.get', 'OnceLock.get_or_init', 'OnceCell.get_or_init', 'LazyCell.force')
def _(C):
    f = C.v(1) if len(C.args) > 1 else C.v(0)
    return lazy(C.ev, f)


def lazy(ev, f):
    key = ('lazy', f)
    r = ev.memo_static.get(key)
    if r is None:
        ev.memo_static[key] = UNDEF
        r = ev.memo_static[key] = ev.isolated(lambda: ev.val(ev.call_value(f, [], None)))
    return r


H['LazyLock.new'] = H['LazyCell.new'] = lambda C: lazy(C.ev, C.v(0))
H['LazyLock:Deref.deref'] = H['Lazy:Deref.deref'] = lambda C: C.v(0)


# ---------------------------------------------------------------- Option and Result
def ocase(C, v, vn, fs, fn):
    return C.ev.ifelse(is_variant(v, vn), lambda: fs(payload(v, vn, 0)), fn)


def ov(C):
    """(value, success variant, its wrapper)"""
    v = C.v(0)
    if tyname(C.self_ty) == 'Result':
        return v, 'Ok', lambda x: mk('variant', 'Result', 'Ok', x)
    return v, 'Some', some


def both(n):
    def d(f):
        H['Option.' + n] = f
        H['Result.' + n] = f
        return f
    return d


@both('unwrap')
def _(C):
    v, vn, w = ov(C)
    bad = NOT(is_variant(v, vn))
    C.ev.panic(bad, 'unwrap', C.sp)
    C.ev.die(bad)
    return payload(v, vn, 0)


H['Option.expect'] = H['Result.expect'] = H['Option.unwrap']
H['Option.unwrap_unchecked'] = H['Option.unwrap']


@both('unwrap_or')
def _(C):
    v, vn, w = ov(C)
    d = C.v(1)
    return gate(is_variant(v, vn), C.ev.val(payload(v, vn, 0)) if vn == 'Some' else payload(v, vn, 0), d)


@both('unwrap_or_else')
def _(C):
    v, vn, w = ov(C)
    if vn == 'Ok':
        return ocase(C, v, vn, lambda x: x, lambda: C.call(C.args[1], payload(v, 'Err', 0)))
    return ocase(C, v, vn, lambda x: x, lambda: C.call(C.args[1]))


@both('unwrap_or_default')
def _(C):
    v, vn, w = ov(C)
    return gate(is_variant(v, vn), C.ev.val(payload(v, vn, 0)), default(C.ev, C.rty))


def other(C, v):
    return mk('variant', 'Result', 'Err', payload(v, 'Err', 0)) if tyname(C.self_ty) == 'Result' else NONE


@both('map')
def _(C):
    v, vn, w = ov(C)
    return ocase(C, v, vn, lambda x: w(C.call(C.args[1], x)), lambda: other(C, v))


@both('and_then')
def _(C):
    v, vn, w = ov(C)
    return ocase(C, v, vn, lambda x: C.call(C.args[1], x), lambda: other(C, v))


@both('map_or')
def _(C):
    v, vn, w = ov(C)
    return ocase(C, v, vn, lambda x: C.call(C.args[2], x), lambda: C.v(1))


@both('map_or_else')
def _(C):
    v, vn, w = ov(C)
    return ocase(C, v, vn, lambda x: C.call(C.args[2], x), lambda: C.call(C.args[1]))


@both('is_some_and')
def _(C):
    v, vn, w = ov(C)
    return ocase(C, v, vn, lambda x: C.ev.bool(C.call(C.args[1], x)), lambda: FALSE)


H['Result.is_ok_and'] = H['Result.is_some_and']
H['Option.is_none_or'] = lambda C: ocase(C, C.v(0), 'Some', lambda x: C.ev.bool(C.call(C.args[1], x)), lambda: TRUE)
H['Option.is_some'] = lambda C: is_variant(C.v(0), 'Some')
H['Option.is_none'] = lambda C: NOT(is_variant(C.v(0), 'Some'))
H['Result.is_ok'] = lambda C: is_variant(C.v(0), 'Ok')
H['Result.is_err'] = lambda C: is_variant(C.v(0), 'Err')
H['Option.copied'] = H['Option.cloned'] = lambda C: deref_payload(C)
H['Option.as_ref'] = H['Option.as_deref'] = H['Option.iter'] = lambda C: C.v(0)
H['Result.as_ref'] = H['Option.as_ref']
H['Option.ok_or'] = lambda C: gate(is_variant(C.v(0), 'Some'), mk('variant', 'Result', 'Ok', payload(C.v(0), 'Some', 0)), mk('variant', 'Result', 'Err', C.v(1)))
H['Result.ok'] = lambda C: gate(is_variant(C.v(0), 'Ok'), some(payload(C.v(0), 'Ok', 0)), NONE)
H['Option.or'] = lambda C: gate(is_variant(C.v(0), 'Some'), C.v(0), C.v(1))
H['Option.and'] = lambda C: gate(is_variant(C.v(0), 'Some'), C.v(1), NONE)
H['Option.or_else'] = lambda C: ocase(C, C.v(0), 'Some', lambda x: C.v(0), lambda: C.call(C.args[1]))
H['Option.zip'] = lambda C: gate(AND(is_variant(C.v(0), 'Some'), is_variant(C.v(1), 'Some')), some(mk('tuple', payload(C.v(0), 'Some', 0), payload(C.v(1), 'Some', 0))), NONE)
H['Option.flatten'] = lambda C: gate(is_variant(C.v(0), 'Some'), payload(C.v(0), 'Some', 0), NONE)
H['Option.filter'] = lambda C: ocase(C, C.v(0), 'Some', lambda x: gate(C.ev.bool(C.call(C.args[1], x)), some(x), NONE), lambda: NONE)
H['Result.map_err'] = lambda C: ocase(C, C.v(0), 'Ok', lambda x: mk('variant', 'Result', 'Ok', x), lambda: mk('variant', 'Result', 'Err', C.call(C.args[1], payload(C.v(0), 'Err', 0))))
H['Option.ok_or_else'] = lambda C: ocase(C, C.v(0), 'Some', lambda x: mk('variant', 'Result', 'Ok', x), lambda: mk('variant', 'Result', 'Err', C.call(C.args[1])))


def deref_payload(C):
    v = C.v(0)
    return gate(is_variant(v, 'Some'), some(C.ev.val(payload(v, 'Some', 0))), NONE)


@model('Option.as_mut', 'Option.as_deref_mut')
def _(C):
    r = C.args[0]
    v = C.ev.load(r)
    return gate(is_variant(v, 'Some'), some(C.ev.extend(r, ('v', 'Some', 0))), NONE)


@model('Option.take')
def _(C):
    v = C.ev.load(C.args[0])
    C.ev.assign(C.args[0], NONE)
    return v


@model('Option.replace', 'Option.insert')
def _(C):
    v = C.ev.load(C.args[0])
    C.ev.assign(C.args[0], some(C.v(1)))
    return v if C.c['n'] == 'replace' else C.ev.extend(C.args[0], ('v', 'Some', 0))


@model('Option.get_or_insert', 'Option.get_or_insert_with')
def _(C):
    ev = C.ev
    v = ev.load(C.args[0])
    x = ev.ifelse(is_variant(v, 'Some'), lambda: v, lambda: some(C.v(1) if C.c['n'] == 'get_or_insert' else C.call(C.args[1])))
    ev.assign(C.args[0], x)
    return ev.extend(C.args[0], ('v', 'Some', 0))


@model('Try.branch')
def _(C):
    v = C.v(0)
    if tyname(C.self_ty) == 'Result':
        return gate(is_variant(v, 'Ok'), mk('variant', 'ControlFlow', 'Continue', payload(v, 'Ok', 0)),
                    mk('variant', 'ControlFlow', 'Break', mk('variant', 'Result', 'Err', payload(v, 'Err', 0))))
    return gate(is_variant(v, 'Some'), mk('variant', 'ControlFlow', 'Continue', payload(v, 'Some', 0)),
                mk('variant', 'ControlFlow', 'Break', NONE))


H['FromResidual.from_residual'] = lambda C: C.v(0)
H['Try.from_output'] = lambda C: some(C.v(0)) if tyname(C.self_ty) == 'Option' else mk('variant', 'Result', 'Ok', C.v(0))


# ---------------------------------------------------------------- maps and sets
def mapty(C):
    return under(C.self_ty)


@model('Map.new', 'Map.with_capacity')
def _(C):
    t = under(C.rty) if tyname(C.rty) == 'Map' else mapty(C)
    return mempty(t[3], t[4])


@model('Set.new', 'Set.with_capacity')
def _(C):
    t = under(C.rty) if tyname(C.rty) == 'Set' else mapty(C)
    return mempty(t[3], UNIT_TY)


H['Map.get'] = lambda C: gate(mhas(C.v(0), C.v(1)), some(mget(C.v(0), C.v(1))), NONE)
H['Map.get_key_value'] = lambda C: gate(mhas(C.v(0), C.v(1)), some(mk('tuple', C.v(1), mget(C.v(0), C.v(1)))), NONE)
H['Set.get'] = lambda C: gate(mhas(C.v(0), C.v(1)), some(C.v(1)), NONE)
H['Map.contains_key'] = H['Set.contains'] = lambda C: mhas(C.v(0), C.v(1))
H['Map.iter'] = H['Map.into_iter'] = lambda C: mitems(C.v(0))
H['Map.keys'] = H['Map.into_keys'] = H['Set.iter'] = H['Set.into_iter'] = lambda C: mkeys(C.v(0))
H['Map.values'] = H['Map.into_values'] = lambda C: seq_map(mitems(C.v(0)), lambda e: field(e, 1))
H['Map.len'] = H['Set.len'] = lambda C: mlen(C.v(0))
H['Map.is_empty'] = H['Set.is_empty'] = lambda C: NOT(s_exists(mkeys(C.v(0)), lambda e: TRUE))
H['Map.values_mut'] = lambda C: iter_mut(C.ev, C.args[0], 'Map', 'values')
H['Map.iter_mut'] = lambda C: iter_mut(C.ev, C.args[0], 'Map')
H['Vec.iter_mut'] = lambda C: iter_mut(C.ev, C.args[0], 'Vec')


@model('Map.get_mut')
def _(C):
    M = C.v(0)
    k = C.v(1)
    return gate(mhas(M, k), some(C.ev.extend(C.args[0], ('k', k))), NONE)


@model('Map.insert')
def _(C):
    M, k, x = C.v(0), C.v(1), C.v(2)
    old = gate(mhas(M, k), some(mget(M, k)), NONE)
    C.ev.assign(C.args[0], mset(M, k, TRUE, x))
    return old


@model('Set.insert', 'Set.replace')
def _(C):
    M, k = C.v(0), C.v(1)
    new = NOT(mhas(M, k))
    C.ev.assign(C.args[0], mset(M, k, TRUE, UNIT))
    return new


@model('Map.remove', 'Map.shift_remove')
def _(C):
    M, k = C.v(0), C.v(1)
    old = gate(mhas(M, k), some(mget(M, k)), NONE)
    C.ev.assign(C.args[0], mset(M, k, FALSE, UNDEF))
    return old


@model('Set.remove')
def _(C):
    M, k = C.v(0), C.v(1)
    C.ev.assign(C.args[0], mset(M, k, FALSE, UNDEF))
    return mhas(M, k)


@model('Map.clear', 'Set.clear')
def _(C):
    t = mapty(C)
    C.ev.assign(C.args[0], mempty(t[3], t[4] if tyname(t) == 'Map' else UNIT_TY))
    return UNIT


@model('Map.retain', 'Set.retain')
def _(C):
    ev = C.ev
    isset = tyname(C.self_ty) == 'Set'
    M = C.v(0)
    f = C.args[1]
    base = C.args[0]

    def keep(k, v):
        """(condition, value after the closure)"""
        if isset:
            return ev.bool(ev.call_value(f, [k], C.sp)), UNIT
        t = ev.tmp(v)
        c = ev.bool(ev.call_value(f, [k, t], C.sp))
        return c, ev.load(t)
    es = const_entries(M)
    if es is not None:
        out = M
        for k, p, v in es:
            t = ev.ifelse(p, lambda: mk('tuple', *keep(k, v)), lambda: mk('tuple', FALSE, UNDEF))
            c, v2 = t.a
            out = mset(out, k, AND(p, c), v2)
        ev.assign(base, out)
        return UNIT
    K = keyty(M)
    if K is None:
        return NotImplemented
    v = keyvar(K)
    kv = keyval(K, v)
    val = mget(M, kv)
    cell = []

    def run():
        cell.append(keep(kv, val))
        return UNIT
    _, pure = loops.bound(ev, v, mk('keys', K, False), mhas(M, kv), run)
    if not pure:
        ev.note_unknown('retain with effects', C.sp)
    c, v2 = cell[0]
    ev.assign(base, mfun(v, K, AND(mhas(M, kv), c), v2))
    return UNIT


@model('Map.entry')
def _(C):
    e = mk('entry', C.args[0], C.v(1))
    return gate(mhas(C.v(0), C.v(1)), mk('variant', 'Entry', 'Occupied', e), mk('variant', 'Entry', 'Vacant', e))


def place_of(C):
    """map and key of an entry"""
    e = C.args[0]
    if C.ev.isref(e):
        e = C.v(0)
    while e.op in ('gate', 'variant'):
        e = e.a[1] if e.op == 'gate' else e.a[2]
    return e.a


def entry(C, f):
    r, k = place_of(C)
    ev = C.ev
    M = ev.load(r)
    has = mhas(M, k)
    x = ev.ifelse(has, lambda: mget(M, k), f)
    M = ev.load(r)
    ev.assign(r, mset(M, k, TRUE, x))
    return ev.extend(r, ('k', k))


H['Entry.or_insert'] = lambda C: entry(C, lambda: C.v(1))
H['Entry.or_insert_with'] = lambda C: entry(C, lambda: C.call(C.args[1]))
H['Entry.or_default'] = lambda C: entry(C, lambda: default(C.ev, C.rty))
H['Entry.key'] = H['OccupiedEntry.key'] = H['VacantEntry.key'] = lambda C: place_of(C)[1]
H['OccupiedEntry.get'] = lambda C: mget(C.ev.load(place_of(C)[0]), place_of(C)[1])
H['OccupiedEntry.get_mut'] = H['OccupiedEntry.into_mut'] = lambda C: C.ev.extend(place_of(C)[0], ('k', place_of(C)[1]))


@model('VacantEntry.insert', 'OccupiedEntry.insert')
def _(C):
    r, k = place_of(C)
    ev = C.ev
    old = mget(ev.load(r), k)
    ev.assign(r, mset(ev.load(r), k, TRUE, C.v(1)))
    return old if tyname(C.self_ty) == 'OccupiedEntry' else ev.extend(r, ('k', k))


@model('OccupiedEntry.remove')
def _(C):
    r, k = place_of(C)
    ev = C.ev
    old = mget(ev.load(r), k)
    ev.assign(r, mset(ev.load(r), k, FALSE, UNDEF))
    return old




@model('Entry.and_modify')
def _(C):
    e = C.args[0]
    r, k = place_of(C)
    ev = C.ev
    has = mhas(ev.load(r), k)
    ev.ifelse(has, lambda: (C.call(C.args[1], ev.extend(r, ('k', k))), UNIT)[1], lambda: UNIT)
    return e


@model('Entry.insert_entry')
def _(C):
    r, k = place_of(C)
    C.ev.assign(r, mset(C.ev.load(r), k, TRUE, C.v(1)))
    return C.args[0]


@model('Extend.extend')
def _(C):
    ev = C.ev
    M = C.v(0)
    n = tyname(C.self_ty)
    t = C.atys[1] if C.atys else None
    s = seq_of(ev, C.args[1], t)
    M = C.v(0)
    if n == 'Map':
        r = mext(M, s)
    elif n == 'Set':
        r = set_of(M, s, keyty(M) or under(C.self_ty)[3])
    elif n == 'String':
        r = scat(M, scat_seq(s))
    else:
        r = cat(M, s)
    ev.assign(C.args[0], r)
    return UNIT


@model('Map.append', 'Set.append')
def _(C):
    r = mext(C.v(0), mitems(C.v(1)))
    C.ev.assign(C.args[0], r)
    t = mapty(C)
    C.ev.assign(C.args[1], mempty(t[3], t[4] if tyname(t) == 'Map' else UNIT_TY))
    return UNIT


def set_op(a, b, f, K):
    v = keyvar(K)
    kv = keyval(K, v)
    x, y = mhas(a, kv), mhas(b, kv)
    h = {'union': OR(x, y), 'intersection': AND(x, y), 'difference': AND(x, NOT(y)), 'symmetric_difference': XOR(x, y)}[f]
    return mfun(v, K, h, UNIT)


for _f in ('union', 'intersection', 'difference', 'symmetric_difference'):
    H['Set.' + _f] = lambda C, _f=_f: mkeys(set_op(C.v(0), C.v(1), _f, under(C.self_ty)[3]))
H['Set.is_subset'] = lambda C: NOT(s_exists(mkeys(C.v(0)), lambda k: NOT(mhas(C.v(1), k))))
H['Set.is_disjoint'] = lambda C: NOT(s_exists(mkeys(C.v(0)), lambda k: mhas(C.v(1), k)))


def first_opt(s):
    ex, x = s_first(s)
    return gate(ex, some(x), NONE)


H['Map.first_key_value'] = lambda C: first_opt(mitems(C.v(0)))
H['Map.last_key_value'] = lambda C: first_opt(reverse(mitems(C.v(0))))
H['Set.first'] = lambda C: first_opt(mkeys(C.v(0)))
H['Set.last'] = lambda C: first_opt(reverse(mkeys(C.v(0))))


@model('Map.drain', 'Set.drain')
def _(C):
    M = C.v(0)
    t = under(C.self_ty)
    isset = tyname(t) == 'Set'
    C.ev.assign(C.args[0], mempty(t[3], UNIT_TY if isset else t[4]))
    return mkeys(M) if isset else mitems(M)


@model('Map.range', 'Set.range')
def _(C):
    r = C.v(1)
    if r.op != 'rng':
        return NotImplemented
    a, b, incl = r.a
    isset = tyname(C.self_ty) == 'Set'
    if a is not UNDEF and b is not UNDEF:
        C.ev.panic(OR(vlt(b, a), FALSE if incl else FALSE), 'range', C.sp)

    def inside(k):
        return AND(TRUE if a is UNDEF else vlt(a, k, False), TRUE if b is UNDEF else vlt(k, b, not incl))
    s = mkeys(C.v(0)) if isset else mitems(C.v(0))
    return seq_map(s, lambda e: e, lambda e: inside(e if isset else field(e, 0))) or NotImplemented


@model('Map.pop_first', 'Map.pop_last', 'Set.pop_first', 'Set.pop_last')
def _(C):
    M = C.v(0)
    isset = tyname(C.self_ty) == 'Set'
    s = mkeys(M) if isset else mitems(M)
    if C.c['n'] == 'pop_last':
        s = reverse(s)
    r = first_opt(s)
    k = payload(r, 'Some', 0)
    k = k if isset else field(k, 0)
    C.ev.assign(C.args[0], gate(is_variant(r, 'Some'), mset(M, k, FALSE, UNDEF), M))
    return r


# ---------------------------------------------------------------- vectors
@model('Vec.drain')
def _(C):
    s = as_seq(C.v(0))
    r = C.v(1)
    n = length(s)
    a, b = (ZERO, UNDEF) if r.op != 'rng' else r.a[:2]
    if r.op == 'rng':
        C.ev.range_check(s, r, C.sp)
    a = ZERO if a is UNDEF else a
    if b is UNDEF:
        C.ev.assign(C.args[0], take_skip(s, ZERO, a) if a is not ZERO else NIL)
        return take_skip(s, a, None) if a is not ZERO else s
    if r.a[2]:
        b = add(b, ONE)
    C.ev.assign(C.args[0], cat(take_skip(s, ZERO, a), take_skip(s, b, None)))
    return take_skip(s, a, sub(b, a))


@model('Vec.map')
def _(C):
    return smap(C.ev, to_seq(C.ev, C.v(0)), lambda e: C.call(C.args[1], e)) if under(C.self_ty)[0] == 'array' else NotImplemented


H['Vec.new'] = H['Vec.with_capacity'] = lambda C: NIL
H['Vec.len'] = lambda C: length(C.v(0))
H['Vec.is_empty'] = lambda C: NOT(lt0(neg(length(C.v(0)))))
H['Vec.iter'] = H['Vec.drain_all'] = lambda C: to_seq(C.ev, C.v(0))
H['vec::from_elem'] = H['from_elem'] = lambda C: loops.repeat(C.v(0), C.v(1))
H['iter::repeat_n'] = H['repeat_n'] = lambda C: loops.repeat(C.v(0), C.v(1))
H['iter::once'] = H['once::once'] = lambda C: mk('list', C.v(0))
H['iter::empty'] = H['empty::empty'] = lambda C: NIL
H['slice::from_ref'] = lambda C: mk('list', C.v(0))


@model('Vec.push', 'Vec.push_back')
def _(C):
    x = C.v(1)
    C.ev.assign(C.args[0], push(C.v(0), x))
    return UNIT


@model('Vec.extend_from_slice', 'Vec.append')
def _(C):
    C.ev.assign(C.args[0], cat(C.v(0), to_seq(C.ev, C.v(1))))
    if C.c['n'] == 'append':
        C.ev.assign(C.args[1], NIL)
    return UNIT


@model('Vec.clear')
def _(C):
    C.ev.assign(C.args[0], NIL)
    return UNIT


@model('Vec.reverse')
def _(C):
    C.ev.assign(C.args[0], reverse(C.v(0)))
    return UNIT


def pairwise(C, ety, f):
    """a relation of two elements as a term: λx λy. f(x, y)"""
    so = VL.sort_of(ety)
    x, y = fresh(so, 'x'), fresh(so, 'y')
    ev = C.ev
    p = len(ev.panics)
    saved, ev.live = ev.live, TRUE
    r = ev.val(f(*[VL.expand(ety, lambda s, v=v: v) for v in (x, y)]))
    ev.live = saved
    if len(ev.panics) > p:
        del ev.panics[p:]
        return None
    return close('lam', x, so, close('lam', y, so, r))


def rearranged(C, how, ety, rel):
    ev = C.ev
    s = C.v(0)
    while isinstance(ety, tuple) and ety and ety[0] == 'ref':
        ety = ety[2]
    r = pairwise(C, ety, rel)
    if r is None:
        return NotImplemented
    node = mk('app', how, ('vec', ety), s, r)
    n = length(s) if how == 'sorted' else length(node)
    v = fresh('u', 'i')
    ev.assign(C.args[0], mkseq(v, mk('range', n), TRUE, VL.idx_(node, v, ety)))
    return UNIT


def elem_of(C):
    t = under(C.atys[0]) if C.atys else None
    if isinstance(t, tuple) and t[0] in ('slice', 'array'):
        return t[1]
    return t[3] if isinstance(t, tuple) and t[0] == 'adt' and t[2] in ('Vec', 'VecDeque') else elem_ty(C.v(0))


@model('Vec.sort', 'Vec.sort_unstable', 'Vec.sort_by', 'Vec.sort_unstable_by', 'Vec.sort_by_key', 'Vec.sort_unstable_by_key', 'Vec.sort_by_cached_key')
def _(C):
    e = elem_of(C)
    if e is None or not C.ev.isref(C.args[0]):
        return NotImplemented
    n = C.c['n']
    if n.endswith('key'):
        after = lambda x, y: vlt(C.ev.val(C.call(C.args[1], y)), C.ev.val(C.call(C.args[1], x)), True)
    elif n.endswith('by'):
        after = lambda x, y: is_variant(C.ev.val(C.call(C.args[1], x, y)), 'Greater')
    else:
        after = lambda x, y: vlt(y, x, True)
    return rearranged(C, 'sorted', e, after)


@model('Vec.dedup', 'Vec.dedup_by', 'Vec.dedup_by_key')
def _(C):
    e = elem_of(C)
    if e is None or not C.ev.isref(C.args[0]):
        return NotImplemented
    n = C.c['n']
    if n.endswith('key'):
        same = lambda x, y: veq(C.ev.val(C.call(C.args[1], x)), C.ev.val(C.call(C.args[1], y)))
    elif n.endswith('by'):
        same = lambda x, y: C.ev.val(C.call(C.args[1], y, x))
    else:
        same = lambda x, y: veq(x, y)
    return rearranged(C, 'deduped', e, same)


@model('Vec.truncate')
def _(C):
    C.ev.assign(C.args[0], take_skip(C.v(0), ZERO, C.v(1)))
    return UNIT


@model('Vec.pop')
def _(C):
    s = C.v(0)
    n = length(s)
    ne = lt0(neg(n))
    r = gate(ne, some(at(s, sub(n, ONE))), NONE)
    if s.op == 'cat' and s.a[-1].op == 'list':
        C.ev.assign(C.args[0], cat(*s.a[:-1], mk('list', *s.a[-1].a[:-1])))
    else:
        C.ev.assign(C.args[0], take_skip(s, ZERO, gate(ne, sub(n, ONE), ZERO)))
    return r


@model('Vec.resize')
def _(C):
    s, n, x = C.v(0), C.v(1), C.v(2)
    L = length(s)
    C.ev.assign(C.args[0], gate(le(n, L), take_skip(s, ZERO, n), cat(s, loops.repeat(x, sub(n, L)))))
    return UNIT


@model('Vec.fill')
def _(C):
    C.ev.assign(C.args[0], loops.repeat(C.v(1), length(C.v(0))))
    return UNIT


@model('Vec.swap')
def _(C):
    ev = C.ev
    s, i, j = C.v(0), C.v(1), C.v(2)
    ev.bounds_check(s, i, C.sp)
    ev.bounds_check(s, j, C.sp)
    a, b = at(s, i), at(s, j)
    ev.assign(C.args[0], astore(astore(s, i, b), j, a))
    return UNIT


def nonempty(s):
    return lt0(neg(length(s)))


H['Vec.first'] = lambda C: gate(nonempty(C.v(0)), some(at(C.v(0), ZERO)), NONE)
H['Vec.last'] = lambda C: gate(nonempty(C.v(0)), some(at(C.v(0), sub(length(C.v(0)), ONE))), NONE)


@model('Vec.last_mut', 'Vec.first_mut')
def _(C):
    s = C.v(0)
    i = ZERO if C.c['n'] == 'first_mut' else sub(length(s), ONE)
    return gate(nonempty(s), some(C.ev.extend(C.args[0], ('i', i))), NONE)


@model('Vec.get')
def _(C):
    s, i = C.v(0), C.v(1)
    if i.op == 'rng':
        return NotImplemented
    return gate(lt(i, length(s)), some(at(s, i)), NONE)


@model('Vec.get_mut')
def _(C):
    s, i = C.v(0), C.v(1)
    return gate(lt(i, length(s)), some(C.ev.extend(C.args[0], ('i', i))), NONE)


H['Vec.contains'] = lambda C: s_exists(to_seq(C.ev, C.v(0)), lambda e: veq(e, C.v(1)))
H['Vec.concat'] = lambda C: flat_of(C.ev, C.v(0), lambda e: e)


@model('Vec.windows')
def _(C):
    s, k = C.v(0), isconst(C.v(1))
    if k is None or k > 4:
        return NotImplemented
    k = int(k)
    L = sub(length(s), const(k - 1))
    v = fresh('u', 'i')
    with range_facts(v, mk('range', L)):
        e = mk('list', *[at(s, add(v, const(j))) for j in range(k)])
    return mkseq(v, mk('range', L), TRUE, e)


@model('Vec.split_first')
def _(C):
    s = C.v(0)
    return gate(nonempty(s), some(mk('tuple', at(s, ZERO), take_skip(s, ONE, None))), NONE)


@model('Vec.split_last')
def _(C):
    s = C.v(0)
    n = sub(length(s), ONE)
    return gate(nonempty(s), some(mk('tuple', at(s, n), take_skip(s, ZERO, n))), NONE)


@model('Vec.split_at')
def _(C):
    s, k = C.v(0), C.v(1)
    C.ev.range_check(s, mk('rng', k, UNDEF, False), C.sp)
    return mk('tuple', take_skip(s, ZERO, k), take_skip(s, k, None))


@model('Index.index')
def _(C):
    ev = C.ev
    n = tyname(C.self_ty)
    v, i = C.v(0), C.v(1)
    if n == 'Map':
        h = mhas(v, i)
        ev.panic(NOT(h), 'unwrap', C.sp)
        ev.die(NOT(h))
        return mget(v, i)
    if n == 'Vec':
        if i.op == 'rng':
            ev.range_check(v, i, C.sp)
            a, b, incl = i.a
            a = ZERO if a is UNDEF else a
            if b is UNDEF:
                return take_skip(v, a, None)
            return take_skip(v, a, add(sub(b, a), ONE) if incl else sub(b, a))
        ev.bounds_check(v, i, C.sp)
        return at(v, i)
    return NotImplemented


@model('IndexMut.index_mut')
def _(C):
    ev = C.ev
    if tyname(C.self_ty) == 'Vec':
        i = C.v(1)
        if i.op == 'rng':
            return NotImplemented
        ev.bounds_check(C.v(0), i, C.sp)
        return ev.extend(C.args[0], ('i', i))
    return NotImplemented


# ---------------------------------------------------------------- iterators
for _n in ('IntoIterator.into_iter', 'Vec.into_iter'):
    H[_n] = lambda C: seq_of(C.ev, C.args[0], C.self_ty if C.c.get('trait_n') else (C.atys[0] if C.atys else C.self_ty))
for _n in ('copied', 'cloned', 'by_ref', 'fuse', 'peekable', 'into_iter', 'as_slice'):
    H['Iterator.' + _n] = lambda C: seq_map(it(C), C.ev.val) if C.c['n'] in ('copied', 'cloned') and any(C.ev.isref(x) for x in children(it(C).a)) else (C.args[0] if C.c['n'] == 'by_ref' else it(C))


def it(C, i=0):
    """the sequence behind an iterator argument (an iterator behind &mut is consumed)"""
    x = C.args[i]
    s = seq_of(C.ev, x, C.atys[i] if C.atys else (C.self_ty if i == 0 else None))
    return s


@model('Iterator.map')
def _(C):
    return smap(C.ev, it(C), lambda e: C.call(C.args[1], e))


@model('Iterator.filter')
def _(C):
    return smap(C.ev, it(C), lambda e: C.call(C.args[1], e), True)


@model('Iterator.inspect')
def _(C):
    s = it(C)
    smap(C.ev, s, lambda e: C.call(C.args[1], e))
    return s


@model('Iterator.filter_map')
def _(C):
    s = smap(C.ev, it(C), lambda e: C.call(C.args[1], e))
    return keep_some(s)


def keep_some(s):
    if s.op == 'flat':
        v, (src, g, inner) = open_(s)
        return close('flat', v, v.a[1], src, g, keep_some(inner))
    r = seq_map(s, lambda o: o, lambda o: is_variant(o, 'Some'))
    if r is None:
        return mk('app', '?keep', ('obj', ('?',)), s)
    return seq_map(r, lambda o: payload(o, 'Some', 0))


@model('Iterator.flat_map', 'Iterator.flatten')
def _(C):
    ev = C.ev
    s = it(C)

    def f(e):
        r = C.call(C.args[1], e) if C.c['n'] == 'flat_map' else e
        r = ev.val(r)
        if is_option(r):
            return mkglist([(is_variant(r, 'Some'), payload(r, 'Some', 0))])
        if r.op in ('mempty', 'mst', 'mstore', 'mfun', 'mext'):
            return mitems(r)
        return to_seq(ev, r)
    return flat_of(ev, s, f)


def is_option(r):
    if r.op == 'gate':
        return is_option(r.a[1]) or is_option(r.a[2])
    return r.op == 'variant' and r.a[0] == 'Option'


@model('Iterator.enumerate')
def _(C):
    s = it(C)
    z = zip_(s, mk('inf_range', ZERO))
    return seq_map(z, lambda t: mk('tuple', field(t, 1), field(t, 0))) or z


@model('Iterator.zip', 'iter::zip')
def _(C):
    return zip_(it(C), C.seq(1))


@model('Iterator.chain')
def _(C):
    return cat(it(C), C.seq(1))


@model('Iterator.rev', 'DoubleEndedIterator.rev')
def _(C):
    return reverse(it(C))


@model('Iterator.skip')
def _(C):
    return take_skip(it(C), C.v(1), None)


@model('Iterator.take')
def _(C):
    s = it(C)
    if s.op == 'inf_range':
        v = fresh('u', 'i')
        return mkseq(v, mk('range', C.v(1)), TRUE, add(s.a[0], v))
    if s.op == 'app' and s.a[0] == 'repeat':
        return loops.repeat(s.a[2], C.v(1))
    return take_skip(s, ZERO, C.v(1))


H['iter::repeat'] = H['repeat::repeat'] = lambda C: mk('app', 'repeat', ('obj', ('?',)), C.v(0))


@model('Iterator.step_by')
def _(C):
    s, k = it(C), C.v(1)
    if s.op != 'list' and not positional(s):
        s = as_seq(s) if s.op in ('astore', 'recarr', 'var', 'app') else s
    if not positional(s):
        return NotImplemented
    n = length(s)
    m = idiv(add(n, k, const(-1)), k)
    v = fresh('u', 'i')
    return mkseq(v, mk('range', m), TRUE, at(s, mul(v, k)))


@model('Iterator.fold', 'DoubleEndedIterator.rfold', 'Iterator.rfold')
def _(C):
    ev = C.ev
    f = C.args[2]
    xs = reverse(it(C)) if C.c['n'] == 'rfold' else it(C)
    if C.ismut(1) and ev.isref(C.args[1]):
        # the accumulator is a place: every round hands on the place it was given
        r0 = ev.target(C.args[1])

        def round_(x):
            y = C.call(f, r0, x)
            if y is not UNDEF and (not ev.isref(y) or ev.target(y) is not r0):
                ev.note_unknown('assign through a folded reference', C.sp)
        loops.iterate(ev, xs, round_, set(), C.sp)
        return r0
    acc = ev.tmp(C.v(1))

    def body(x):
        ev.assign(acc, ev.val(C.call(f, ev.load(acc), x)))
    loops.iterate(ev, xs, body, set(), C.sp)
    return ev.load(acc)


@model('Iterator.try_fold')
def _(C):
    return NotImplemented


def stop_unless(ev, name, label, go, last=None):
    """leaves the loop called label when the Option or Result go is None or Err"""
    bad = is_variant(go, 'None') if name == 'Option' else is_variant(go, 'Err') if name == 'Result' else None
    if bad is None:
        return None
    stop(ev, label, bad, lambda: last is not None and ev.assign(last, go))
    return payload(go, 'Some' if name == 'Option' else 'Ok', 0)


def stop(ev, label, bad, then=None):
    """leaves the loop called label when bad"""
    from evalr import Exit

    def leave():
        if then is not None:
            then()
        if ev.live is not FALSE:
            ev.exits.append(Exit('brk', label, ev.live, UNIT, dict(ev.store)))
        ev.live = FALSE
        return UNDEF
    ev.ifelse(bad, leave, lambda: UNIT)


def enum_of(r):
    while r.op == 'gate':
        r = r.a[1] if r.a[1] is not UNDEF else r.a[2]
    if r.op == 'variant':
        return r.a[0]
    return r.a[1][1] if r.op in ('var', 'app') and isinstance(r.a[1], tuple) and r.a[1][0] in ('enum', 'adt') else None


@model('Iterator.scan')
def _(C):
    ev = C.ev
    st = ev.tmp(C.v(1))
    acc = ev.tmp(NIL)
    lab = fresh('u', 'stop')

    def body(x):
        r = ev.val(C.call(C.args[2], st, x))
        if ev.live is FALSE:
            return
        y = stop_unless(ev, 'Option', lab, r)
        if ev.live is not FALSE:
            ev.assign(acc, push(ev.load(acc), y))
    loops.iterate(ev, it(C), body, {lab}, C.sp)
    return ev.load(acc)


@model('Iterator.map_while')
def _(C):
    ev = C.ev
    acc = ev.tmp(NIL)
    lab = fresh('u', 'stop')

    def body(x):
        r = ev.val(C.call(C.args[1], x))
        if ev.live is FALSE:
            return
        y = stop_unless(ev, 'Option', lab, r)
        if ev.live is not FALSE:
            ev.assign(acc, push(ev.load(acc), y))
    loops.iterate(ev, it(C), body, {lab}, C.sp)
    return ev.load(acc)


@model('Iterator.try_for_each')
def _(C):
    ev = C.ev
    n = tyname(C.rty)
    if n not in ('Option', 'Result'):
        return NotImplemented
    ok = some(UNIT) if n == 'Option' else mk('variant', 'Result', 'Ok', UNIT)
    out = ev.tmp(ok)
    lab = fresh('u', 'stop')
    loops.iterate(ev, it(C), lambda x: stop_unless(ev, n, lab, ev.val(C.call(C.args[1], x)), out), {lab}, C.sp)
    return ev.load(out)


@model('Iterator.reduce')
def _(C):
    ev = C.ev
    s = it(C)
    n = length(s)
    if isconst(n) is None and not (positional(s) or s.op in ('astore', 'recarr', 'var', 'app')):
        return NotImplemented
    first = at(s, ZERO) if s.op != 'list' else s.a[0] if s.a else UNDEF
    if first is UNDEF:
        return NONE

    def go():
        acc = ev.tmp(first)
        loops.iterate(ev, take_skip(s, ONE, None), lambda x: ev.assign(acc, ev.val(C.call(C.args[1], ev.load(acc), x))), set(), C.sp)
        return some(ev.load(acc))
    return ev.ifelse(le0(n), lambda: NONE, go)


@model('Iterator.eq', 'Iterator.ne')
def _(C):
    r = veq(seq_map_val(C.ev, it(C)), seq_map_val(C.ev, C.seq(1)))
    return r if C.c['n'] == 'eq' else NOT(r)


@model('Iterator.for_each')
def _(C):
    ev = C.ev
    loops.iterate(ev, it(C), lambda x: C.call(C.args[1], x), set(), C.sp)
    return UNIT


H['Iterator.sum'] = lambda C: s_sum(it(C), C.ev.val)
H['Iterator.product'] = lambda C: s_prod(seq_map(it(C), C.ev.val))
H['Sum.sum'] = lambda C: s_sum(it(C), C.ev.val)
H['Iterator.count'] = H['ExactSizeIterator.len'] = lambda C: length(it(C))


@model('Iterator.collect')
def _(C):
    s = seq_map_val(C.ev, it(C))
    return build(C.ev, s, C.rty)


def seq_map_val(ev, s):
    from evalr import has_ref
    if has_ref(s):
        r = seq_map(s, lambda e: e)
        return r if r is not None else s
    return s


@model('FromIterator.from_iter')
def _(C):
    return build(C.ev, C.seq(0), C.self_ty)


@model('Iterator.unzip', 'Iterator.partition')
def _(C):
    ev = C.ev
    u = under(C.rty)
    s = it(C)
    if C.c['n'] == 'unzip':
        return mk('tuple', build(ev, seq_map(s, lambda e: field(e, 0)), u[1]), build(ev, seq_map(s, lambda e: field(e, 1)), u[2]))
    a = smap(ev, s, lambda e: C.call(C.args[1], e), True)
    b = smap(ev, s, lambda e: NOT(ev.bool(C.call(C.args[1], e))), True)
    return mk('tuple', build(ev, a, u[1]), build(ev, b, u[2]))


@model('Iterator.any')
def _(C):
    ev = C.ev
    t = smap(ev, it(C), lambda e: ev.bool(C.call(C.args[1], e)), True)
    return s_exists(t, lambda e: TRUE)


@model('Iterator.all')
def _(C):
    ev = C.ev
    t = smap(ev, it(C), lambda e: NOT(ev.bool(C.call(C.args[1], e))), True)
    return NOT(s_exists(t, lambda e: TRUE))


@model('Iterator.find')
def _(C):
    return first_opt(smap(C.ev, it(C), lambda e: C.call(C.args[1], e), True))


@model('Iterator.find_map')
def _(C):
    return first_opt(keep_some(smap(C.ev, it(C), lambda e: C.call(C.args[1], e))))


@model('Iterator.position')
def _(C):
    ev = C.ev
    s = it(C)
    z = zip_(s, mk('inf_range', ZERO))
    t = smap(ev, z, lambda e: C.call(C.args[1], field(e, 0)), True)
    return first_opt(seq_map(t, lambda e: field(e, 1)))


@model('Iterator.last')
def _(C):
    return first_opt(reverse(it(C)))


@model('Iterator.nth')
def _(C):
    s, i = it(C), C.v(1)
    if isconst(i) == 0:
        return first_opt(s)
    if positional(s) or s.op in ('astore', 'var', 'app', 'recarr'):
        return gate(lt(i, length(s)), some(at(s, i)), NONE)
    return NotImplemented


@model('Iterator.next', 'DoubleEndedIterator.next_back')
def _(C):
    ev = C.ev
    r = C.args[0]
    s = to_seq(ev, ev.val(r))
    if C.c['n'] == 'next_back':
        s = reverse(s)
    if s.op == 'inf_range':
        if ev.isref(r):
            ev.assign(r, mk('rng', add(s.a[0], ONE), UNDEF, False))
        return some(s.a[0])
    out = first_opt(s)
    rest = take_skip(s, ONE, None)
    if ev.isref(r):
        ev.assign(r, rest if C.c['n'] == 'next' else reverse(rest))
    return out


def extreme(s, which, key=None):
    """Option of the extreme element"""
    key = key or (lambda e: e)
    if s.op == 'gate':
        return gate(s.a[0], extreme(s.a[1], which, key), extreme(s.a[2], which, key))
    if s.op in ('list', 'glist'):
        cur = NONE
        for g, e in glist(s):
            p = payload(cur, 'Some', 0)
            if cur is NONE:
                new = some(e)
            else:
                if which == 'max':
                    better = vlt(key(p), key(e), False)
                else:
                    better = vlt(key(e), key(p), True)
                if key(e) is e and isnum(e):
                    w = vmax(p, e) if which == 'max' else vmin(p, e)
                    new = some(gate(is_variant(cur, 'Some'), w, e))
                else:
                    new = some(gate(AND(is_variant(cur, 'Some'), NOT(better)), p, e))
            cur = gate(g, new, cur)
        return cur
    if s.op not in ('seq',):
        if s.op in ('astore', 'recarr', 'var', 'app'):
            s = as_seq(s)
        else:
            return None
    v, (src, g, e) = open_(s)
    ex = exists(v, src, g)
    ke = key(e)
    if src.op == 'keys' and e is v:
        w = reverse(s) if (which == 'max') != src.a[1] else s
        return first_opt(w)
    if not (isnum(ke) and ke is e):
        return None
    return gate(ex, some(extr(v, src, g, e, which, UNDEF)), NONE)


def extr(v, src, g, e, which, init):
    if src.op == 'range':
        n = isconst(src.a[0])
        if n is not None and n <= 64:
            cur = init
            for k in range(int(max(n, 0))):
                m = {v: const(k)}
                x, gg = subst(e, m), subst(g, m)
                y = x if cur is UNDEF else (maxv(cur, x) if which == 'max' else minv(cur, x))
                cur = gate(gg, y, cur)
            return cur
    if which == 'min':
        return neg(extr(v, src, g, neg(e), 'max', neg(init) if init is not UNDEF else UNDEF))
    return close('extr', v, v.a[1], src, g, e, which, init)


BINDERS['extr'] = extr
REBUILD['extr'] = 'binder'


@model('Iterator.max', 'Iterator.min')
def _(C):
    r = extreme(seq_map_val(C.ev, it(C)), C.c['n'])
    return r if r is not None else NotImplemented


@model('Iterator.max_by', 'Iterator.min_by', 'Iterator.max_by_key', 'Iterator.min_by_key')
def _(C):
    ev = C.ev
    n = C.c['n']
    s = it(C)
    which = n[:3]
    f = C.args[1]
    if n.endswith('key'):
        r = extreme(s, which, lambda e: ev.val(C.call(f, e)))
        return r if r is not None else NotImplemented
    # recognise the natural order of the elements
    if s.op in ('seq', 'list'):
        so = next((e for e in ([open_(s)[1][2]] if s.op == 'seq' else list(s.a))), None)
        if so is not None and isnum(so):
            a, b = fresh('f', 'a'), fresh('f', 'b')
            o = ev.val(C.call(f, a, b))
            if o is cmpv(a, b):
                r = extreme(s, which)
                return r if r is not None else NotImplemented
    return NotImplemented


@model('Iterator.take_while')
def _(C):
    ev = C.ev
    s = it(C)
    if s.op == 'list':
        out, live = [], TRUE
        for e in s.a:
            live = AND(live, ev.bool(C.call(C.args[1], e)))
            out.append((live, e))
        return mkglist(out)
    if not positional(s):
        if s.op in ('astore', 'recarr', 'var', 'app'):
            s = as_seq(s)
        elif s.op != 'seq':
            return NotImplemented
    acc = ev.tmp(NIL)
    lab = fresh('u', 'stop')

    def body(x):
        p = ev.bool(C.call(C.args[1], x))
        if ev.live is FALSE:
            return
        stop(ev, lab, NOT(p))
        if ev.live is not FALSE:
            ev.assign(acc, push(ev.load(acc), x))
    loops.iterate(ev, s, body, {lab}, C.sp)
    return ev.load(acc)


@model('Iterator.skip_while')
def _(C):
    return NotImplemented


@model('Range.contains')
def _(C):
    r, x = C.v(0), C.v(1)
    a, b, incl = r.a
    c = TRUE
    if a is not UNDEF:
        c = AND(c, vlt(a, x, False))
    if b is not UNDEF:
        c = AND(c, vlt(x, b, not incl))
    return c


H['RangeInclusive.contains'] = H['RangeFrom.contains'] = H['RangeTo.contains'] = H['Range.contains']
H['RangeInclusive.new'] = lambda C: mk('rng', C.v(0), C.v(1), True)
H['RangeInclusive.start'] = lambda C: C.v(0).a[0]
H['RangeInclusive.end'] = lambda C: C.v(0).a[1]
H['Range.is_empty'] = lambda C: le(C.v(0).a[1], C.v(0).a[0])


# ---------------------------------------------------------------- calendar
@model('NaiveDate.from_ymd_opt')
def _(C):
    y, m, d = C.v(0), C.v(1), C.v(2)
    return gate(valid_ymd(y, m, d), some(ymd(y, m, d)), NONE)


@model('NaiveDate.from_yo_opt')
def _(C):
    y, o = C.v(0), C.v(1)
    return gate(valid_yo(y, o), some(yo(y, o)), NONE)


for _f in ('year', 'month', 'day', 'ordinal'):
    H['Datelike.' + _f] = lambda C, _f=_f: dfield(_f, C.v(0))
for _f in ('month', 'day', 'ordinal'):
    H[f'Datelike.{_f}0'] = lambda C, _f=_f: sub(dfield(_f, C.v(0)), ONE)
H['NaiveDate.leap_year'] = lambda C: leap_cond(dfield('year', C.v(0)))
H['NaiveDate.signed_duration_since'] = lambda C: sub(C.v(0), C.v(1))
H['Datelike.num_days_from_ce'] = lambda C: day_number(C.v(0))
H['TimeDelta.days'] = H['Days.new'] = lambda C: C.v(0)
H['TimeDelta.num_days'] = lambda C: day_number(C.v(0))
H['TimeDelta.weeks'] = lambda C: scale(C.v(0), 7)
H['TimeDelta.hours'] = lambda C: scale(C.v(0), Fraction(1, 24))
H['TimeDelta.num_weeks'] = lambda C: idiv(C.v(0), const(7))
H['TimeDelta.try_days'] = lambda C: some(C.v(0))
H['TimeDelta.zero'] = lambda C: ZERO
H['TimeDelta.abs'] = lambda C: absv(C.v(0))
H['Months.new'] = lambda C: mk('app', 'months', 'i', C.v(0))
H['NaiveDate.checked_add_signed'] = H['NaiveDate.checked_add_days'] = lambda C: some(add(C.v(0), C.v(1)))
H['NaiveDate.checked_sub_signed'] = H['NaiveDate.checked_sub_days'] = lambda C: some(sub(C.v(0), C.v(1)))
H['NaiveDate.checked_add_months'] = lambda C: some(add_months(C.ev, C.v(0), _months(C.v(1))))
H['NaiveDate.checked_sub_months'] = lambda C: some(add_months(C.ev, C.v(0), neg(_months(C.v(1)))))
H['NaiveDate.succ_opt'] = lambda C: some(add(C.v(0), ONE))
H['NaiveDate.pred_opt'] = lambda C: some(sub(C.v(0), ONE))


def with_(C, **kw):
    d = C.v(0)
    y, m, dd = (kw.get(f, dfield(f, d)) for f in ('year', 'month', 'day'))
    return gate(valid_ymd(y, m, dd), some(ymd(y, m, dd)), NONE)


H['Datelike.with_day'] = lambda C: with_(C, day=C.v(1))
H['Datelike.with_month'] = lambda C: with_(C, month=C.v(1))
H['Datelike.with_year'] = lambda C: with_(C, year=C.v(1))
H['Datelike.with_ordinal'] = lambda C: gate(valid_yo(dfield('year', C.v(0)), C.v(1)), some(yo(dfield('year', C.v(0)), C.v(1))), NONE)


# ---------------------------------------------------------------- text
H['String.new'] = lambda C: mk('str', '')
H['String.with_capacity'] = H['String.new']
H['String.is_empty'] = H['str.is_empty'] = lambda C: veq(C.v(0), mk('str', ''))


@model('str.repeat', 'String.repeat')
def _(C):
    n, x = isconst(C.v(1)), C.v(0)
    if n is not None and 0 <= n <= 200:
        return scat(*[x] * int(n))
    return scat_seq(mkseq(fresh('u', 'u'), mk('range', C.v(1)), TRUE, x))


@model('String.push_str', 'String.push')
def _(C):
    x = C.v(1)
    if x.op == 'char':
        x = mk('str', x.a[0])
    C.ev.assign(C.args[0], scat(C.v(0), x))
    return UNIT


@model('Write.write_str', 'Write.write_fmt', 'Formatter.write_str', 'Formatter.write_fmt', 'Write.write_char', 'Formatter.pad')
def _(C):
    if tyname(C.self_ty) == 'String' or tyname(C.atys[0]) in ('String', 'Formatter'):
        x = C.v(1)
        if x.op == 'char':
            x = mk('str', x.a[0])
        C.ev.assign(C.args[0], scat(C.v(0), x))
        return mk('variant', 'Result', 'Ok', UNIT)
    return NotImplemented


DEFAULT = ' '


class Spec:
    """the options of a placeholder"""
    def __init__(self, flags=None, width=None, prec=None):
        f = flags if flags is not None else 0x20 | 3 << 29
        self.width = width if width is not None and (width.op != 'poly' or isconst(width) is not None) else width
        self.prec = prec
        self.fill, self.align = chr(f & 0x1fffff), ('<', '>', '^', '')[f >> 29 & 3]
        self.extra = ''.join(n for b, n in ((21, '+'), (22, '-'), (23, '#'), (24, '0'), (25, 'x'), (26, 'X')) if f >> b & 1)
        if width is None:
            self.fill, self.align = ' ', ''

    def plain(self):
        return self.width is None and self.prec is None and not self.extra

    def text(self):
        return f"{self.fill if self.fill != ' ' else ''}{self.align}{self.extra}"


def shown(ev, kind, x, ty, spec=None):
    """the text a placeholder becomes"""
    spec = spec or Spec()
    tn = tyname(ty)
    if x.op == 'fmttext':
        x = x.a[0]
        tn = 'str'
    x = ev.val(x)
    if x is UNDEF:
        return UNDEF
    if kind == 'display' and tn in ('str', 'String', 'Arguments'):
        if spec.width is None and spec.prec is None:
            return x
        w = isconst(spec.width) if spec.width is not None else None
        if x.op == 'str' and w is not None and spec.prec is None:
            n = max(0, int(w) - len(x.a[0]))
            l = {'': 0, '<': 0, '>': n, '^': n // 2}[spec.align]
            return mk('str', spec.fill * l + x.a[0] + spec.fill * (n - l))
    if kind == 'display' and spec.plain():
        c = isconst(x)
        if c is not None and c.denominator == 1:
            return mk('str', str(int(c)))
        if x.op == 'char':
            return mk('str', x.a[0])
    t = ty
    while isinstance(t, tuple) and t and t[0] == 'ref':
        t = t[2]
    if isinstance(t, tuple) and t[0] == 'adt':
        i, m = ev.F.find_impl('core::fmt::' + kind.capitalize(), t)
        if i is not None and not i.get('derived') and spec.plain():
            k = i['fns'].get('fmt')
            if k in ev.F.bodies:
                cell = ev.tmp(mk('str', ''))
                ev.call_body(ev.F.bodies[k], [x, cell], dict(m))
                return ev.load(cell)
        if i is not None and i.get('derived') and kind == 'debug' and x.op == 'variant' and len(x.a) == 2:
            return mk('str', x.a[1])
    none = const(-1)
    return mk('app', 'shown', 's', x, spec.width or none, spec.prec or none, mk('str', f'{kind} {tn} {spec.text()}'))


for _n, _k in (('new_display', 'display'), ('new_debug', 'debug'), ('new_lower_exp', 'lowerexp'), ('new_upper_exp', 'upperexp'), ('new_lower_hex', 'lowerhex'), ('new_upper_hex', 'upperhex')):
    H['Argument.' + _n] = lambda C, _k=_k: mk('fmtarg', _k, C.v(0), next(iter(C.atys), None))
H['Argument.from_usize'] = lambda C: C.v(0)


def template(bs, args, ev):
    """the text of a format template (core::fmt::Arguments) with its arguments"""
    out, i, nxt = [], 0, 0

    def u(n):
        nonlocal i
        i += n
        return int.from_bytes(bytes(bs[i - n:i]), 'little')
    while i < len(bs):
        n = u(1)
        if n == 0:
            break
        if n <= 0x80:
            k = n if n < 0x80 else u(2)
            i += k
            out.append(mk('str', bytes(bs[i - k:i]).decode()))
            continue
        flags = u(4) if n & 1 else None
        width = const(u(2)) if n & 2 else None
        prec = const(u(2)) if n & 4 else None
        if n & 8:
            nxt = u(2)
        if n & 16:
            width = args[int(isconst(width))]
        if n & 32:
            prec = args[int(isconst(prec))]
        a = args[nxt]
        nxt += 1
        if a.op != 'fmtarg':
            return None
        out.append(shown(ev, a.a[0], a.a[1], a.a[2], Spec(flags, width, prec)))
    return UNDEF if any(x is UNDEF for x in out) else scat(*out)


@model('Arguments.new', 'Arguments.new_v1', 'Arguments.new_const', 'Arguments.new_v1_formatted', 'Arguments.from_str', 'Arguments.from_str_nonconst')
def _(C):
    a = [C.v(i) for i in range(len(C.args))]
    if len(a) == 1 and istext(a[0]):
        return a[0]
    if len(a) == 2 and a[0].op == 'list' and a[1].op == 'list' and all(isconst(x) is not None for x in a[0].a):
        r = template([int(isconst(x)) for x in a[0].a], a[1].a, C.ev)
        if r is not None:
            return r
    return mk('app', '?format', 's', *a)


H['fmt::format'] = H['alloc::fmt::format'] = H['format'] = lambda C: C.v(0)


@model('fs::write')
def _(C):
    C.ev.written.append((C.ev.live, C.v(0), C.v(1)))
    return mk('app', 'written', ('obj', ('?',)), C.v(0), C.v(1))


H['Vec.join'] = lambda C: mk('app', 'join', 's', C.v(0), C.v(1))
