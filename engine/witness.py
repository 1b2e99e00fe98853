"""Random interpretation of value graphs.

A comparison of two graphs that algebra leaves open is tried at points: both graphs (never the program) are given values at
randomly chosen inputs that fulfil the law's assumptions. Different values show the graphs to be different functions. Numbers are
rationals, or decimals of 50 digits where powers and logarithms make them irrational; a point at which anything is undefined, not
modelled or too close to call is given up."""
import datetime
import decimal
import math
import random
import sys
import time
from decimal import Decimal as D
from fractions import Fraction as Fr

import terms as TM
import values as VL
from terms import *
from values import TypeInfo

decimal.getcontext().prec = 50
decimal.getcontext().Emax = 10 ** 8
decimal.getcontext().Emin = -10 ** 8


class Skip(Exception):
    pass


class _S:
    def __repr__(self):
        return '?'


SKIP = _S()
TINY = D(10) ** -28
INFV = float('inf')


def dec(x):
    if isinstance(x, D):
        return x
    if isinstance(x, float):
        raise Skip('infinite')
    return D(x.numerator) / D(x.denominator)


def norm(x):
    if isinstance(x, Fr) and (x.numerator.bit_length() > 1200 or x.denominator.bit_length() > 1200):
        return dec(x)
    return x


def add2(a, b):
    if isinstance(a, D) or isinstance(b, D):
        return dec(a) + dec(b)
    if isinstance(a, float) or isinstance(b, float):
        raise Skip('infinite')
    return a + b


def mul2(a, b):
    if isinstance(a, D) or isinstance(b, D):
        if isinstance(a, Fr) and a == 0 or isinstance(b, Fr) and b == 0:
            return Fr(0)
        return dec(a) * dec(b)
    if isinstance(a, float) or isinstance(b, float):
        raise Skip('infinite')
    return norm(a * b)


def pow2(b, e):
    if isinstance(e, Fr) and e.denominator == 1:
        n = e.numerator
        if n == 0:
            return Fr(1)
        if b == 0:
            if n < 0:
                raise Skip('pole')
            return Fr(0)
        if n < 0 and isinstance(b, D) and abs(b) < TINY:
            raise Skip('too close to a pole')
        if isinstance(b, Fr) and abs(n) * max(b.numerator.bit_length(), b.denominator.bit_length()) < 4000:
            return b ** n
        if abs(n) > 10 ** 6:
            raise Skip('huge')
        return dec(b) ** n
    if b == 0:
        if e > 0:
            return Fr(0)
        raise Skip('pole')
    if b < 0:
        raise Skip('power of a negative number')
    if b == 1:
        return Fr(1)
    x = dec(b).ln() * dec(e)
    if abs(x) > 2000:
        raise Skip('huge')
    return x.exp()


def sgn(x, scale=1):
    """sign of x (which came from terms of size scale)"""
    if isinstance(x, D):
        if abs(x) <= TINY * max(D(1), dec(scale)):
            raise Skip('too close to call')
    return (x > 0) - (x < 0)


class W:
    """values of terms at one point"""
    def __init__(self, F, inputs, budget=400000):
        self.F = F
        self.env = dict(inputs)
        self.gen = {}
        self.ng = 0
        self.memo = {}
        self.bv = {}
        self.left = budget
        self.roots = []
        self.loops = {}

    def bind(self, v, x):
        self.ng += 1
        self.gen[v] = self.ng
        self.env[v] = x

    def unbind(self, v, old):
        if old is None:
            self.gen.pop(v, None)
            self.env.pop(v, None)
        else:
            self.gen[v], self.env[v] = old

    def saved(self, v):
        return (self.gen[v], self.env[v]) if v in self.gen else None

    def key(self, t):
        b = self.bv.get(t)
        if b is None:
            b = self.bv[t] = tuple(v for v in t.fv if isinstance(v.a[0], tuple) or '~' in v.a[0])
        if not b:
            return t
        return (t,) + tuple(self.gen.get(v) for v in b)

    def ev(self, t):
        k = self.key(t)
        r = self.memo.get(k)
        if r is None:
            self.left -= 1
            if self.left < 0:
                raise Skip('budget')
            try:
                r = self.eval(t)
            except Skip as e:
                self.memo[k] = e
                raise
            self.memo[k] = r
        elif isinstance(r, Skip):
            raise r
        return r

    def evs(self, t):
        try:
            return self.ev(t)
        except Skip:
            return SKIP

    def num(self, t):
        x = self.ev(t)
        if not isinstance(x, (Fr, D, float)):
            raise Skip(f'not a number: {t.op}')
        return x

    def eval(self, t):
        f = getattr(self, 'e_' + t.op, None)
        if f is None:
            raise Skip('no value for ' + t.op)
        return f(t, *t.a)

    # ---------------------------------------------------------- plain
    def e_var(self, t, name, sort):
        if t in self.env:
            return self.ok(self.env[t])
        if name in self.env:
            return self.env[name]
        raise Skip(f'unbound {name}')

    def ok(self, x):
        if x is SKIP:
            raise Skip('part without value')
        return x

    def e_true(self, t):
        return True

    def e_false(self, t):
        return False

    def e_undef(self, t):
        raise Skip('undefined')

    def e_nan(self, t):
        raise Skip('nan')

    def e_inf(self, t):
        return INFV

    def e_euler(self, t):
        return D(1).exp()

    def e_poly(self, t, items):
        return self.poly(t)[0]

    def poly(self, t):
        acc, scale = Fr(0), Fr(0)
        for m, c in P(t):
            x = self.mono(m, c)
            if isinstance(x, float) and len(P(t)) == 1:
                return x, Fr(1)
            acc = add2(acc, x)
            if isinstance(x, D) or isinstance(scale, D):
                scale = max(dec(scale), abs(dec(x)))
            else:
                scale = max(scale, abs(x))
        if isinstance(acc, D) and scale > 10 ** 25:
            raise Skip('huge')
        return norm(acc), scale

    def mono(self, m, c):
        x = c
        pole = None
        for b, e in m:
            try:
                bv = self.num(b)
                y = pow2(bv, self.num(e)) if e is not ONE else bv
            except Skip as s:
                pole = s
                continue
            if y == 0 and isinstance(y, Fr):
                return Fr(0)
            if pole is None:
                if isinstance(y, float):
                    x = y if x > 0 else -y
                    continue
                x = mul2(x, y)
        if pole is not None:
            raise pole
        return x

    def e_abs(self, t, x):
        return abs(self.num(x))

    def e_gate(self, t, c, a, b):
        return self.ev(a) if self.ev(c) else self.ev(b)

    def e_bdd(self, t, a, hi, lo):
        while True:
            x = self.ev(a)
            if x is not True and x is not False:
                raise Skip('not a condition')
            t = hi if x else lo
            if t.op != 'bdd':
                return self.ev(t)
            a, hi, lo = t.a

    def scaled(self, p):
        if p.op == 'poly':
            return self.poly(p)
        return self.num(p), Fr(1)

    def e_lt0(self, t, p):
        x, s = self.scaled(p)
        return sgn(x, s) < 0

    def e_le0(self, t, p):
        x, s = self.scaled(p)
        return sgn(x, s) <= 0

    def e_eq0(self, t, p):
        x, s = self.scaled(p)
        return sgn(x, s) == 0

    def e_divis(self, t, n, c):
        x = self.num(n)
        if isinstance(x, D):
            raise Skip('divis')
        return (x / c).denominator == 1

    def e_in(self, t, s, names):
        x = self.ev(s)
        if not (isinstance(x, tuple) and x[0] == 'V'):
            raise Skip('in')
        return x[2] in names

    def e_wrapb(self, t, b):
        return self.ev(b)

    def e_tuple(self, t, *a):
        return ('T',) + tuple(self.evs(x) for x in a)

    def e_rec(self, t, k, *a):
        return ('R', k) + tuple(self.evs(x) for x in a)

    def e_variant(self, t, k, n, *a):
        return ('V', k, n) + tuple(self.evs(x) for x in a)

    def e_str(self, t, s):
        return s

    def e_scat(self, t, *ps):
        return self.join([self.ev(p) for p in ps])

    def join(self, xs):
        out = []
        for x in xs:
            for y in (x[1:] if isinstance(x, tuple) and x[0] == 'CAT' else (x,)):
                if isinstance(y, str) and out and isinstance(out[-1], str):
                    out[-1] += y
                elif y != '':
                    out.append(y)
        return '' if not out else out[0] if len(out) == 1 else ('CAT',) + tuple(out)

    def e_fmtstr(self, t, *a):
        return ('FMT',) + tuple(self.ev(x) for x in a)

    def e_fmtargs(self, t, *a):
        return ('FMA',) + tuple(self.ev(x) for x in a)

    # ---------------------------------------------------------- sequences
    def e_list(self, t, *a):
        return [self.evs(x) for x in a]

    def e_glist(self, t, es):
        return [self.evs(e) for g, e in es if self.ev(g)]

    def over(self, v, src, guard):
        """the values of v from src for which guard holds, in order"""
        if src.op == 'range':
            n = self.num(src.a[0])
            if n > 3000:
                raise Skip('long range')
            old = self.saved(v)
            try:
                for i in range(math.ceil(n)):
                    self.bind(v, Fr(i))
                    if self.ev(guard):
                        yield Fr(i)
            finally:
                self.unbind(v, old)
            return
        if src.op in ('keys', 'key'):
            K = src.a[0]
            cs = self.candidates(K, v, guard)
            rev = len(src.a) > 1 and src.a[1]
            old = self.saved(v)
            try:
                for x, generic in sorted(cs, key=lambda y: self.order(y[0]), reverse=bool(rev)):
                    self.bind(v, x)
                    if self.ev(guard):
                        if generic and src.op == 'keys':
                            raise Skip('unbounded')
                        yield x
            finally:
                self.unbind(v, old)
            return
        raise Skip('source ' + src.op)

    def candidates(self, K, v, guard):
        dom = self.domain(K)
        if dom is not None:
            return [(x, False) for x in dom]
        whole = set()
        parts = {}
        kv = VL.keyval(K, v)
        for x in subterms(guard):
            if v not in x.fv:
                continue
            if x.op == 'app' and x.a[0] == 'has' and x.a[3] is kv and v not in x.a[2].fv:
                if all(b in self.gen for b in x.a[2].fv if isinstance(b.a[0], tuple)):
                    try:
                        whole.update(self.ev(x.a[2]))
                    except Skip:
                        raise Skip('keys of ' + x.a[2].op)
            elif x.op == 'eq0':
                for m, c in P(x.a[0]):
                    if len(m) == 1 and m[0][1] is ONE and v in m[0][0].fv:
                        leaf = m[0][0]
                        rest = sub(leaf, scale(x.a[0], 1 / c))
                        if v not in rest.fv:
                            try:
                                parts.setdefault(leaf, set()).add(self.ev(rest))
                            except Skip:
                                pass
            elif x.op == 'app' and x.a[0] == 'eqv':
                a, b = x.a[2], x.a[3]
                for p, q in ((a, b), (b, a)):
                    if v in p.fv and v not in q.fv:
                        try:
                            parts.setdefault(p, set()).add(self.ev(q))
                        except Skip:
                            pass
        out = {x: False for x in whole}
        for x, g in self.mixed(K, kv, parts):
            if x not in out:
                out[x] = g
        return list(out.items())

    def mixed(self, K, kv, parts):
        """key values made of the values the guard compares with, and of values it does not mention"""
        if kv.op == 'tuple':
            r = [((), False)]
            for i, e in enumerate(kv.a):
                r = [(p + (x,), g or gg) for p, g in r for x, gg in self.mixed(K[1 + i] if isinstance(K, tuple) and K[0] == 'tuple' else None, e, parts)]
                if len(r) > 500:
                    raise Skip('keys')
            return [(('T',) + p, g) for p, g in r]
        dom = self.domain(K)
        if dom is not None:
            return [(x, False) for x in dom]
        s = VL.sort_of(K) if K is not None else 'i'
        r = [(x, False) for x in parts.get(kv, ())]
        if s == 's':
            return r + [('\x00other', True)]
        if s in ('i', 'u', 'f'):
            return r + [(Fr(7777777), True)]
        raise Skip('keys of sort ' + str(s))

    def domain(self, K):
        if K == 'bool':
            return [False, True]
        if isinstance(K, tuple) and K[0] == 'adt':
            a = TypeInfo.adt(K[1])
            if a and a['kind'] == 'enum' and all(not v['fields'] for v in a['variants']):
                return [('V', K[1], v['n']) for v in a['variants']]
        if isinstance(K, tuple) and K == ('tuple',):
            return [('T',)]
        return None

    def order(self, x):
        if isinstance(x, tuple):
            if x[0] == 'V':
                a = TypeInfo.adt(x[1])
                if a:
                    for i, v in enumerate(a['variants']):
                        if v['n'] == x[2]:
                            return (i,) + tuple(self.order(y) for y in x[3:])
                return (x[2],)
            return tuple(self.order(y) for y in x[1 if x[0] == 'T' else 2:])
        return (x,)

    def each(self, t, f):
        """f at each element"""
        v, src, guard = t.a[0], t.a[1], t.a[2]
        return [f() for _ in self.over(v, src, guard)]

    def e_seq(self, t, v, src, g, e):
        return self.each(t, lambda: self.evs(e))

    def e_cat(self, t, *ss):
        return [x for s in ss for x in self.lst(s)]

    def lst(self, s):
        x = self.ev(s)
        if not isinstance(x, list):
            raise Skip('not a sequence')
        return x

    def e_flat(self, t, v, src, g, inner):
        return [x for l in self.each(t, lambda: self.lst(inner)) for x in l]

    def e_astore(self, t, s, i, x):
        l = list(self.lst(s))
        k = self.num(i)
        if k.denominator != 1 or not 0 <= k < len(l):
            raise Skip('index')
        l[int(k)] = self.evs(x)
        return l

    def e_recarr(self, t, v, n, ety, lam):
        m = self.num(n)
        if m > 3000:
            raise Skip('long array')
        l = Part()
        l.n = Fr(math.ceil(m))
        old = self.saved(v)
        lv = lam.a[0]
        old2 = self.saved(lv)
        try:
            self.bind(v, l)
            for i in range(math.ceil(m)):
                self.bind(lv, Fr(i))
                l.append(self.evs(lam.a[1]))
        finally:
            self.unbind(v, old)
            self.unbind(lv, old2)
        return list(l)

    def e_sum(self, t, v, src, g, e):
        acc = Fr(0)
        for x in self.each(t, lambda: self.num(e)):
            acc = add2(acc, x)
        return norm(acc)

    def e_prod(self, t, v, src, g, e):
        acc = Fr(1)
        for x in self.each(t, lambda: self.num(e)):
            acc = mul2(acc, x)
        return acc

    def e_exists(self, t, v, src, cond):
        for _ in self.over(v, src, cond):
            return True
        return False

    def e_first(self, t, v, src, g, e):
        for _ in self.over(v, src, g):
            return self.ev(e)
        raise Skip('no first')

    def e_extr(self, t, v, src, g, e, which, init):
        xs = self.each(t, lambda: self.num(e))
        if init is not UNDEF:
            xs.append(self.num(init))
        if not xs:
            raise Skip('no extreme')
        r = xs[0]
        for x in xs[1:]:
            if isinstance(x, float) or isinstance(r, float):
                better = float(x) > float(r)
            else:
                better = dec(x) > dec(r) if isinstance(x, D) or isinstance(r, D) else x > r
            if which != 'max':
                better = not better and x != r
            if better:
                r = x
        return r

    def e_sjoin(self, t, v, src, g, e):
        return self.join(self.each(t, lambda: self.ev(e)))

    # ---------------------------------------------------------- maps
    def mp(self, M):
        x = self.ev(M)
        if not isinstance(x, dict):
            raise Skip('not a map')
        return x

    def e_mempty(self, t, K, V):
        return {}

    def put(self, d, k, p, v):
        kk = self.ev(k)
        hash_ok(kk)
        if self.ev(p):
            d[kk] = self.evs(v)
        else:
            d.pop(kk, None)

    def e_mst(self, t, base, es):
        d = dict(self.mp(base))
        for k, p, v in es:
            self.put(d, k, p, v)
        return d

    def e_mstore(self, t, base, k, p, v):
        d = dict(self.mp(base))
        self.put(d, k, p, v)
        return d

    def e_mfun(self, t, v, K, has, val):
        d = {}
        for k in self.over(v, mk('keys', K, False), has):
            d[k] = self.evs(val)
        return d

    def e_mext(self, t, base, s):
        d = dict(self.mp(base))
        for e in self.lst(s):
            if e is SKIP or not (isinstance(e, tuple) and e[0] == 'T'):
                raise Skip('pair')
            self.ok(e[1])
            hash_ok(e[1])
            d[e[1]] = e[2]
        return d

    # ---------------------------------------------------------- applications
    def e_app(self, t, f, sort, *a):
        if f[0] == '?' and f not in PLAIN:
            raise Skip('not modelled: ' + f)
        h = getattr(self, 'a_' + f.lstrip('?'), None)
        if h is None:
            raise Skip('no value for ' + f)
        return h(sort, *a)

    def a_zip(self, sort, a, b):
        if b.op == 'inf_range':
            k = self.num(b.a[0])
            return [('T', self.ok(x), add2(k, Fr(i))) for i, x in enumerate(self.lst(a))]
        return [('T', self.ok(x), self.ok(y)) for x, y in zip(self.lst(a), self.lst(b))]

    def a_shown(self, sort, x, width, prec, spec):
        v = self.ok(self.ev(x))
        w, p = self.num(width), self.num(prec)
        kind, tn, opts = (spec.a[0] + '  ').split(' ')[:3]
        fill, align, zero = ' ', '', '0' in opts
        for c in '<>^':
            if c in opts:
                i = opts.index(c)
                align = c
                if i:
                    fill = opts[0]
        if set(opts) - set('<>^0'):
            raise Skip('format options')
        if isinstance(v, str) and kind == 'display':
            s = v if p < 0 else v[:int(p)]
            align = align or '<'
        elif isinstance(v, (Fr, D)) and kind in ('display', 'debug') and tn in INTS + ('f64', 'f32'):
            if p >= 0:
                y = dec(v) * D(10) ** int(p)
                if abs(abs(y) % 1 - D('0.5')) < D(10) ** -12:
                    raise Skip('a tie in rounding')
                s = f'{dec(v):.{int(p)}f}'
            elif isinstance(v, Fr) and v.denominator == 1:
                s = str(v.numerator) + ('.0' if kind == 'debug' and tn[0] == 'f' else '')
            else:
                s = repr(float(v))
                if 'e' in s:
                    raise Skip('exponent')
            align = align or '>'
            if zero and w >= 0 and len(s) < w:
                s = ('-' if s[0] == '-' else '') + '0' * (int(w) - len(s)) + s.lstrip('-')
        elif isinstance(v, tuple) and v[0] == 'V' and len(v) == 3 and kind == 'debug':
            return v[2]
        else:
            raise Skip('text of ' + tn)
        n = max(0, int(w) - len(s)) if w >= 0 else 0
        l = {'<': 0, '>': n, '^': n // 2}[align]
        return fill * l + s + fill * (n - l)

    def a_rev(self, sort, a):
        return list(reversed(self.lst(a)))

    def a_skip(self, sort, a, k, n):
        i = int(self.num(k))
        return self.lst(a)[max(i, 0):][:None if n is UNDEF else max(0, int(self.num(n)))]

    def a_keep(self, sort, a):
        return [x[3] for x in self.lst(a) if x[2] == 'Some']

    def a_set(self, sort, M, s):
        d = dict(self.mp(M))
        for x in self.lst(s):
            hash_ok(self.ok(x))
            d[x] = ('T',)
        return d

    def a_Add(self, sort, a, b):
        return add2(self.num(a), self.num(b))

    def a_Sub(self, sort, a, b):
        return add2(self.num(a), mul2(Fr(-1), self.num(b)))

    def a_Mul(self, sort, a, b):
        return mul2(self.num(a), self.num(b))

    def a_Div(self, sort, a, b):
        if sort in ('i', 'u'):
            raise Skip('integer division')
        return mul2(self.num(a), pow2(self.num(b), Fr(-1)))

    def pairs(self, lam):
        x, l1 = lam.a
        y, e = l1.a

        def f(a, b):
            o1, o2 = self.saved(x), self.saved(y)
            try:
                self.bind(x, a)
                self.bind(y, b)
                return self.ev(e)
            finally:
                self.unbind(y, o2)
                self.unbind(x, o1)
        return f

    def a_sorted(self, sort, s, lam):
        after = self.pairs(lam)
        out = []
        for x in self.lst(s):
            i = len(out)
            while i and after(out[i - 1], self.ok(x)):
                i -= 1
            out.insert(i, x)
        return out

    def a_deduped(self, sort, s, lam):
        same = self.pairs(lam)
        out = []
        for x in self.lst(s):
            if not out or not same(out[-1], self.ok(x)):
                out.append(x)
        return out

    def a_neg(self, sort, a):
        return mul2(Fr(-1), self.num(a))

    def a_sel(self, sort, o, i):
        if o.op == 'loop':
            st, exited, _ = self.run(o)
            if i == 'exited':
                return exited
            x = self.ok(st[int(i.split('.')[1])])
            if isinstance(x, tuple) and x[0] in ('T', 'R') and not (isinstance(sort, tuple) and sort[0] == 'obj'):
                raise Skip('part of a state')
            return x
        x = self.ev(o)
        if not isinstance(x, tuple):
            raise Skip('selection')
        if x[0] == 'V':
            if i == 'tag':
                return x[:3]
            vn, k = i.split('.')
            if vn != x[2] or len(x) <= 3 + int(k):
                raise Skip('other variant')
            return self.ok(x[3 + int(k)])
        k = i + (1 if x[0] == 'T' else 2)
        if not isinstance(i, int) or k >= len(x):
            raise Skip('selection')
        return self.ok(x[k])

    def a_st(self, sort, S, i, j):
        st = self.ok(self.env.get(S, SKIP))
        x = st[int(isconst(i))]
        j = int(isconst(j))
        if x is SKIP:
            raise Skip('state')
        if isinstance(x, tuple) and x[0] in ('T', 'R') and not (isinstance(sort, tuple) and sort[0] == 'obj'):
            x = flatten(x)[j]
        elif j:
            raise Skip('state component')
        return self.ok(x)

    def run(self, o):
        k = self.key(o)
        r = self.loops.get(k)
        if r is None:
            try:
                r = self.run_(o, None)
            except Skip as e:
                r = e
            self.loops[k] = r
        if isinstance(r, Skip):
            raise r
        return r

    def rounds(self, src, v, g):
        if src.op == 'ever':
            old = self.saved(v)
            try:
                for i in range(2000):
                    self.bind(v, Fr(i))
                    yield Fr(i)
            finally:
                self.unbind(v, old)
            raise Skip('endless loop')
        yield from self.over(v, src, g)

    def run_(self, o, watch):
        S, src, inits, lam = o.a
        v, g, nexts, Ex = lam.a
        state = [self.evs(x) for x in inits]
        old = self.saved(S)
        oldv = self.saved(v)
        try:
            self.bind(S, state)
            if src.op in ('keys', 'key') and S in g.fv:
                raise Skip('guard over the state')
            for x in self.rounds(src, v, g):
                if watch is not None and watch(state, x):
                    return True
                if self.ev(Ex):
                    return (state, True, (state, x)) if watch is None else False
                state = [self.evs(n) for n in nexts]
                self.bind(S, state)
                self.bind(v, x)
        finally:
            self.unbind(S, old)
            self.unbind(v, oldv)
        return (state, False, None) if watch is None else False

    def observe(self, l1, st, x):
        S2, (l2) = l1.a[0], l1.a[1]
        v2, e = l2.a
        o1, o2 = self.saved(S2), self.saved(v2)
        try:
            self.bind(S2, st)
            self.bind(v2, x)
            return self.ev(e)
        finally:
            self.unbind(v2, o2)
            self.unbind(S2, o1)

    def a_atexit(self, sort, node, l1):
        _, exited, at = self.run(node)
        if not exited:
            raise Skip('not left early')
        return self.observe(l1, *at)

    def a_looppanic(self, sort, node, l1):
        return self.run_(node, lambda st, x: self.observe(l1, st, x))

    def a_idx(self, sort, s, i):
        l = self.ev(s)
        k = self.num(i)
        if not isinstance(l, list) or isinstance(k, D) or k.denominator != 1 or not 0 <= k < len(l):
            raise Skip('index')
        return self.ok(l[int(k)])

    def a_len(self, sort, s):
        l = self.ev(s)
        if isinstance(l, Part):
            return l.n
        if isinstance(l, (list, dict)):
            return Fr(len(l))
        raise Skip('length')

    def a_has(self, sort, M, k):
        d = self.mp(M)
        kk = self.ev(k)
        hash_ok(kk)
        return kk in d

    def a_get(self, sort, M, k):
        d = self.mp(M)
        kk = self.ev(k)
        hash_ok(kk)
        if kk not in d:
            raise Skip('no such key')
        return self.ok(d[kk])

    def a_isv(self, sort, v, n):
        x = self.ev(v)
        if not (isinstance(x, tuple) and x[0] == 'V'):
            raise Skip('variant')
        return x[2] == n

    def a_eqv(self, sort, a, b):
        r = same(self.ev(a), self.ev(b))
        if r is None:
            raise Skip('equality')
        return r

    def a_discr(self, sort, v):
        x = self.ev(v)
        return Fr(self.order(x)[0])

    def a_wrapu(self, sort, v):
        x = self.num(v)
        if x < 0:
            raise Skip('wraps')
        return x

    def a_ln(self, sort, x):
        y = self.num(x)
        if y <= 0:
            raise Skip('ln')
        return dec(y).ln() if y != 1 else Fr(0)

    def a_pow(self, sort, b, e):
        return pow2(self.num(b), self.num(e))

    def rounded(self, x, f):
        y = self.num(x)
        if isinstance(y, float):
            raise Skip('infinite')
        if isinstance(y, D):
            if abs(y) > D(10) ** 20:
                raise Skip('big')
            n = y.to_integral_value()
            if abs(y - n) < D(10) ** -15 or abs(abs(y - n) - D('0.5')) < D(10) ** -15:
                raise Skip('near an integer')
            y = Fr(y)
        return Fr(f(y))

    def a_floor(self, sort, x):
        return self.rounded(x, math.floor)

    def a_ceil(self, sort, x):
        return self.rounded(x, math.ceil)

    def a_trunc(self, sort, x):
        return self.rounded(x, math.trunc)

    def a_round(self, sort, x):
        return self.rounded(x, lambda y: (1 if y >= 0 else -1) * math.floor(abs(y) + Fr(1, 2)))

    def ints(self, a, b):
        x, y = self.num(a), self.num(b)
        if isinstance(x, D) or isinstance(y, D) or x.denominator != 1 or y.denominator != 1 or y == 0:
            raise Skip('integer division')
        return int(x), int(y)

    def a_idiv(self, sort, a, b):
        x, y = self.ints(a, b)
        q = abs(x) // abs(y)
        return Fr(q if (x < 0) == (y < 0) else -q)

    def a_imod(self, sort, a, b):
        x, y = self.ints(a, b)
        r = abs(x) % abs(y)
        return Fr(r if x >= 0 else -r)

    def a_emod(self, sort, a, b):
        x, y = self.ints(a, b)
        return Fr(x % abs(y))

    def a_ediv(self, sort, a, b):
        x, y = self.ints(a, b)
        return Fr((x - x % abs(y)) // y)

    def date(self, x):
        n = self.num(x)
        if isinstance(n, D) or n.denominator != 1 or not 1 <= n <= 3652059:
            raise Skip('date')
        return datetime.date.fromordinal(int(n))

    def a_year(self, sort, x):
        return Fr(self.date(x).year)

    def a_month(self, sort, x):
        return Fr(self.date(x).month)

    def a_day(self, sort, x):
        return Fr(self.date(x).day)

    def a_ordinal(self, sort, x):
        return Fr(self.date(x).timetuple().tm_yday)

    def a_calday(self, sort, y, m, d):
        try:
            yy, mm, dd = [int(self.num(z)) for z in (y, m, d)]
            datetime.date(yy % 400 + 2000, mm, dd)
            return True
        except (ValueError, OverflowError):
            return False

    def a_ymd(self, sort, y, m, d):
        try:
            return Fr(datetime.date(*[int(self.num(z)) for z in (y, m, d)]).toordinal())
        except (ValueError, OverflowError):
            raise Skip('no such day')

    def a_yo(self, sort, y, o):
        try:
            yy, oo = int(self.num(y)), int(self.num(o))
            d = datetime.date(yy, 1, 1) + datetime.timedelta(days=oo - 1)
            if d.year != yy:
                raise Skip('no such day')
            return Fr(d.toordinal())
        except (ValueError, OverflowError):
            raise Skip('no such day')

    def a_apply(self, sort, f, *args):
        g = self.ev(f)
        if not callable(g):
            raise Skip('function')
        return g(*[self.ev(x) for x in args])

    def fnat(self, lam, x):
        v, e = lam.a
        old = self.saved(v)
        try:
            self.bind(v, x)
            return self.num(e)
        finally:
            self.unbind(v, old)

    def solve(self, lam):
        k = self.key(lam)
        r = self.loops.get(k)
        if r is None:
            r = self.loops[k] = self.solve_(lam)
            self.roots.append((lam, r, not self.bv[lam]))
        return r

    def solve_(self, lam):
        at = []
        for x in GRID:
            try:
                y = dec(self.fnat(lam, x))
            except Skip:
                continue
            if y == 0:
                return x
            at.append((x, y > 0))
        br = [(a, b, u) for (a, u), (b, w) in zip(at, at[1:]) if u != w]
        if len(br) > 1:
            raise Skip('several roots')
        if not br:
            return self.newton(lam, D('0.1'))
        a, b, u = br[0]
        for _ in range(16):
            m = (a + b) / 2
            y = dec(self.fnat(lam, m))
            if y == 0:
                return m
            if (y > 0) == u:
                a = m
            else:
                b = m
        return self.newton(lam, (a + b) / 2)

    def newton(self, lam, x):
        h = D(10) ** -18
        for _ in range(30):
            y = dec(self.fnat(lam, x))
            dy = (dec(self.fnat(lam, x + h)) - y) / h
            if dy == 0:
                return None
            s = y / dy
            x = x - s
            if abs(x) > 10 ** 6:
                return None
            if abs(s) < D(10) ** -20:
                return x
        return None

    def a_roottag(self, sort, lam):
        if self.solve(lam) is None:
            raise Skip('no root')
        return ('V', 'Option', 'Some')

    def a_root(self, sort, lam):
        r = self.solve(lam)
        if r is None:
            raise Skip('no root')
        return r

    def ambiguous_roots(self):
        """two equations with one common root solved differently"""
        rs = [(l, x) for l, x, c in self.roots if x is not None]
        if any(not c for l, x, c in self.roots):
            return len(rs) > 1
        for i, (l, x) in enumerate(rs):
            for m, y in rs[:i]:
                if abs(x - y) > D(10) ** -12:
                    try:
                        sc = max(abs(dec(self.fnat(m, D(0)))), abs(dec(self.fnat(m, D(1)))), D(10) ** -6)
                        if abs(dec(self.fnat(m, x))) < sc * D(10) ** -9:
                            return True
                    except Skip:
                        return True
        return False


class Part(list):
    n = None


def hash_ok(k):
    if k is SKIP or isinstance(k, (D, list, dict, float)):
        raise Skip('key')
    if isinstance(k, tuple):
        for x in k:
            hash_ok(x)


def flatten(x):
    if isinstance(x, tuple) and x[0] in ('T', 'R'):
        return [z for y in x[1 if x[0] == 'T' else 2:] for z in flatten(y)]
    return [x]


def same(a, b):
    """are two values equal? None: cannot say"""
    d = differ(a, b)
    return None if d is SKIP else d is None


def differ(a, b, path=''):
    """where two values differ; None: nowhere, SKIP: cannot say"""
    if a is SKIP or b is SKIP:
        return SKIP
    if isinstance(a, bool) or isinstance(b, bool):
        return None if a is b else f'{path} {a} and {b}' if isinstance(a, bool) and isinstance(b, bool) else SKIP
    if isinstance(a, (Fr, D)) and isinstance(b, (Fr, D)):
        if isinstance(a, Fr) and isinstance(b, Fr) and a == b:
            return None
        x, y = dec(a), dec(b)
        if abs(x - y) <= D(10) ** -9 * max(D(1), abs(x), abs(y)):
            return None if abs(x - y) <= D(10) ** -20 * max(D(1), abs(x), abs(y)) else SKIP
        return f'{path} {sh(a)} and {sh(b)}'
    if isinstance(a, float) and isinstance(b, float):
        return None if a == b else SKIP
    if isinstance(a, str) and isinstance(b, str):
        return None if a == b else f'{path} {a!r} and {b!r}'
    if isinstance(a, list) and isinstance(b, list):
        if len(a) != len(b):
            return f'{path} lengths {len(a)} and {len(b)}'
        return some_diff((differ(x, y, f'{path}[{i}]') for i, (x, y) in enumerate(zip(a, b))))
    if isinstance(a, dict) and isinstance(b, dict):
        for k in a:
            if k not in b:
                return f'{path} key {sh(k)} only on the left'
        for k in b:
            if k not in a:
                return f'{path} key {sh(k)} only on the right'
        return some_diff((differ(a[k], b[k], f'{path}[{sh(k)}]') for k in a))
    if isinstance(a, tuple) and isinstance(b, tuple) and a and b and a[0] == b[0]:
        if a[0] in ('CAT', 'FMT', 'FMA'):
            return None if a == b else SKIP
        if a[0] == 'V':
            if a[2] != b[2]:
                return f'{path} {a[2]} and {b[2]}'
            return some_diff((differ(x, y, f'{path}.{a[2]}') for x, y in zip(a[3:], b[3:])))
        k = 1 if a[0] == 'T' else 2
        if len(a) != len(b):
            return SKIP
        return some_diff((differ(x, y, f'{path}.{i}') for i, (x, y) in enumerate(zip(a[k:], b[k:]))))
    return SKIP


def some_diff(it):
    r = None
    for d in it:
        if d is SKIP:
            r = SKIP
        elif d is not None:
            return d
    return r


def sh(x):
    if isinstance(x, Fr):
        return str(x.numerator) if x.denominator == 1 else f'{float(x):.8g}'
    if isinstance(x, D):
        return f'{x:.10g}'
    if isinstance(x, tuple) and x and x[0] in ('T', 'R'):
        return '(' + ', '.join(sh(y) for y in x[1 if x[0] == 'T' else 2:]) + ')'
    if isinstance(x, tuple) and x and x[0] == 'V':
        return x[2] + ('' if len(x) == 3 else '(' + ', '.join(sh(y) for y in x[3:]) + ')')
    if isinstance(x, list):
        return '[' + ', '.join(sh(y) for y in x) + ']'
    if isinstance(x, dict):
        return '{' + ', '.join(f'{sh(k)}: {sh(v)}' for k, v in x.items()) + '}'
    return str(x)


# ---------------------------------------------------------------- choosing points
INTS = ('usize', 'u8', 'u16', 'u32', 'u64', 'u128', 'isize', 'i8', 'i16', 'i32', 'i64', 'i128')
WHOLE = [Fr(1), Fr(2), Fr(1), Fr(2), Fr(4), Fr(1), Fr(3), Fr(1, 10)]
RATES = [Fr(x) for x in ('1/16', '1/8', '3/64', '1/4', '3/32', '1/2', '1/32', '5/64')]
SMALL = [Fr(x) for x in ('0', '1', '2', '1/2', '3', '1/4', '5/4', '3/2', '7/4')]
AMOUNT = [Fr(x) for x in (100, 40, 250, 7, 1000, 62, 13, 500, 85)]


class Hints:
    """what the compared graphs mention: thresholds numbers are compared with, divisors, and the variants used as keys"""
    def __init__(self, terms):
        self.numbers, self.divisors, self.variants = [], [], {}
        nums, sizes = set(), set()
        for t in terms:
            for x in subterms(t):
                if x.op == 'app' and x.a[0] == '?skip':
                    for y in x.a[3:]:
                        c = isconst(y)
                        if c and 4 < c <= 400:
                            sizes.add(int(c))
                if x.op in ('lt0', 'le0', 'eq0', 'abs'):
                    p = P(x.a[0])
                    c0 = next((c for m, c in p if m == ()), 0)
                    if c0 and len(p) <= 4:
                        for m, c in p:
                            if len(m) == 1 and m[0][1] is ONE:
                                nums.add(abs(Fr(-c0) / Fr(c)))
                elif x.op == 'divis':
                    n = x.a[1] if isinstance(x.a[1], int) else isconst(x.a[1])
                    if n:
                        self.divisors.append(int(n))
                elif x.op == 'variant' and len(x.a) == 2:
                    self.variants.setdefault(x.a[0], set()).add(x.a[1])
                elif x.op == 'gate' and isnum(x.a[1]):
                    for y in x.a[1:]:
                        c = isconst(y)
                        if c:
                            nums.add(abs(Fr(c)))
        self.numbers = sorted(x for x in nums if x < 10 ** 12)[:40]
        self.counts = [int(x) for x in self.numbers if x.denominator == 1 and 5 < x <= 400][:6]
        self.sizes = sorted(sizes)[:6]
        self.divisors = sorted(set(self.divisors))[:12]
        self.variants = {k: sorted(v) for k, v in self.variants.items()}


# applications without a normal form whose meaning is plain
GRID = [D(x) for x in ('-0.7', '-0.3', '-0.1', '0.02', '0.1', '0.3', '0.9', '2.5', '6')]
PLAIN = {'?looppanic', '?zip', '?rev', '?skip', '?keep', '?set', '?Add', '?Sub', '?Mul', '?Div', '?neg'}
DATE_T = ('adt', 'chrono::naive::date::NaiveDate', 'NaiveDate')


def month_day(m, day):
    """the day of month m (counted from year 0), or the month's last day"""
    y, k = divmod(m, 12)
    while True:
        try:
            return datetime.date(y, k + 1, day).toordinal()
        except ValueError:
            day -= 1


class Gen:
    def __init__(self, F, rnd, hints=None, roots=False):
        self.F, self.r = F, rnd
        self.h = hints
        self.fill = rnd.choice([0.1, 0.3, 0.6, 0.9, 1.0])
        self.given = []
        self.echo = rnd.choice([0, 0, 0.1, 0.4])
        self.hint = rnd.choice([0, 0.1, 0.5])
        r = rnd
        self.n = r.choice([0, 1, 1, 2, 2, 3, 3, 4, 5])
        self.ragged = r.random() < 0.2
        self.sorted = r.random() < 0.6
        self.project = r.random() < (0.9 if roots else 0.3)
        self.again = r.choice([0, 0, 0, 0.4])
        self.flat = False
        self.level = r.choice([0, Fr(1, 32), Fr(1, 64), Fr(3, 64), Fr(1, 16)])
        if hints and hints.counts and r.random() < 0.15:
            self.n = r.choice(hints.counts) + r.choice([0, 1, 3, 4, 4])
            self.ragged = False
            self.again = r.choice([0, 0.5, 0.9, 0.97])
            self.flat = r.random() < 0.6
        if roots and r.random() < 0.7:
            # equations that had no root: few flows, money out and back
            self.n, self.ragged, self.sorted = r.choice([2, 3, 3, 4]), False, r.random() < 0.4
        self.many = 0
        if hints and hints.sizes and r.random() < 0.5:
            # statements for more dates than a fixed count
            self.many = r.choice(hints.sizes) + r.choice([0, 1, 1, 2])
            self.fill = r.choice([0.02, 0.1])
        self.from0 = r.random() < 0.4
        self.neg = r.random() < 0.35
        self.zero = r.choice([0, 0.05, 0.3])
        self.style = r.choice(['rate', 'small', 'amount', 'mixed', 'mixed', 'mixed', 'whole'])
        if self.style == 'whole':
            self.neg = False
            self.n = r.choice([1, 2, 5, 12, 24])
        base = datetime.date(r.choice([2019, 2020, 2021, 2022, 2023, 2024]), r.randint(1, 12), r.randint(1, 28)).toordinal()
        k = r.random()
        self.dates = []
        for _ in range(r.randint(1, 4)):
            q = r.random()
            if q < 0.25:
                d = datetime.date(r.choice([2019, 2020, 2023, 2024]), *r.choice([(2, 28), (12, 31), (1, 1), (1, 31), (3, 31), (6, 30), (8, 31), (11, 30)])).toordinal()
            elif q < 0.35:
                d = datetime.date(r.choice([2020, 2024, 2000, 1900, 2100, 2200, 1800, 2400, 1700]), 2, 28).toordinal() + r.randint(0, 1)
            else:
                d = base + (r.randint(0, 1200) if k < 0.6 else 31 * r.randint(0, 30))
            self.dates.append(Fr(d))
        self.chain = r.random() < 0.25
        if self.chain:
            # dates whole months apart
            d0 = datetime.date.fromordinal(int(self.dates[0]))
            day = r.choice([d0.day, 31, 30, 29, 28])
            m = d0.year * 12 + d0.month - 1
            ms = [m]
            for _ in range(r.randint(2, 5)):
                ms.append(r.choice(ms[-2:]) - r.choice([3, 3, 12, 12, 1, 6, 9]))
            self.dates = [Fr(month_day(x, day)) for x in ms]
            # periods that meet end to end, by quarters and by years
            self.linked = []
            for _ in range(4):
                ps = [('T', Fr(month_day(m - k, day)), Fr(month_day(m, day))) for k in (3, 12) if r.random() < 0.7]
                if not ps:
                    break
                self.linked += ps
                m -= r.choice([3, 12])
            if r.random() < 0.4:
                # and one that does not
                e = r.choice(self.dates) + r.randint(-20, 20)
                self.dates.append(e)
                self.linked.append(('T', e - r.choice([30, 91, 365, 1, 0]), e))
        if self.many:
            self.chain = False
            self.dates = [Fr(month_day(base // 365 * 12 + k * r.choice([3, 12, 12]), 28)) for k in range(self.many + 1)]
        # every date has a statement, and every two dates have a period
        self.dense = not self.chain and not self.many and r.random() < 0.2
        if self.dense:
            ds = sorted(set(self.dates) | {Fr(base), Fr(base + r.choice([91, 365]))})[:3]
            self.dates = ds
            self.fill = r.choice([0.05, 0.1, 0.3])
        if r.random() < 0.4:
            self.dates.sort()
        if self.flat:
            # a long row of rates
            self.style, self.neg, self.hint, self.echo, self.zero = 'rate', False, 0, 0, 0
            self.sorted = self.project = False
        self.strs = ['alpha', 'beta', 'gamma']
        self.pools = {}

    def number(self):
        r = self.r
        if self.given and r.random() < self.echo:
            return r.choice(self.given)
        if self.h and self.h.numbers and r.random() < self.hint:
            x = r.choice(self.h.numbers) * r.choice([1, 1, Fr(1, 2), 2, Fr(99, 100), Fr(101, 100), Fr(9, 10), Fr(11, 10), Fr(9, 20), Fr(11, 20), Fr(49, 100), Fr(1, 4)])
            if r.random() < 0.4:
                x = -x
        else:
            x = self.number_()
        self.given.append(x)
        return x

    def number_(self):
        r = self.r
        if r.random() < self.zero:
            return Fr(0)
        if self.flat and self.level:
            return self.level * r.choice([Fr(1), Fr(1), Fr(9, 8), Fr(7, 8)])
        st = self.style if self.style != 'mixed' else r.choice(['rate', 'small', 'amount', 'rate'])
        x = r.choice({'whole': WHOLE, 'rate': RATES, 'small': SMALL, 'amount': AMOUNT}[st])
        if self.neg and r.random() < 0.4:
            x = -x
        return x

    def value(self, ty, depth=0):
        r = self.r
        if isinstance(ty, str):
            if ty in ('f64', 'f32'):
                if self.flat and not depth and self.r.random() < 0.6:
                    return self.r.choice([Fr(1), Fr(2), Fr(4), Fr(12), Fr(100)])
                return self.number()
            if ty == 'bool':
                return r.random() < 0.5
            if ty == 'str':
                return r.choice(self.strs)
            if ty in INTS:
                x = r.choice([0, 1, 2, 3, 4, 5, 6, 10, 12, 1, 2, 3, r.randint(0, 40), r.choice([100, 365, 2020, 2024])])
                if self.h and self.h.divisors and r.random() < 0.5:
                    x = r.choice(self.h.divisors) * r.choice([1, 2, 3, 5, 7, 11, r.randint(1, 30)]) + r.choice([0, 0, 0, 1])
                elif self.h and self.h.numbers and r.random() < 0.3:
                    x = int(r.choice(self.h.numbers)) + r.choice([-1, 0, 1])
                    x = max(x, 0)
                elif r.random() < (0.15 if self.n < 8 else 0.7):
                    x = max(self.n - r.choice([1, 1, 2, 0]), 0)
                if ty[0] == 'i' and r.random() < 0.25:
                    x = -x
                return Fr(x)
            raise Skip('type ' + ty)
        k = ty[0]
        if k == 'ref':
            return self.value(ty[2], depth)
        if k == 'tuple':
            xs = [self.value(t, depth) for t in ty[1:]]
            if self.chain and len(ty) == 3 and ty[1] == ty[2] and isinstance(ty[1], tuple) and ty[1][2:3] == ('NaiveDate',) and r.random() < 0.9:
                xs.sort()
            return ('T',) + tuple(xs)
        if k in ('slice', 'array'):
            n = None
            if k == 'array':
                try:
                    n = int(str(ty[2]))
                except ValueError:
                    pass
            return self.seq(ty[1], n, depth)
        if k == 'adt':
            n = ty[2]
            if n == 'NaiveDate':
                return r.choice(self.dates)
            if n in ('TimeDelta', 'Duration'):
                return Fr(r.choice([0, 1, 30, 365, -1, r.randint(-400, 400)]))
            if n == 'String':
                return r.choice(self.strs)
            if n in ('HashMap', 'BTreeMap', 'HashSet', 'BTreeSet'):
                V = ty[4] if n.endswith('Map') else ('tuple',)
                d = {}
                ek = ty[3][1] if isinstance(ty[3], tuple) and ty[3][0] == 'adt' else None
                if self.h and ek in self.h.variants:
                    f = 0.9 if self.dense and len(self.h.variants[ek]) < 6 else self.fill if r.random() < 0.7 or self.many else r.choice([0, 0.2, 0.5, 1.0])
                    for n in self.h.variants[ek]:
                        if r.random() < f:
                            d[('V', ek, n)] = self.value(V, depth + 1)
                if self.many and ty[3] in (DATE_T, ('tuple', DATE_T, DATE_T)):
                    ds = sorted(set(self.dates))
                    ks = ds if ty[3] == DATE_T else [('T', a, b) for a, b in zip(ds, ds[1:])]
                    return {kk: self.value(V, depth + 1) for kk in ks}
                if self.dense and ty[3] in (DATE_T, ('tuple', DATE_T, DATE_T)):
                    ds = sorted(self.dates)
                    ks = ds if ty[3] == DATE_T else [('T', a, b) for i, a in enumerate(ds) for b in ds[i + (r.random() < 0.7):]]
                    return {kk: self.value(V, depth + 1) for kk in ks if r.random() < 0.85}
                if self.chain and ty[3] == ('tuple', DATE_T, DATE_T):
                    for kk in self.linked:
                        if r.random() < 0.85:
                            d[kk] = self.value(V, depth + 1)
                for _ in range(r.choice([0, 0, 1, 3, 8]) if self.chain and depth == 0 else r.choice([0, 1, 2, 3, 4])):
                    kk = self.key(ty[3])
                    hash_ok(kk)
                    d[kk] = self.value(V, depth + 1)
                return d
            if n in ('Vec', 'VecDeque'):
                return self.seq(ty[3], None, depth)
            if n == 'Box':
                return self.value(ty[3], depth)
            if n == 'Option':
                return ('V', 'Option', 'None') if r.random() < 0.25 else ('V', 'Option', 'Some', self.value(ty[3], depth + 1))
            a = TypeInfo.adt(ty[1])
            if a is None or depth > 12:
                raise Skip('type ' + n)
            m = dict(zip(a['g'], ty[3:]))
            vs = a['variants']
            if a['kind'] == 'struct':
                return ('R', ty[1]) + tuple(self.value(VL.tsubst(f['ty'], m), depth + 1) for f in vs[0]['fields'])
            if a['kind'] == 'enum':
                v = r.choice(vs)
                return ('V', ty[1], v['n']) + tuple(self.value(VL.tsubst(f['ty'], m), depth + 1) for f in v['fields'])
        if k in ('param', 'fnptr', 'dyn', 'opaque'):
            return self.function()
        raise Skip('type ' + str(ty)[:60])

    def key(self, ty):
        """keys come from a small pool, so that maps share some"""
        p = self.pools.setdefault(ty, [])
        if not p or (len(p) < (12 if self.chain else 5) and self.r.random() < (0.8 if self.chain else 0.5)):
            p.append(self.value(ty))
        return self.r.choice(p)

    def seq(self, ty, n, depth):
        if n is None:
            n = self.n + (self.r.choice([-1, 1, 2]) if self.ragged and self.r.random() < 0.5 else 0)
            n = max(0, n)
        xs = []
        for _ in range(n):
            xs.append(xs[-1] if xs and self.r.random() < self.again else self.value(ty, depth + 1))
        if ty == 'f64' and n > 1 and self.project:
            # money out first, and somewhat more of it back
            xs = [abs(x) if x != 0 or self.r.random() < 0.5 else Fr(1) for x in xs]
            back = sum(xs[1:])
            if back > 0:
                xs[0] = -back / self.r.choice([Fr(11, 10), Fr(5, 4), Fr(3, 2), Fr(2)])
                return xs
        if self.sorted and xs:
            if all(isinstance(x, Fr) for x in xs):
                xs.sort()
                if self.r.random() < 0.7:
                    for i in range(1, len(xs)):
                        if xs[i] <= xs[i - 1]:
                            xs[i] = xs[i - 1] + self.r.choice([Fr(1, 4), Fr(1, 2), Fr(1), Fr(3, 4)] if ty == 'f64' else [Fr(1), Fr(2), Fr(4)] if isinstance(ty, str) else [Fr(1), Fr(30), Fr(90), Fr(184), Fr(365)])
                if self.from0 and xs and isinstance(ty, str):
                    xs[0] = Fr(0)
            elif all(isinstance(x, tuple) and x[0] == 'T' for x in xs):
                try:
                    xs.sort(key=lambda x: x[1])
                except TypeError:
                    pass
        return xs

    def function(self):
        r = self.r
        c, k = self.number(), r.choice([Fr(1), Fr(2), Fr(-1), Fr(1, 2), Fr(3)])
        kind = r.randint(0, 6)
        # straight pieces that meet nowhere: each step of Newton's method leads to another one
        wide = r.choice([1, 10, 100, 5000])
        cuts = sorted(r.randint(-4 * wide, 4 * wide) for _ in range(r.randint(1, 4)))
        pieces = [(r.choice([Fr(1), Fr(-2), Fr(1, 2), Fr(3)]), Fr(r.randint(-5 * wide, 5 * wide))) for _ in range(len(cuts) + 1)]
        tiny = r.choice([Fr(0), Fr(1, 10**9), Fr(-1, 10**9), Fr(1, 10**10), Fr(1, 10**7)])

        class Fn:
            def __repr__(s):
                return [f'{sh(k)}*(x - {sh(c)})', f'x^2 - {sh(abs(c) + 1)}', f'x^3 + {sh(k)}*x - {sh(c)}', f'{sh(k)}*x^2 + x + {sh(c)}',
                        f'{sh(tiny)}*x + {sh(c)}', f'{sh(tiny)}*(x - {sh(c)} + 1)',
                        f'[{", ".join(sh(m) + "*(x - " + sh(z) + ")" for m, z in pieces)} with breaks at {cuts}]'][kind]

            def __call__(s, x):
                return f(x)

        def f(x):
            if kind == 4:
                return add2(mul2(tiny, x), c)
            if kind == 5:
                return add2(mul2(tiny, add2(x, -c)), mul2(tiny, 1))
            if kind == 6:
                m, z = pieces[sum(1 for t in cuts if dec(x) >= t)]
                return mul2(m, add2(x, -z))
            if kind == 0:
                return mul2(k, add2(x, -c))
            if kind == 1:
                return add2(mul2(x, x), -abs(c) - 1)
            if kind == 2:
                return add2(mul2(mul2(x, x), x), add2(mul2(k, x), -c))
            return add2(mul2(mul2(k, x), x), add2(x, c))
        return Fn()


def search(F, params, assumed, live, L, R, panics, kinds, seconds=4.0, seed=0, tries=100000, good=250):
    """a point at which the law fails: (description, point) or None; and statistics"""
    rnd = random.Random(seed)
    t0 = time.process_time()
    st = dict(points=0, tried=0, equal=0, given_up={})
    sys.setrecursionlimit(40000)

    def give(e):
        k = str(e)[:60]
        st['given_up'][k] = st['given_up'].get(k, 0) + 1
    pos = [b for b in TM.POS]
    nz = [b for b in TM.NONZERO]
    hints = Hints([L, R, assumed, live] + [p.cond for p in panics])
    for _ in range(tries):
        if time.process_time() - t0 > seconds or st['points'] >= good:
            break
        g = Gen(F, rnd, hints, st['given_up'].get('no root', 0) > st['points'])
        st['tried'] += 1
        try:
            env = {n: g.value(ty) for n, ty in params}
        except (Skip, OverflowError, ZeroDivisionError) as e:
            give(e)
            if st['tried'] > 30 and not st['points']:
                break
            continue
        w = W(F, env)
        try:
            if not w.ev(assumed):
                continue
        except (Skip, OverflowError, ZeroDivisionError) as e:
            give(e)
            continue
        bad = None
        skip = False
        for p in panics:
            try:
                if w.ev(p.cond):
                    if p.kind in kinds:
                        bad = f'{p.kind} panic in {p.fn} at {p.span}'
                    skip = True
                    break
            except (Skip, OverflowError, ZeroDivisionError) as e:
                give('panic condition: ' + str(e))
                skip = True
                break
        d = None
        if bad is not None:
            d = bad
        elif not skip:
            try:
                if w.ev(live):
                    d = differ(w.evs(L), w.evs(R))
                    if d is SKIP:
                        try:
                            w.ev(L), w.ev(R)
                            give('incomparable')
                        except (Skip, OverflowError, ZeroDivisionError) as e:
                            give(e)
                        d = None
                    elif d is None:
                        st['points'] += 1
            except (Skip, OverflowError, ZeroDivisionError) as e:
                give(e)
        if d is not None and d is not SKIP:
            try:
                if w.ambiguous_roots():
                    give('several roots')
                    continue
                if not side_ok(w, pos, nz):
                    give('outside the domain of the identities used')
                    continue
            except (Skip, OverflowError, ZeroDivisionError) as e:
                give(e)
                continue
            return d, {k: sh(v) for k, v in env.items()}, st
    return None, None, st


def side_ok(w, pos, nz):
    """are the bases the normal forms took to be positive (nonzero) positive (nonzero) here?"""
    for b, strict in [(x, True) for x in pos] + [(x, False) for x in nz]:
        free = [v for v in b.fv if isinstance(v.a[0], tuple) or '~' in v.a[0]]
        if len(free) > 1:
            continue
        rng = [None]
        if free:
            if free[0].a[1] not in ('i', 'u'):
                continue
            rng = [Fr(i) for i in range(6)]
        for x in rng:
            old = w.saved(free[0]) if free else None
            try:
                if free:
                    w.bind(free[0], x)
                y = w.num(b)
                if (strict and y <= 0) or y == 0:
                    return False
            except (Skip, OverflowError, ZeroDivisionError):
                pass
            finally:
                if free:
                    w.unbind(free[0], old)
    return True
