"""Value-graph terms: hash-consed, kept in normal form by the constructors.

Numbers are generalised polynomials (coefficients are rationals; a monomial maps bases to exponents, which may
themselves be terms), conditions are reduced ordered decision diagrams over atoms, merges are gates (cond, a, b).
Two congruent values have the same node.
"""
from fractions import Fraction
import sys
sys.setrecursionlimit(20000)


class T:
    __slots__ = ('op', 'a', 'id', 'fv', 'ht', 'cache', '__weakref__')

    def __repr__(self):
        return show(self)


_table = {}
_n = 0
EMPTY = frozenset()
BINDERS = {}      # op -> rebuild info


def children(x):
    """All T's reachable in nested python tuples of args."""
    if isinstance(x, T):
        yield x
    elif isinstance(x, tuple):
        for y in x:
            yield from children(y)


def mk(op, *a):
    global _n
    key = (op, a)
    t = _table.get(key)
    if t is None:
        t = T()
        t.op, t.a = op, a
        _n += 1
        t.id = _n
        t.cache = None
        fv = EMPTY
        ht = 0
        for c in children(a):
            if c.fv:
                fv = c.fv if not fv else fv | c.fv
            if c.ht > ht:
                ht = c.ht
        if op == 'var':
            fv = frozenset([t])
        t.fv, t.ht = fv, ht
        _table[key] = t
    return t


_fresh = 0


def fresh(sort, hint='v'):
    global _fresh
    _fresh += 1
    return mk('var', f'{hint}~{_fresh}', sort)


def var(name, sort):
    return mk('var', name, sort)


def app(f, sort, *args):
    """Uninterpreted operator application."""
    return mk('app', f, sort, *args)


# ---------------------------------------------------------------- binders
def close(op, v, sort, *args):
    """Binder node: v (a fresh var) is bound in args. Bound variables are named by height."""
    h = 0
    for c in children(args):
        if c.ht > h:
            h = c.ht
    bv = mk('var', ('#', h + 1), sort)
    if v is not bv:
        args = subst_any(args, {v: bv})
    t = mk(op, bv, *args)
    if t.ht < h + 1:
        t.ht = h + 1
        t.fv = t.fv - {bv}
    return t


def open_(t, val=None):
    """Arguments of a binder node with its variable replaced by val (a fresh variable by default)."""
    bv = t.a[0]
    if val is None:
        val = fresh(bv.a[1], 'i')
    return val, subst_any(t.a[1:], {bv: val})


def subst_any(x, m):
    if isinstance(x, T):
        return subst(x, m)
    if isinstance(x, tuple):
        return tuple(subst_any(y, m) for y in x)
    return x


REBUILD = {}


def subst(t, m, memo=None):
    """Replace variables (or any nodes that are keys of m) and renormalise."""
    if memo is None:
        memo = {}
    keys = set(m)
    varkeys = frozenset(k for k in keys if k.op == 'var')
    allvar = len(varkeys) == len(keys)
    return _subst(t, m, memo, varkeys if allvar else None)


def _subst(t, m, memo, vk):
    r = m.get(t)
    if r is not None:
        return r
    if vk is not None and vk.isdisjoint(t.fv):
        return t
    if not t.a:
        return t
    r = memo.get(t)
    if r is not None:
        return r
    f = REBUILD.get(t.op)
    if f is None:
        a = _sub_any(t.a, m, memo, vk)
        r = mk(t.op, *a)
    elif f == 'binder':
        bv = t.a[0]
        nv = fresh(bv.a[1], 'i')
        a = subst_any(t.a[1:], {bv: nv})
        a = _sub_any(a, m, memo, vk)
        r = BINDERS[t.op](nv, *a)
    else:
        a = _sub_any(t.a, m, memo, vk)
        r = f(*a)
    memo[t] = r
    return r


def _sub_any(x, m, memo, vk):
    if isinstance(x, T):
        return _subst(x, m, memo, vk)
    if isinstance(x, tuple):
        return tuple(_sub_any(y, m, memo, vk) for y in x)
    return x


def subterms(t, seen=None):
    """All nodes of t, children before parents not guaranteed."""
    if seen is None:
        seen = set()
    st = [t]
    while st:
        x = st.pop()
        if x in seen:
            continue
        seen.add(x)
        st.extend(children(x.a))
    return seen


# ---------------------------------------------------------------- polynomials
def const(c):
    c = Fraction(c)
    return mk('poly', (((), c),)) if c else ZERO_


def _z():
    return mk('poly', ())


ZERO_ = _z()
ZERO = ZERO_
ONE = const(1)
E = mk('euler')
INF = mk('inf')
NAN = mk('nan')


def isconst(t):
    if t.op != 'poly':
        return None
    if not t.a[0]:
        return Fraction(0)
    if len(t.a[0]) == 1 and t.a[0][0][0] == ():
        return t.a[0][0][1]
    return None


def P(t):
    """poly items of a numeric term"""
    if t.op == 'poly':
        return t.a[0]
    return ((((t, ONE),), Fraction(1)),)


def _mkey(m):
    return tuple((b.id, e.id) for b, e in m)


def mkpoly(d):
    items = [(m, c) for m, c in d.items() if c]
    if not items:
        return ZERO
    if len(items) == 1:
        m, c = items[0]
        if c == 1 and len(m) == 1 and m[0][1] is ONE and m[0][0].op != 'poly':
            return m[0][0]
    items.sort(key=lambda mc: (mc[0] == (), _mkey(mc[0])))
    return mk('poly', tuple(items))


def rebuild_poly(items):
    acc = ZERO
    for m, c in items:
        t = const(c)
        for b, e in m:
            t = mul(t, powr(b, e))
        acc = add(acc, t)
    return acc


REBUILD['poly'] = rebuild_poly


def add(*ts):
    d = {}
    n = 0
    for t in ts:
        if t is ZERO:
            continue
        if t is NAN or t.op == 'undef':
            return t
        n += 1
        for m, c in P(t):
            d[m] = d.get(m, 0) + c
    return mkpoly(d)


def scale(t, k):
    if t.op == 'undef':
        return t
    k = Fraction(k)
    if k == 1:
        return t
    return mkpoly({m: c * k for m, c in P(t)})


def neg(t):
    return scale(t, -1)


def sub(a, b):
    return add(a, neg(b))


def isint_const(c):
    return c is not None and c.denominator == 1


POS, NONZERO = set(), set()    # what the identities applied so far took to be positive, nonzero


def mono_mul(m1, m2):
    """product of two monomials -> (coef, mono, extra factors to multiply)"""
    if not m1:
        return 1, m2, ()
    if not m2:
        return 1, m1, ()
    d = dict(m1)
    coef = Fraction(1)
    extra = []
    for b, e in m2:
        if b in d:
            e0 = d[b]
            s = lowest(add(e0, e))
            c = isconst(s)
            for q in (e0, e):
                k = isconst(q)
                if k is None or k < 0 or k.denominator != 1:
                    (NONZERO if is_int(q) else POS).add(b)
            if c == 0:
                del d[b]
            elif b.op == 'gate' and b.a[1] is ONE and b.a[2] is ZERO and c is not None and c > 0:
                d[b] = ONE
            elif b.op == 'poly' and isconst(b) is not None and isint_const(c):
                del d[b]
                coef *= isconst(b) ** int(c)
            elif b.op == 'poly' and isint_const(c) and c > 0:
                del d[b]
                extra.append((b, int(c)))
            else:
                d[b] = s
        else:
            d[b] = e
    return coef, tuple(sorted(d.items(), key=lambda x: x[0].id)), tuple(extra)


_lowmemo = {}


def lowest(s):
    """cancels denominators that divide their numerators (used for exponents)"""
    if s.op != 'poly' or len(s.a[0]) < 2 or not any(b.op == 'poly' for m, c in s.a[0] for b, e in m):
        return s
    r = _lowmemo.get(s)
    if r is not None:
        return r
    r = s
    for b in {b for m, c in s.a[0] for b, e in m if b.op == 'poly' and isconst(b) is None and isconst(e) == -1}:
        num, rest = {}, {}
        for m, c in P(r):
            d = dict(m)
            if isconst(d.get(b, ZERO)) == -1:
                del d[b]
                num[tuple(sorted(d.items(), key=lambda x: x[0].id))] = c
            else:
                rest[m] = c
        q = exact_div(mkpoly(num), b)
        if q is not None:
            r = add(mkpoly(rest), q)
    _lowmemo[s] = r
    return r


def exact_div(n, d):
    """n / d when d divides n, by its leading monomial"""
    lm, lc = P(d)[0]
    q = ZERO
    for _ in range(20):
        if n is ZERO:
            return q
        for m, c in P(n):
            dm = dict(m)
            ok = True
            for b, e in lm:
                k = isconst(sub(dm.get(b, ZERO), e))
                if k is None or k < 0:
                    ok = False
                    break
                if k == 0:
                    dm.pop(b, None)
                else:
                    dm[b] = const(k)
            if ok:
                t = mkpoly({tuple(sorted(dm.items(), key=lambda x: x[0].id)): c / lc})
                break
        else:
            return None
        n2 = sub(n, mul(t, d))
        if len(P(n2)) >= len(P(n)) + 3:
            return None
        n = n2
        q = add(q, t)
    return None


_mulmemo = {}


def mul(a, b):
    if a is ONE:
        return b
    if b is ONE:
        return a
    if a is ZERO or b is ZERO:
        return ZERO
    if a is NAN or b is NAN:
        return NAN
    if a.op == 'undef' or b.op == 'undef':
        return UNDEF
    k = (a, b)
    r = _mulmemo.get(k)
    if r is not None:
        return r
    ca = isconst(a)
    if ca is not None:
        r = scale(b, ca)
    else:
        d = {}
        rest = ZERO
        for m1, c1 in P(a):
            for m2, c2 in P(b):
                k0, m, ex = mono_mul(m1, m2)
                if ex:
                    t = mkpoly({m: c1 * c2 * k0})
                    for bb, n in ex:
                        t = mul(t, expand_pow(bb, n))
                    rest = add(rest, t)
                else:
                    d[m] = d.get(m, 0) + c1 * c2 * k0
        r = mkpoly(d)
        if rest is not ZERO:
            r = add(r, rest)
    _mulmemo[k] = r
    return r


def expand_pow(b, n):
    r = ONE
    for _ in range(n):
        r = mul(r, b)
    return r


def prime_base(c, e):
    """c^e for a positive rational c and a non-integer/symbolic e, over prime bases"""
    r = ONE
    for n, sg in ((c.numerator, 1), (c.denominator, -1)):
        p = 2
        k = n
        while k > 1:
            cnt = 0
            while k % p == 0:
                k //= p
                cnt += 1
            if cnt:
                r = mul(r, _basepow(const(p), scale(e, cnt * sg)))
            p += 1
            if p * p > k and k > 1:
                r = mul(r, _basepow(const(k), scale(e, sg)))
                k = 1
            if p > 10000:
                if k > 1:
                    r = mul(r, _basepow(const(k), scale(e, sg)))
                break
    return r


def _basepow(b, e):
    c = isconst(e)
    if c == 0:
        return ONE
    if b.op == 'poly':
        cb = isconst(b)
        if cb is not None and isint_const(c):
            return const(cb ** int(c))
        return mk('poly', ((((b, e),), Fraction(1)),))
    return mkpoly({((b, e),): Fraction(1)})


def sym_split(e):
    """exponent e = q * s with s canonical symbolic (lead coefficient 1), or (const, None)"""
    c = isconst(e)
    if c is not None:
        return c, None
    lead = P(e)[0][1]
    return lead, scale(e, 1 / lead)


def content(p, positive_only=False):
    """p = c * mono * prim, prim primitive; returns (c, mono-term, prim)"""
    items = P(p)
    # rational content
    from math import gcd
    num = 0
    den = 1
    for _, c in items:
        num = gcd(num, abs(c.numerator))
        den = den * c.denominator // gcd(den, c.denominator)
    k = Fraction(num, den)
    # monomial content: for each generator (base, s) the minimal multiplicity over all monomials (absent: 0)
    gens = {}
    for idx, (m, _) in enumerate(items):
        for b, e in m:
            q, s = sym_split(e)
            gens.setdefault((b, s), {})[idx] = q
    f = ONE
    for (b, s), occ in gens.items():
        qs = list(occ.values())
        if len(occ) < len(items):
            qs.append(Fraction(0))
        mn = min(qs)
        if mn != 0:
            f = mul(f, powr(b, const(mn) if s is None else scale(s, mn)))
    prim = p
    if f is not ONE:
        # with constant exponents the division is exact (an exponent below zero is a pole of p as well)
        exact = all(s is None for b, s in gens)
        saved = (set(POS), set(NONZERO)) if exact else None
        prim = mul(prim, inv_mono(f))
        if exact:
            for now, was in zip((POS, NONZERO), saved):
                now.intersection_update(was)
    prim = scale(prim, 1 / k)
    if not positive_only:
        y = typical(prim)
        if y < -1e-9 or abs(y) <= 1e-9 and P(prim)[0][1] < 0:
            k, prim = -k, neg(prim)
    return k, f, prim


_typ = {}


def typical(t):
    """a rough value of a sum where amounts are 1 and table entries small; it only orients the bases of powers (1 - s, not s - 1)"""
    r = _typ.get(t)
    if r is None:
        try:
            r = _typical(t)
        except (OverflowError, ValueError, ZeroDivisionError, RecursionError):
            r = 0.1
        if isinstance(r, complex) or r != r or abs(r) > 1e30:
            r = 0.1
        _typ[t] = r
    return r


def _typical(t):
    if t.op == 'var':
        return 1.0
    if t.op == 'poly':
        y = 0.0
        for m, c in P(t):
            z = float(c)
            for b, e in m:
                z *= typical(b) ** typical(e)
            y += z
        return y
    if t.op == 'abs':
        return abs(typical(t.a[0]))
    if t.op == 'gate' and isnum(t.a[1]) and isnum(t.a[2]):
        return (typical(t.a[1]) + typical(t.a[2])) / 2
    if t is E:
        return 2.718281828
    if t.op == 'sum':
        return 0.05
    return 1 / 64


def inv_mono(f):
    (m, c), = P(f)
    return mkpoly({tuple((b, neg(e)) for b, e in m): 1 / c})


_powmemo = {}


def powr(b, e):
    k = (b, e)
    r = _powmemo.get(k)
    if r is None:
        r = _powmemo[k] = _powr(b, e)
    return r


def _powr(b, e):
    ce = isconst(e)
    if ce == 0:
        return ONE
    if ce == 1:
        return b
    if b is NAN or e is NAN:
        return NAN
    if b.op == 'undef' or e.op == 'undef':
        return UNDEF
    cb = isconst(b)
    if cb is not None:
        if cb == 1:
            return ONE
        if isint_const(ce) and abs(ce) < 400 and (cb != 0 or ce > 0):
            return const(cb ** int(ce))
        if cb > 0:
            return prime_base(cb, e)
        if cb == 0 and ce is not None and ce > 0:
            return ZERO
        if cb < 0:
            return mul(negpow(e), powr(const(-cb), e))
        return app('pow', 'f', b, e)
    if b is E:
        return exp_(e)
    items = P(b)
    if len(items) == 1:
        m, c = items[0]
        if isint_const(ce) or c > 0:
            r = ONE if c == 1 else powr(const(c), e)
            if not isint_const(ce) and (len(m) > 1 or m[0][1] is not ONE) and not is_int(e):
                POS.update(bb for bb, ee in m if bb is not E)
            elif not isint_const(ce):
                NONZERO.update(bb for bb, ee in m if ee is not ONE)
            for bb, ee in m:
                if bb.op == 'gate' and bb.a[1] is ONE and bb.a[2] is ZERO and ee is ONE and isint_const(ce) and ce > 0:
                    r = mul(r, bb)
                elif bb is E:
                    r = mul(r, exp_(mul(ee, e)))
                else:
                    ne = lowest(mul(ee, e))
                    cne = isconst(ne)
                    if bb.op == 'poly' and isconst(bb) is None and isint_const(cne) and cne > 0:
                        r = mul(r, expand_pow(bb, int(cne)))
                    else:
                        r = mul(r, _basepow(bb, ne))
            return r
        # negative coefficient, non-integer exponent: the sign is kept as a power of -1
        return mul(negpow(e), powr(neg(b), e))
    if isint_const(ce) and 2 <= ce <= 8 and len(items) ** int(ce) <= 600:
        return expand_pow(b, int(ce))
    nonint = not isint_const(ce)
    k, f, prim = content(b)
    if f is not ONE:
        if nonint and not is_int(e):
            POS.update(bb for bb, ee in P(f)[0][0] if bb is not E)
        elif nonint:
            NONZERO.update(bb for bb, ee in P(f)[0][0])
    r = ONE
    if k < 0 and nonint:
        r = negpow(e)
        k = -k
    if k != 1:
        r = mul(r, powr(const(k), e))
    if f is not ONE:
        r = mul(r, powr(f, e))
    if len(P(prim)) == 1:
        return mul(r, powr(prim, e))
    return mul(r, _basepow(prim, e))


def negpow(e):
    return mk('poly', ((((const(-1), e),), Fraction(1)),))


def div(a, b):
    if b is ZERO:
        return app('div0', 'f', a)
    return mul(a, powr(b, const(-1)))


def exp_(x):
    """e^x, with k*ln(b) summands turned into powers"""
    if x.op == 'undef':
        return x
    r = ONE
    rest = {}
    for m, c in P(x):
        lns = [b for b, e in m if b.op == 'app' and b.a[0] == 'ln' and e is ONE]
        if len(lns) == 1:
            l = lns[0]
            POS.add(l.a[2])
            k = mkpoly({tuple(z for z in m if z[0] is not l): c})
            r = mul(r, powr(l.a[2], k))
        else:
            rest[m] = c
    if rest:
        r = mul(r, mkpoly({((E, mkpoly(rest)),): Fraction(1)}))
    return r


def ln_(x):
    if x.op == 'undef':
        return x
    c = isconst(x)
    if c == 1:
        return ZERO
    if c is not None and c <= 0:
        return app('ln', 'f', x)
    if c is not None:
        acc = ZERO
        for m, k in P(prime_base(c, var('$x', 'f'))):
            for b, e in m:
                acc = add(acc, scale(app('ln', 'f', b), P(e)[0][1]))
        return acc
    items = P(x)
    if len(items) == 1:
        m, k = items[0]
        if k > 0:
            acc = ln_(const(k)) if k != 1 else ZERO
            POS.update(b for b, e in m if b is not E)
            for b, e in m:
                acc = add(acc, e if b is E else mul(e, app('ln', 'f', b) if b.op != 'poly' or isconst(b) is not None else app('ln', 'f', b)))
            return acc
        return app('ln', 'f', x)
    k, f, prim = content(x, positive_only=True)
    if k == 1 and f is ONE:
        return app('ln', 'f', x)
    POS.update(b for b, e in P(f)[0][0] if b is not E)
    return add(ln_(const(k)), ln_(f), ln_(prim))


# ---------------------------------------------------------------- integrality and bounds
def is_int(t):
    if t.op == 'poly':
        for m, c in t.a[0]:
            if c.denominator != 1:
                return False
            for b, e in m:
                ce = isconst(e)
                if not (isint_const(ce) and ce > 0 and is_int(b)):
                    return False
        return True
    if t.op in ('var', 'app'):
        return t.a[1] in ('i', 'u')
    if t.op == 'gate':
        return is_int(t.a[1]) and is_int(t.a[2])
    if t.op == 'abs':
        return is_int(t.a[0])
    if t.op in ('sum', 'first', 'extr'):
        return is_int(t.a[3])
    return False


class Ctx:
    """Facts assumed at the current point of a comparison."""
    def __init__(self, parent=None):
        self.lits = dict(parent.lits) if parent else {}
        self.lin = list(parent.lin) if parent else []      # (poly, strict): poly <0 / <=0
        self.sets = dict(parent.sets) if parent else {}    # enum symbol -> allowed frozenset (or None)
        self.notsets = dict(parent.notsets) if parent else {}
        self.divs = {k: (set(v[0]), set(v[1])) for k, v in parent.divs.items()} if parent else {}
        self.bnd = dict(parent.bnd) if parent else {}      # atom -> (lo, hi)
        self.neq = dict(parent.neq) if parent else {}      # integer -> values it does not have

CTX = [Ctx()]


def ctx():
    return CTX[-1]


DATES = set()                                     # symbols that stand for calendar dates
DATE_BOUNDS = (Fraction(-95746000), Fraction(95746000))
FN_BOUNDS = {'ymd': DATE_BOUNDS, 'yo': DATE_BOUNDS, 'year': (-262143, 262142), 'month': (1, 12), 'day': (1, 31), 'len': (0, None), 'mlen': (0, None), 'slen': (0, None)}
NONNEG_OPS = ('abs',)


def iadd(a, b):
    return (None if a[0] is None or b[0] is None else a[0] + b[0], None if a[1] is None or b[1] is None else a[1] + b[1])


def iscale(a, k):
    if k == 0:
        return (Fraction(0), Fraction(0))
    lo, hi = a
    lo = None if lo is None else lo * k
    hi = None if hi is None else hi * k
    return (lo, hi) if k > 0 else (hi, lo)


def _by_lit(b, t, q, strict):
    """the interval b of t where q < 0 (or q <= 0)"""
    lo, hi = b
    d = same_linear(q, t)
    if d is not None:
        s, k = d                # q = s*t + k <= 0
        v = -k / s
        if s > 0:
            if strict and is_int(t):
                v = Fraction(-((-v) // 1) - 1)
            hi = v if hi is None else min(hi, v)
        else:
            if strict and is_int(t):
                v = Fraction(v // 1 + 1)
            lo = v if lo is None else max(lo, v)
    return lo, hi


def bounds(t):
    """interval (lo, hi) of a numeric term under the current context; None = unbounded"""
    c = isconst(t)
    if c is not None:
        return (c, c)
    cx = ctx()
    if t in cx.bnd:
        return cx.bnd[t]
    if t.op == 'poly':
        r = (Fraction(0), Fraction(0))
        for m, k in t.a[0]:
            if m == ():
                b = (k, k)
            elif len(m) == 1 and m[0][1] is ONE:
                b = iscale(bounds(m[0][0]), k)
            else:
                b = (None, None)
                lo, hi = Fraction(1), Fraction(1)
                ok = True
                for bb, ee in m:
                    q = isconst(ee)
                    if not (isint_const(q) and q > 0):
                        ok = False
                        break
                    l, h = bounds(bb)
                    if l is None or l < 0:
                        ok = False
                        break
                    lo = lo * l ** int(q)
                    hi = None if h is None or hi is None else hi * h ** int(q)
                if ok:
                    b = iscale((lo, hi), k)
                elif nonneg_mono(m):
                    b = iscale((Fraction(0), None), k)
            r = iadd(r, b)
            if r == (None, None):
                break
        lo, hi = r
        if len(t.a[0]) > 1:
            ab = [(m, k) for m, k in t.a[0] if len(m) == 1 and m[0][1] is ONE and m[0][0].op == 'abs']
            # one after the other, in any order; with many of them, in one order
            for m, k in ab if len(ab) < 3 else ab[:1] if len(ab) < 6 else ():
                p = m[0][0].a[0]
                rest = sub(t, scale(m[0][0], k))
                (l1, h1), (l2, h2) = bounds(add(rest, scale(p, k))), bounds(add(rest, scale(p, -k)))
                # the value is the larger (k > 0) or the smaller of the two
                f = max if k > 0 else min
                l = f(l1, l2) if l1 is not None and l2 is not None else (l2 if l1 is None else l1) if k > 0 else None
                h = f(h1, h2) if h1 is not None and h2 is not None else (h2 if h1 is None else h1) if k < 0 else None
                lo = l if lo is None or l is not None and l > lo else lo
                hi = h if hi is None or h is not None and h < hi else hi
        if 1 < len(t.a[0]) <= 4:
            gs = [(m, k) for m, k in t.a[0] if len(m) == 1 and m[0][1] is ONE and m[0][0].op == 'gate' and m[0][0].a[0].op == 'bdd']
            if len(gs) == 1:
                g, k = gs[0][0][0][0], gs[0][1]
                d, y, n = g.a[0].a
                if y is FALSE and n is TRUE:
                    y, n, gt, gf = TRUE, FALSE, g.a[2], g.a[1]
                else:
                    gt, gf = g.a[1], g.a[2]
                if y is TRUE and n is FALSE and d.op in ('lt0', 'le0'):
                    # the cases of a condition about the rest
                    rest = sub(t, scale(g, k))
                    if same_linear(d.a[0], rest) is not None:
                        b = bounds(rest)
                        l1, h1 = iadd(_by_lit(b, rest, d.a[0], d.op == 'lt0'), iscale(bounds(gt), k))
                        l2, h2 = iadd(_by_lit(b, rest, neg(d.a[0]), d.op == 'le0'), iscale(bounds(gf), k))
                        l = min(l1, l2) if None not in (l1, l2) else None
                        h = max(h1, h2) if None not in (h1, h2) else None
                        lo = l if lo is None or l is not None and l > lo else lo
                        hi = h if hi is None or h is not None and h < hi else hi
        for (q, strict) in cx.lin:      # q < 0 or q <= 0 with q = s*t + const
            lo, hi = _by_lit((lo, hi), t, q, strict)
        return (lo, hi)
    r = (None, None)
    if t.op == 'app':
        f = t.a[0]
        if f == 'ordinal':
            r = (Fraction(1), Fraction(365) if leap_cond(app('year', 'i', t.a[2])) is FALSE else Fraction(366))
            lc = leap_cond(app('year', 'i', t.a[2]))
            lc = simp_bool(lc)
            if lc is FALSE:
                r = (Fraction(1), Fraction(365))
        elif f in FN_BOUNDS:
            lo, hi = FN_BOUNDS[f]
            r = (None if lo is None else Fraction(lo), None if hi is None else Fraction(hi))
        elif f in ('floor', 'ceil', 'round', 'trunc'):
            lo, hi = bounds(t.a[2])
            import math
            fn = {'floor': math.floor, 'ceil': math.ceil, 'round': lambda x: math.floor(x + Fraction(1, 2)) if x >= 0 else -math.floor(-x + Fraction(1, 2)), 'trunc': lambda x: int(x)}[f]
            r = (None if lo is None else Fraction(fn(lo)), None if hi is None else Fraction(fn(hi)))
        elif f == 'imod':
            c = isconst(t.a[3])
            if c and c > 0:
                lo, _ = bounds(t.a[2])
                r = (Fraction(0) if lo is not None and lo >= 0 else -(c - 1), c - 1)
        elif f == 'emod' and isconst(t.a[3]):
            r = (Fraction(0), abs(isconst(t.a[3])) - 1)
        elif t.a[1] == 'u':
            r = (Fraction(0), None)
    elif t.op == 'abs' or (t.op == 'sum' and nonneg_mono(P(t.a[3])[0][0])):
        r = (Fraction(0), None)
    elif t.op == 'gate':
        x, y = bounds(t.a[1]), bounds(t.a[2])
        r = (None if x[0] is None or y[0] is None else min(x[0], y[0]), None if x[1] is None or y[1] is None else max(x[1], y[1]))
    elif t.op in ('var', 'app') and t.a[1] == 'u':
        r = (Fraction(0), None)
    elif t is INF:
        r = (Fraction(10 ** 400), None)
    elif t in DATES:
        r = DATE_BOUNDS
    lo, hi = r
    for (q, strict) in cx.lin:
        d = same_linear(q, t)
        if d is not None:
            s, k = d
            v = -k / s
            it = is_int(t)
            if s > 0:
                if it:
                    v = Fraction(-((-v) // 1)) - 1 if strict else Fraction(v // 1)
                hi = v if hi is None else min(hi, v)
            else:
                if it:
                    v = Fraction(v // 1) + 1 if strict else Fraction(-((-v) // 1))
                lo = v if lo is None else max(lo, v)
    ne = cx.neq.get(t)
    if ne:
        while lo in ne:
            lo += 1
        while hi in ne:
            hi -= 1
    return (lo, hi)


def same_linear(q, t):
    """q = s*t + k?  -> (s, k)"""
    iq = [(m, c) for m, c in P(q) if m != ()]
    it = [(m, c) for m, c in P(t) if m != ()]
    if len(iq) != len(it) or not it:
        return None
    s = iq[0][1] / it[0][1]
    for (m1, c1), (m2, c2) in zip(iq, it):
        if m1 != m2 or c1 != s * c2:
            return None
    kq = next((c for m, c in P(q) if m == ()), Fraction(0))
    kt = next((c for m, c in P(t) if m == ()), Fraction(0))
    return s, kq - s * kt


def nonneg_mono(m):
    for b, e in m:
        if isconst(b) is not None and isconst(b) < 0:
            return False
        c = isconst(e)
        if b is E or b.op in NONNEG_OPS:
            continue
        if isint_const(c) and c % 2 == 0:
            continue
        if c is None or not isint_const(c):
            POS.add(b)
            continue            # real power of a positive base
        if b.op != 'poly':
            l, _ = bounds(b)
            if l is not None and l >= 0:
                continue
        return False
    return True


def nonneg(t):
    l, _ = bounds(t)
    return l is not None and l >= 0


# ---------------------------------------------------------------- booleans (ordered decision diagrams)
TRUE = mk('true')
FALSE = mk('false')
BOOL_OPS = ('true', 'false', 'bdd')


def isbool(t):
    return t.op in BOOL_OPS


def atom(t):
    return bnode(t, TRUE, FALSE)


def bnode(a, hi, lo):
    if hi is lo:
        return hi
    if hi.op == 'bdd' or lo.op == 'bdd':
        if a.op == 'in':
            # tests of one variant value alone are one test
            dom = enum_domain(a.a[0])
            if dom is not None:
                h, l = in_set(hi, a.a[0], dom), in_set(lo, a.a[0], dom)
                if h is not None and l is not None:
                    return member(a.a[0], (a.a[1] & h) | ((dom - a.a[1]) & l))
        if (hi.op == 'bdd' and hi.a[0].id <= a.id) or (lo.op == 'bdd' and lo.a[0].id <= a.id):
            return ite(mk('bdd', a, TRUE, FALSE), hi, lo)
    return mk('bdd', a, hi, lo)


def in_set(b, s, dom):
    """the variants of s for which b holds, if b tests nothing else (once)"""
    if b is TRUE:
        return dom
    if b is FALSE:
        return frozenset()
    if b.op == 'bdd' and b.a[0].op == 'in' and b.a[0].a[0] is s and b.a[1].op != 'bdd' and b.a[2].op != 'bdd':
        return b.a[0].a[1] if b.a[1] is TRUE else dom - b.a[0].a[1]
    return None


_itememo = {}


def ite(f, g, h):
    """if f then g else h, on decision diagrams"""
    if f is TRUE:
        return g
    if f is FALSE:
        return h
    if g is h:
        return g
    if g is TRUE and h is FALSE:
        return f
    k = (f, g, h)
    r = _itememo.get(k)
    if r is not None:
        return r
    top = min((x.a[0] for x in (f, g, h) if x.op == 'bdd'), key=lambda x: x.id)

    def cof(x, hi):
        if x.op == 'bdd' and x.a[0] is top:
            return x.a[1] if hi else x.a[2]
        return x
    r = bnode(top, ite(cof(f, 1), cof(g, 1), cof(h, 1)), ite(cof(f, 0), cof(g, 0), cof(h, 0)))
    _itememo[k] = r
    return r


def NOT(a):
    return ite(a, FALSE, TRUE)


def literal(x):
    """a condition that is one comparison: (p, strict) for p < 0 or p <= 0"""
    if x.op == 'bdd' and x.a[0].op in ('lt0', 'le0'):
        if x.a[1] is TRUE and x.a[2] is FALSE:
            return x.a[0].a[0], x.a[0].op == 'lt0'
        if x.a[1] is FALSE and x.a[2] is TRUE:
            return neg(x.a[0].a[0]), x.a[0].op == 'le0'
    return None


def within_abs(x, y):
    """-c < p and p < c, written |p| < c"""
    a, b = literal(x), literal(y)
    if a is None or b is None or a[1] != b[1]:
        return None
    s = isconst(add(a[0], b[0]))
    if s is None or s >= 0 or dict(P(a[0])).get((), 0) * 2 != s or is_int(a[0]):
        return None
    c = add(absv(sub(a[0], const(s / 2))), const(s / 2))
    return lt0(c) if a[1] else le0(c)


def AND(*xs):
    if len(xs) == 2 and xs[0].op == xs[1].op == 'bdd':
        r = within_abs(*xs)
        if r is not None:
            return r
    r = TRUE
    for x in xs:
        r = ite(r, x, FALSE)
    return r


def merge_in(xs):
    """a disjunction's operands with the variant tests of one value joined"""
    by, out = {}, []
    for x in xs:
        if x.op == 'bdd' and x.a[0].op == 'in' and x.a[1] is TRUE and x.a[2] is FALSE:
            by.setdefault(x.a[0].a[0], []).append(x)
        else:
            out.append(x)
    if all(len(l) == 1 for l in by.values()):
        return xs
    for s, l in by.items():
        out.append(l[0] if len(l) == 1 else member(s, frozenset().union(*[x.a[0].a[1] for x in l])))
    return out


def OR(*xs):
    r = FALSE
    if len(xs) == 2 and xs[0].op == xs[1].op == 'bdd':
        r2 = within_abs(NOT(xs[0]), NOT(xs[1]))
        if r2 is not None:
            return NOT(r2)
    if len(xs) > 1:
        xs = merge_in(xs)
    for x in xs:
        r = ite(r, TRUE, x)
    return r


def IMP(a, b):
    return OR(NOT(a), b)


def XOR(a, b):
    return ite(a, NOT(b), b)


def rebuild_bdd(a, hi, lo):
    # a was an atom; after rebuilding it may be any condition
    if not isbool(a):
        a = atom(a)
    return ite(a, hi, lo)


REBUILD['bdd'] = rebuild_bdd


def batoms(t, acc=None, seen=None):
    """atoms of a decision diagram (not looking inside atoms)"""
    if acc is None:
        acc, seen = [], set()
    if t in seen or t.op != 'bdd':
        return acc
    seen.add(t)
    if t.a[0] not in acc:
        acc.append(t.a[0])
    batoms(t.a[1], acc, seen)
    batoms(t.a[2], acc, seen)
    return acc


# numeric comparison atoms: lt0(p): p<0, le0(p): p<=0, eq0(p); p scaled so that its leading coefficient is +-1
def _norm_cmp(p):
    lead = P(p)[0][1]
    return scale(p, 1 / abs(lead)), lead > 0


def lt0(p):
    return _cmp(p, True)


def le0(p):
    return _cmp(p, False)


def half_line(p, strict):
    """b (u + |u|) + c against zero, a condition on u alone"""
    ab = [(m[0][0], c) for m, c in P(p) if len(m) == 1 and m[0][0].op == 'abs' and m[0][1] is ONE]
    if len(ab) != 1:
        return None
    x, b = ab[0]
    u = x.a[0]
    rest = sub(p, scale(x, b))
    for v in (u, neg(u)):
        k = isconst(sub(rest, scale(v, b)))
        if k is None:
            continue
        d = -k / b              # v + |v| against d
        if b > 0:
            if d < 0 or (strict and d == 0):
                return FALSE
            return _cmp(sub(v, const(d / 2)), strict)
        if d < 0 or (not strict and d == 0):
            return TRUE
        return _cmp(sub(const(d / 2), v), strict)
    return None


def _cmp(p, strict):
    if p is NAN or p.op == 'undef':
        return FALSE
    lo, hi = bounds(p)
    if hi is not None and (hi < 0 or (not strict and hi == 0)):
        return TRUE
    if lo is not None and (lo > 0 or (strict and lo == 0)):
        return FALSE
    if p.op == 'gate' and (isconst(p.a[1]) is not None or isconst(p.a[2]) is not None):
        return ite(p.a[0], _cmp(p.a[1], strict), _cmp(p.a[2], strict))
    q = half_line(p, strict)
    if q is not None:
        return q
    if is_int_scaled(p):
        return int_le(p, strict)
    q = clear_nonneg(p)
    if q is not p:
        return _cmp(q, strict)
    if len(P(p)) == 1:
        # sign of a monomial: drop positive factors
        m, c = P(p)[0]
        keep = tuple((b, e) for b, e in m if (isconst(b) is not None and isconst(b) < 0) or not (b is E or isconst(e) is None or not isint_const(isconst(e))))
        if keep != m:
            POS.update(b for b, e in m if (b, e) not in keep and b is not E)
        if keep != m and keep:
            return _cmp(mkpoly({keep: c}), strict)
    q, pos = _norm_cmp(p)
    if pos:
        return atom(mk('lt0' if strict else 'le0', q))
    # q has leading coefficient -1:  q<0  <=>  not(-q <= 0)
    return NOT(atom(mk('le0' if strict else 'lt0', neg(q))))


def clear_nonneg(p):
    """p times the denominators that cannot be negative"""
    need = {}
    for m, c in P(p):
        for b, e in m:
            ce = isconst(e)
            if ce is not None and ce < 0 and ce.denominator == 1 and b is not E and (b.op in NONNEG_OPS or nonneg(b)):
                need[b] = max(need.get(b, 0), int(-ce))
    if not need:
        return p
    NONZERO.update(need)
    acc = ZERO
    for m, c in P(p):
        t = const(c)
        d = dict(m)
        for b, k in need.items():
            d[b] = add(d.get(b, ZERO), const(k))
        for b, e in d.items():
            ce = isconst(e)
            if e is ZERO:
                continue
            if b.op == 'poly' and ce is not None and ce.denominator == 1 and ce > 0 and len(P(b)) ** int(ce) < 200:
                for _ in range(int(ce)):
                    t = mul(t, b)
            else:
                t = mul(t, mk('poly', ((((b, e),), Fraction(1)),)) if b.op == 'poly' else mkpoly({((b, e),): Fraction(1)}))
        acc = add(acc, t)
    return acc


def is_int_scaled(p):
    from math import gcd
    den = 1
    for m, c in P(p):
        den = den * c.denominator // gcd(den, c.denominator)
    return is_int(scale(p, den)) and all(m == () or True for m, c in P(p))


def int_le0(p):
    if p.op == 'sum' and NONE_OF is not None:
        r = NONE_OF(p)
        if r is not None:
            return r
    return atom(mk('le0', p))


NONE_OF = None          # hook: the condition that a count is zero


def int_le(p, strict):
    """p<0 or p<=0 over the integers, tightened:  q <= k"""
    from math import gcd
    den = 1
    for m, c in P(p):
        den = den * c.denominator // gcd(den, c.denominator)
    p = scale(p, den)
    k = next((c for m, c in P(p) if m == ()), Fraction(0))
    g = 0
    for m, c in P(p):
        if m != ():
            g = gcd(g, abs(int(c)))
    lin = sub(p, const(k))
    lin = scale(lin, Fraction(1, g))
    # g*lin + k < 0 (or <= 0)  ->  lin <= floor((-k - [strict])/g)
    bound = (-k - (1 if strict else 0)) / g
    bound = Fraction(bound // 1)
    lead = P(lin)[0][1]
    if lead > 0:
        return int_le0(sub(lin, const(bound)))
    # lin <= b  <=>  not(lin >= b+1)  <=>  not(-lin <= -b-1)
    return NOT(int_le0(add(neg(lin), const(bound + 1))))


REBUILD['lt0'] = lambda p: lt0(p)
REBUILD['le0'] = lambda p: le0(p)


def lt(a, b):
    return lt0(sub(a, b))


def le(a, b):
    return le0(sub(a, b))


def _by_day(p):
    """p = 0 by cases when p depends on whether a date is the first or the last day of its month"""
    c = None
    for m, k in P(p):
        for b, e in m:
            if b.op == 'gate':
                if e is not ONE or (c is not None and b.a[0] is not c):
                    return None
                c = b.a[0]
    if c is None or not all(any(x.op == 'app' and x.a[0] in ('year', 'month', 'day', 'ordinal') for x in subterms(a)) for a in batoms(c)):
        return None
    out = []
    for i in (1, 2):
        ts = []
        for m, k in P(p):
            t = mkpoly({tuple((b, e) for b, e in m if b.op != 'gate'): k})
            for b, e in m:
                if b.op == 'gate':
                    t = mul(t, b.a[i])
            ts.append(t)
        out.append(eq0(add(*ts)))
    return ite(c, *out)


def eq0(p):
    c = isconst(p)
    if c is not None:
        return TRUE if c == 0 else FALSE
    if p is NAN or p.op == 'undef':
        return FALSE
    lo, hi = bounds(p)
    if (lo is not None and lo > 0) or (hi is not None and hi < 0):
        return FALSE
    if lo is not None and lo == hi == 0:
        return TRUE
    if p.op == 'sum' and lo == 0:
        return le0(p)
    if p.op == 'gate' and (isconst(p.a[1]) is not None or isconst(p.a[2]) is not None):
        return ite(p.a[0], eq0(p.a[1]), eq0(p.a[2]))
    if len(P(p)) == 1:
        m, c = P(p)[0]
        if len(m) == 1 and m[0][0].op == 'app' and m[0][0].a[0] in ('imod', 'emod') and isconst(m[0][0].a[3]):
            return divis(m[0][0].a[2], isconst(m[0][0].a[3]))
        keep = tuple((b, ONE) for b, e in m if not (b is E or (isconst(e) is not None and isconst(e) < 0)))
        NONZERO.update(b for b, e in m if b is not E and isconst(e) is not None and isconst(e) < 0)
        if keep != m and keep:
            return eq0(mkpoly({keep: Fraction(1)}))
    if p.op == 'abs':
        return eq0(p.a[0])
    if is_int_scaled(p):
        from math import gcd
        g = 0
        k = next((c for m, c in P(p) if m == ()), Fraction(0))
        den = 1
        for m, c in P(p):
            den = den * c.denominator // gcd(den, c.denominator)
        for m, c in P(p):
            if m != ():
                g = gcd(g, abs(int(c * den)))
        if (k * den) % g != 0:
            return FALSE
    # a denominator common to all terms does not matter
    if len(P(p)) > 1:
        low = {}
        for m, c in P(p):
            d = {b: isconst(e) for b, e in m}
            low = {b: e for b, e in d.items() if e is not None and e < 0 and b is not E} if not low else \
                  {b: max(e, d[b]) for b, e in low.items() if d.get(b) is not None and d[b] < 0}
            if not low:
                break
        if low:
            saved = set(NONZERO)
            q = mul(p, mkpoly({tuple((b, const(-e)) for b, e in low.items()): Fraction(1)}))
            NONZERO.intersection_update(saved)
            NONZERO.update(low)
            return eq0(q)
    r = _by_day(p)
    if r is not None:
        return r
    q, pos = _norm_cmp(p)
    return atom(mk('eq0', q if pos else neg(q)))


REBUILD['eq0'] = eq0


def num_eq(a, b):
    return eq0(sub(a, b))


def divis(n, c):
    c = int(c)
    if c == 1:
        return TRUE
    k = isconst(n)
    if k is not None:
        return TRUE if k % c == 0 else FALSE
    return atom(mk('divis', n, c))


REBUILD['divis'] = divis


def leap_cond(y):
    return OR(AND(divis(y, 4), NOT(divis(y, 100))), divis(y, 400))


def member(s, names):
    """enum symbol s is one of the variants `names`"""
    if s.op == 'variant':
        return TRUE if s.a[1] in names else FALSE
    if s.op == 'gate':
        return ite(s.a[0], member(s.a[1], names), member(s.a[2], names))
    if s.op == 'undef':
        return FALSE
    if not names:
        return FALSE
    dom = enum_domain(s)
    if dom is not None:
        names = frozenset(names) & dom
        if not names:
            return FALSE
        if names == dom:
            return TRUE
        if min(dom) in names:
            return NOT(atom(mk('in', s, dom - names)))
    return atom(mk('in', s, frozenset(names)))


REBUILD['in'] = member
ENUMS = {}      # adt key -> frozenset of variant names


def enum_domain(s):
    so = s.a[1] if s.op in ('var', 'app') else None
    if isinstance(so, tuple) and so and so[0] == 'enum':
        return ENUMS.get(so[1])
    return None


# ---------------------------------------------------------------- gates
UNDEF = mk('undef')
GATE_MERGE = {}


def point_gate(c, a, b):
    """v = k ? f(k) : f(v)  is  f(v)"""
    if c.op != 'bdd' or c.a[0].op != 'eq0':
        return None
    if c.a[1] is TRUE and c.a[2] is FALSE:
        x, y = a, b
    elif c.a[1] is FALSE and c.a[2] is TRUE:
        x, y = b, a
    else:
        return None
    z = c.a[0].a[0]
    for v in y.fv:
        if v in x.fv or v.a[1] not in ('i', 'u'):
            continue
        k = dict(P(z)).get(((v, ONE),))
        if k in (1, -1):
            w = sub(v, scale(z, 1 / k))
            if v not in w.fv and subst(y, {v: w}) is x:
                return y
    return None


def extreme_gate(c, a, b):
    """the larger or smaller of two numbers, chosen by comparing them"""
    if c.op != 'bdd' or c.a[0].op not in ('lt0', 'le0'):
        return None
    if c.a[1] is TRUE and c.a[2] is FALSE:
        small = 1
    elif c.a[1] is FALSE and c.a[2] is TRUE:
        small = -1
    else:
        return None
    q = c.a[0].a[0]
    pq = P(q)
    d = sub(a, b)
    pd = P(d)
    if abs(len(pq) - len(pd)) > 1 or not pd:
        return None
    m, k = next(((m, k) for m, k in pd if m != ()), ((), 0))
    if not k:
        return None
    k2 = dict(pq).get(m)
    if not k2:
        return None
    e = scale(q, k / k2)
    if e is not d:
        # whole numbers: d < 0 is d + 1 <= 0
        if not (is_int(d) and isconst(sub(e, d)) == (1 if k2 / k > 0 else -1) and c.a[0].op == 'le0' and abs(k2 / k) == 1):
            return None
    if k2 / k < 0:
        small = -small
    return minv(a, b) if small > 0 else maxv(a, b)


def cofactor(c, atm, v):
    """c where the atom is v"""
    def cut(t, memo):
        if t.op != 'bdd':
            return t
        r = memo.get(t)
        if r is None:
            if t.a[0] is atm:
                r = t.a[1 if v else 2]
            else:
                h, l = cut(t.a[1], memo), cut(t.a[2], memo)
                r = t if h is t.a[1] and l is t.a[2] else bnode(t.a[0], h, l)
            memo[t] = r
        return r
    return cut(c, {})


def beyond(c, d, disj):
    """d is literals any of which makes c true (or, of a conjunction, false makes c false): c where none of them does"""
    if c.op != 'bdd' or d.op != 'bdd':
        return None
    end = TRUE if disj else FALSE
    while d.op == 'bdd':
        # the side of the atom that settles d
        if d.a[1] is end:
            v, rest = True, d.a[2]
        elif d.a[2] is end:
            v, rest = False, d.a[1]
        else:
            return None
        if c.op != 'bdd' or d.a[0] not in batoms(c) or cofactor(c, d.a[0], v) is not end:
            return None
        c, d = cofactor(c, d.a[0], not v), rest
    return c if d is not end else None


def gate(c, a, b):
    if c is TRUE:
        return a
    if c is FALSE:
        return b
    if a is b:
        return a
    if a is UNDEF:
        return b
    if b is UNDEF:
        return a
    if isbool(a) and isbool(b):
        return ite(c, a, b)
    if isbool(a) or isbool(b):
        # a boolean against something opaque
        a2 = a if isbool(a) else atom(a)
        b2 = b if isbool(b) else atom(b)
        return ite(c, a2, b2)
    if a.op == b.op and a.op in ('tuple',) and len(a.a) == len(b.a):
        return mk('tuple', *[gate(c, x, y) for x, y in zip(a.a, b.a)])
    if a.op == b.op == 'rec' and a.a[0] == b.a[0]:
        return mk('rec', a.a[0], *[gate(c, x, y) for x, y in zip(a.a[1:], b.a[1:])])
    if a.op == b.op == 'variant' and a.a[:2] == b.a[:2]:
        return mk('variant', a.a[0], a.a[1], *[gate(c, x, y) for x, y in zip(a.a[2:], b.a[2:])])
    if a.op == b.op == 'list' and len(a.a) == len(b.a):
        return mk('list', *[gate(c, x, y) for x, y in zip(a.a, b.a)])
    mg = GATE_MERGE.get(a.op) or GATE_MERGE.get(b.op)
    if mg is not None and a is not UNDEF and b is not UNDEF:
        r = mg(c, a, b)
        if r is not None:
            return r
    # nested gates sharing a branch
    if a.op == 'gate':
        d, x, y = a.a
        if d is c:
            return gate(c, x, b)
        if y is b:
            return gate(AND(c, d), x, b)
        if x is b:
            return gate(AND(c, NOT(d)), y, b)
    if b.op == 'gate':
        d, x, y = b.a
        if d is c:
            return gate(c, a, y)
        if x is a:
            return gate(OR(c, d), a, y)
        if y is a:
            return gate(OR(c, NOT(d)), a, x)
    if a.op == 'gate':
        # a test that the outer one follows from comes first
        d, x, y = a.a
        k = beyond(c, d, True)
        if k is not None:
            return gate(d, x, gate(k, y, b))
    if b.op == 'gate':
        d, x, y = b.a
        k = beyond(c, d, False)
        if k is not None:
            return gate(d, gate(k, a, x), y)
    r = point_gate(c, a, b)
    if r is not None:
        return r
    if isnum(a) and isnum(b):
        r = extreme_gate(c, a, b)
        if r is not None:
            return r
        pa, pb = dict(P(a)), dict(P(b))
        com = {m: k for m, k in pa.items() if pb.get(m) == k}
        if com:
            x = mkpoly(com)
            ra, rb = sub(a, x), sub(b, x)
            if isconst(ra) is not None and isconst(rb) is not None:
                return add(x, rb, mul(gate(c, ONE, ZERO), sub(ra, rb)))
            return add(x, gate(c, ra, rb))
        if b is ZERO or a is ZERO:
            z = a if b is ZERO else b
            cc = c if b is ZERO else NOT(c)
            k, f, prim = content(z)
            if len(P(prim)) == 1 and prim is not ONE:
                k2, f2, prim = content(prim)
                k *= k2
                f = mul(f, f2)
            fac = scale(f, k)
            if fac is not ONE:
                return mul(fac, rawgate(cc, prim, ZERO))
            return rawgate(cc, prim, ZERO)
    return rawgate(c, a, b)


def rawgate(c, a, b):
    if a is b:
        return a
    nc = NOT(c)
    if nc.id < c.id:
        if b is ZERO:               # keep indicator form positive: 1-[c]
            pass
        c, a, b = nc, b, a
    if a is ZERO and b is ONE:
        return sub(ONE, mk('gate', c, ONE, ZERO))
    if a is ZERO and isnum(b):
        return sub(b, mk('gate', c, b, ZERO)) if False else mk('gate', c, a, b)
    return mk('gate', c, a, b)


REBUILD['gate'] = gate


def isnum(t):
    if t.op in ('poly', 'abs', 'sum', 'prod', 'euler', 'inf', 'nan'):
        return True
    if t.op in ('var', 'app'):
        return t.a[1] in ('i', 'f', 'u')
    if t.op == 'gate':
        return isnum(t.a[1]) or (t.a[1] is UNDEF and isnum(t.a[2]))
    if t.op in ('first', 'extr'):
        return isnum(t.a[3])
    return False


def absv(t):
    if t.op == 'undef':
        return t
    c = isconst(t)
    if c is not None:
        return const(abs(c))
    if nonneg(t):
        return t
    lo, hi = bounds(t)
    if hi is not None and hi <= 0:
        return neg(t)
    items = P(t)
    if len(items) == 1:
        m, c = items[0]
        r = const(abs(c))
        for b, e in m:
            q = isconst(e)
            x = powr(b, e)
            if nonneg_mono(((b, e),)):
                r = mul(r, x)
            elif isint_const(q):
                r = mul(r, powr(mk('abs', b), e)) if b.op != 'abs' else mul(r, x)
            else:
                r = mul(r, x)
        return r
    if t.op == 'gate':
        return gate(t.a[0], absv(t.a[1]), absv(t.a[2]))
    k, f, prim = content(t)
    if k == 1 and f is ONE:
        return mk('abs', t)
    return mul(scale(absv(f), abs(k)), mk('abs', prim))


REBUILD['abs'] = absv


def maxv(a, b):
    d = sub(a, b)
    return scale(add(a, b, absv(d)), Fraction(1, 2))


def minv(a, b):
    return scale(sub(add(a, b), absv(sub(a, b))), Fraction(1, 2))


def rnd(f, x):
    """floor/ceil/round/trunc"""
    if x.op == 'undef':
        return x
    if is_int(x):
        return x
    c = isconst(x)
    if c is not None:
        import math
        v = {'floor': math.floor(c), 'ceil': math.ceil(c), 'trunc': int(c), 'round': (math.floor(abs(c) + Fraction(1, 2)) * (1 if c >= 0 else -1))}[f]
        return const(v)
    if x.op == 'gate':
        return gate(x.a[0], rnd(f, x.a[1]), rnd(f, x.a[2]))
    # pull out the integral summands (only for floor/ceil, exact there)
    if f in ('floor', 'ceil'):
        ip, fp = {}, {}
        for m, k in P(x):
            one = mkpoly({m: Fraction(1)}) if m else ONE
            if m == ():
                w = k // 1
                if w:
                    ip[m] = Fraction(w)
                if k - w:
                    fp[m] = k - w
            elif k.denominator == 1 and is_int(one):
                ip[m] = k
            else:
                fp[m] = k
        if ip:
            return add(mkpoly(ip), rnd(f, mkpoly(fp)))
    lo, hi = bounds(x)
    if lo is not None and hi is not None:
        import math
        if f == 'floor' and math.floor(lo) == math.floor(hi):
            return const(math.floor(lo))
        if f == 'floor' and hi == math.floor(lo) + 1 and simp_bool(lt(x, const(hi))) is TRUE:
            return const(math.floor(lo))
        if f == 'ceil' and math.ceil(lo) == math.ceil(hi):
            return const(math.ceil(lo))
        if f == 'trunc' and lo >= 0 and math.floor(lo) == math.floor(hi):
            return const(math.floor(lo))
    if f == 'trunc' and lo is not None and lo >= 0:
        return rnd('floor', x)
    if f == 'round' and lo is not None and lo >= 0:
        return rnd('floor', add(x, const(Fraction(1, 2))))
    return app(f, 'i', x)


# ---------------------------------------------------------------- context simplification
def lit_truth(a):
    """truth of atom a in the current context: TRUE, FALSE or None"""
    cx = ctx()
    r = cx.lits.get(a)
    if r is not None:
        return TRUE if r else FALSE
    if a.op in ('le0', 'lt0', 'eq0'):
        p = a.a[0]
        if cx.lin:
            if a.op == 'eq0':
                if implied(cx, p, True) or implied(cx, neg(p), True):
                    return FALSE
                if implied(cx, p, False) and implied(cx, neg(p), False):
                    return TRUE
            else:
                strict = a.op == 'lt0'
                if implied(cx, p, strict):
                    return TRUE
                if implied(cx, neg(p), not strict):
                    return FALSE
        r = _cmp(p, a.op == 'lt0') if a.op != 'eq0' else eq0(p)
        if r is TRUE or r is FALSE:
            return r
    elif a.op == 'in':
        s, names = a.a
        al = cx.sets.get(s)
        if al is not None:
            if al <= names:
                return TRUE
            if not (al & names):
                return FALSE
        no = cx.notsets.get(s)
        if no is not None and names <= no:
            return FALSE
    elif a.op == 'divis':
        n, c = a.a
        d = cx.divs.get(n)
        if d:
            from math import lcm
            L = lcm(*d[0]) if d[0] else 1
            if L % c == 0:
                return TRUE
            for f in d[1]:
                if lcm(L, c) % f == 0:
                    return FALSE
    return None


def implied(cx, p, strict):
    """do the linear facts imply p < 0 (strict) or p <= 0 ?"""
    integer = is_int_scaled(p)

    def close_(q, qs):
        # q (<|<=) 0 known;  p = s*q + k  with s>0
        d = same_linear(p, q)
        if d is None:
            return False
        s, k = d
        if s <= 0:
            return False
        # p = s*q + k, q<=0 (or <0): p <= k
        if k < 0:
            return True
        if k == 0:
            return qs or not strict
        return False
    for q, qs in cx.lin:
        if close_(q, qs):
            return True
        if integer and qs and is_int(q) and close_(add(q, ONE), False):
            return True
    n = len(cx.lin)
    if n > 1 and n < 40:
        for i in range(n):
            for j in range(i + 1, n):
                q = add(cx.lin[i][0], cx.lin[j][0])
                if isconst(q) is None and close_(q, cx.lin[i][1] or cx.lin[j][1]):
                    return True
    return False


def assume_lit(cx, a, val):
    """add literal to context; returns False if contradictory"""
    CTX.append(cx)
    try:
        t = lit_truth(a)
    finally:
        CTX.pop()
    if t is not None:
        return (t is TRUE) == val
    cx.lits[a] = val
    if a.op in ('le0', 'lt0'):
        p = a.a[0]
        if val:
            cx.lin.append((p, a.op == 'lt0'))
        else:
            cx.lin.append((neg(p), a.op == 'le0'))
    elif a.op == 'eq0':
        if val:
            cx.lin.append((a.a[0], False))
            cx.lin.append((neg(a.a[0]), False))
        else:
            p = P(a.a[0])
            g = next((m[0][0] for m, c in p if len(m) == 1), None)
            if g is not None and g.op in ('var', 'app') and is_int(g):
                d = same_linear(a.a[0], g)
                if d is not None:
                    cx.neq[g] = cx.neq.get(g, frozenset()) | {-d[1] / d[0]}
    elif a.op == 'in':
        s, names = a.a
        dom = enum_domain(s)
        cur = cx.sets.get(s, dom)
        if val:
            cur = names if cur is None else cur & names
        else:
            if cur is None:
                cx.notsets[s] = cx.notsets.get(s, frozenset()) | names
            else:
                cur = cur - names
        if cur is not None:
            if not cur:
                return False
            cx.sets[s] = cur
    elif a.op == 'divis':
        n, c = a.a
        d = cx.divs.setdefault(n, (set(), set()))
        d[0 if val else 1].add(c)
    return True


def simp_bool(b, memo=None):
    """simplify a decision diagram under the current context"""
    if b.op != 'bdd':
        return b
    if memo is None:
        memo = {}
    r = memo.get(b)
    if r is not None:
        return r
    a, hi, lo = b.a
    t = lit_truth(a)
    if t is TRUE:
        r = simp_bool(hi, memo)
    elif t is FALSE:
        r = simp_bool(lo, memo)
    else:
        r = ite(atom(a), simp_bool(hi, memo), simp_bool(lo, memo))
    memo[b] = r
    return r


# ---------------------------------------------------------------- printing
def show(t, d=0):
    if not isinstance(t, T):
        if isinstance(t, frozenset):
            return '{' + ','.join(sorted(map(str, t))) + '}'
        if isinstance(t, tuple):
            return '(' + ','.join(show(x, d + 1) for x in t) + ')'
        return str(t)
    if d > 12:
        return '..'
    if t.op == 'poly':
        if not t.a[0]:
            return '0'
        out = []
        for m, c in t.a[0]:
            s = []
            if c != 1 or not m:
                s.append(str(c))
            for b, e in m:
                bs = show(b, d + 1)
                if b.op == 'poly':
                    bs = '(' + bs + ')'
                s.append(bs if e is ONE else f'{bs}^({show(e, d + 1)})')
            out.append('*'.join(s))
        return ' + '.join(out)
    if t.op == 'var':
        n = t.a[0]
        return n if isinstance(n, str) else f'{n[0]}{n[1]}'
    if t.op == 'bdd':
        a, hi, lo = t.a
        if hi is TRUE and lo is FALSE:
            return show(a, d + 1)
        if hi is FALSE and lo is TRUE:
            return '!' + show(a, d + 1)
        if lo is FALSE:
            return f'({show(a, d+1)} & {show(hi, d+1)})'
        if hi is TRUE:
            return f'({show(a, d+1)} | {show(lo, d+1)})'
        if hi is FALSE:
            return f'(!{show(a, d+1)} & {show(lo, d+1)})'
        return f'({show(a, d+1)} ? {show(hi, d+1)} : {show(lo, d+1)})'
    if t.op in ('lt0', 'le0', 'eq0'):
        return f"[{show(t.a[0], d+1)} {'<' if t.op == 'lt0' else '<=' if t.op == 'le0' else '=='} 0]"
    if t.op == 'app':
        return f"{t.a[0]}({', '.join(show(x, d+1) for x in t.a[2:])})"
    if t.op == 'gate':
        return f"({show(t.a[0], d+1)} ? {show(t.a[1], d+1)} : {show(t.a[2], d+1)})"
    if t.op == 'variant':
        return t.a[1] + ('(' + ', '.join(show(x, d + 1) for x in t.a[2:]) + ')' if len(t.a) > 2 else '')
    if not t.a:
        return t.op
    return f"{t.op}({', '.join(show(x, d+1) for x in t.a)})"
