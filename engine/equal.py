"""Decides whether two value graphs denote the same function.

Equal normal forms are equal values. Otherwise the comparison is by cases on the conditions the graphs contain (a case is a
context of literals, kept consistent by the interval, enumeration, divisibility and linear domains) until both sides are free
of gates; there the difference is a generalised polynomial over independent generators, and it is zero or it is not.
Verdicts: EQ, DIFF (with the case) or UND (the difference involves a summary the domain cannot resolve).
"""
import time
from fractions import Fraction
from terms import *
import terms as TM
from values import *
import values as VL

EQ, DIFF, UND = 'eq', 'diff', 'und'


class Res:
    __slots__ = ('v', 'why', 'taint', 'soft')

    def __init__(self, v, why=None, taint=frozenset(), soft=False):
        self.v, self.why, self.taint = v, why, taint
        self.soft = soft        # the case of the difference has conditions whose joint feasibility linear reasoning does not settle

    def __repr__(self):
        return f'{self.v}: {self.why}'


OK = Res(EQ)


def nonlinear(case):
    """does the case compare numbers by more than one linear combination of generators"""
    for a in case.cx.lits:
        if a.op in ('lt0', 'le0', 'eq0'):
            if not linear(a.a[0]):
                return True
    return any(not linear(p) for p, _ in case.cx.lin)


def linear(p):
    alone = sum(m != () for m, k in P(p)) == 1
    for m, k in P(p):
        if m == ():
            continue
        if len(m) > 1 or m[0][1] is not ONE:
            return False
        g = m[0][0]
        if not (g.op == 'var' or g.op == 'app' and g.a[0] in LINEAR_APPS or g.op == 'abs' and linear(g.a[0]) and alone):
            return False
    return True


def interpreted(*ts):
    """functions whose equations the normal form does not all know"""
    return any(x.op == 'app' and x.a[0] in ('emod', 'imod', 'floor', 'ceil', 'round', 'trunc', 'fract', 'idiv', 'div', 'ymd', 'yo', 'ordinal', 'dim') for t in ts for x in subterms(t))


LINEAR_APPS = {'sel', 'idx', 'get', 'year', 'month', 'day', 'ordinal', 'len', 'mlen', 'slen', 'apply'}


DEBUG = 0


class Budget(Exception):
    pass


BINDER_OPS = ('sum', 'prod', 'exists', 'first', 'extr', 'loop', 'seq', 'mfun', 'mext', 'recarr', 'flat', 'lam', 'lamn', 'astore')
_opq = {}


def opaque(t):
    """does t contain a summary or an unknown"""
    r = _opq.get(t)
    if r is None:
        r = False
        for x in subterms(t):
            if x.op in BINDER_OPS or (x.op == 'app' and x.a[0][0] == '?') or x.op in ('arrview', 'pushview', 'cat', 'glist', 'inf', 'nan', 'undef'):
                r = True
                break
            if x.op == 'app' and x.a[0] == 'pow' and isconst(x.a[2]) is not None:
                r = True
                break
        _opq[t] = r
    return r


def bvars(t):
    return any(isinstance(v.a[0], tuple) for v in t.fv)


# ---------------------------------------------------------------- contexts
class Case:
    """what is assumed: a context of literals and the conditions it came from"""
    def __init__(self, parent=None):
        self.cx = Ctx(parent.cx if parent else None)
        self.conds = list(parent.conds) if parent else []
        self.trace = list(parent.trace) if parent else []
        self.unfolded = parent.unfolded if parent else frozenset()
        self.known = dict(parent.known) if parent else {}      # generators the case replaced by constants

    def add(self, a, val):
        self.conds.append(atom(a) if val else NOT(atom(a)))
        self.trace.append((a, val))
        return assume_lit(self.cx, a, val)


def inctx(cx, f):
    CTX.append(cx)
    try:
        return f()
    finally:
        CTX.pop()


def resimp(t, memo=None):
    """t renormalised under the current context"""
    if memo is None:
        memo = {}
    r = memo.get(t)
    if r is not None:
        return r
    if not t.a:
        return t
    if t.op == 'bdd':
        b = simp_bool(t)
        if b.op == 'bdd':
            a, hi, lo = b.a
            a2 = resimp(a, memo)
            if not isbool(a2):
                a2 = atom(a2)
            else:
                a2 = simp_bool(a2)
            b = ite(a2, resimp(hi, memo), resimp(lo, memo))
        r = b
    elif t.op in ('var', 'str', 'poly') and not any(True for _ in children(t.a)):
        r = t
    else:
        f = REBUILD.get(t.op)
        if f == 'binder':
            bv = t.a[0]
            nv = fresh(bv.a[1], 'i')
            a = subst_any(t.a[1:], {bv: nv})
            a = resimp_binder(t.op, nv, a, memo)
            r = BINDERS[t.op](nv, *a)
        else:
            a = _res_any(t.a, memo)
            r = mk(t.op, *a) if f is None else f(*a)
    memo[t] = r
    return r


def resimp_binder(op, nv, a, memo):
    m2 = {}
    if op in ('sum', 'prod', 'seq', 'first', 'extr') and a and isinstance(a[0], T):
        src = _res_any(a[0], memo)
        with range_facts(nv, src):
            g = resimp(a[1], m2)
            c = Ctx(ctx())
            CTX.append(c)
            try:
                ok = assume_conj(c, g)
                rest = tuple(_res_any(x, {}) for x in a[2:]) if ok else a[2:]
            finally:
                CTX.pop()
        return (src, g) + rest
    if op == 'exists':
        src = _res_any(a[0], memo)
        with range_facts(nv, src):
            return (src,) + tuple(_res_any(x, m2) for x in a[1:])
    return tuple(_res_any(x, m2) for x in a)


def _res_any(x, memo):
    if isinstance(x, T):
        return resimp(x, memo)
    if isinstance(x, tuple):
        return tuple(_res_any(y, memo) for y in x)
    return x


def assume_conj(cx, g):
    """add the literals g implies (g a conjunction as far as it goes); False if contradictory"""
    while g.op == 'bdd':
        a, hi, lo = g.a
        if lo is FALSE:
            if not assume_lit(cx, a, True):
                return False
            g = hi
        elif hi is FALSE:
            if not assume_lit(cx, a, False):
                return False
            g = lo
        else:
            # literals common to both cases further down are found by deciding atoms one by one
            for x in batoms(g)[1:8]:
                if cofactor(g, x, False) is FALSE:
                    if not assume_lit(cx, x, True):
                        return False
                elif cofactor(g, x, True) is FALSE:
                    if not assume_lit(cx, x, False):
                        return False
            return True
    return g is not FALSE


def eq_subst(a):
    """a substitution solving the equation a (an eq0 atom), or None"""
    p = a.a[0]
    best = None
    for m, c in P(p):
        if len(m) == 1 and m[0][1] is ONE:
            g = m[0][0]
            if g.op not in ('var', 'app', 'abs') or (g.op == 'app' and g.a[0][0] == '?'):
                continue
            rest = scale(sub(p, scale(g, c)), Fraction(-1) / c)
            if g in subterms(rest):
                continue
            if is_int(g) and not is_int(rest):
                continue
            rank = (isconst(rest) is None, g.op != 'var', g.ht, -g.id)
            if best is None or rank < best[0]:
                best = (rank, g, rest)
    return None if best is None else (best[1], best[2])


# ---------------------------------------------------------------- linear feasibility (polyhedra, Fourier-Motzkin)
def feasible(cx, extra=()):
    """could the literals of cx hold together?  (False only if they certainly cannot)"""
    cons = []

    def addc(p, strict):
        cons.append((p, strict))
    for p, s in list(cx.lin) + list(extra):
        addc(p, s)
        q = by_factors(cx, p, s)
        if q is not None:
            addc(q, s)
    gens = set()

    def monos(p):
        return [m for m, c in P(p) if m != ()]
    work = [m for p, s in cons for m in monos(p)]
    seen = set()
    CTX.append(Ctx())
    try:
        while work:
            m = work.pop()
            if m in seen or len(seen) > 40:
                continue
            seen.add(m)
            t = mkpoly({m: Fraction(1)})
            if len(m) == 1 and m[0][1] is ONE:
                b = m[0][0]
                lo, hi = bounds(b)
                if lo is not None:
                    addc(sub(const(lo), b), False)
                if hi is not None:
                    addc(sub(b, const(hi)), False)
                fs = []
                if b.op == 'app' and b.a[0] == 'floor':
                    fs = [(sub(b, b.a[2]), False), (sub(sub(b.a[2], b), ONE), True)]
                elif b.op == 'app' and b.a[0] == 'ceil':
                    fs = [(sub(b.a[2], b), False), (sub(sub(b, b.a[2]), ONE), True)]
                elif b.op == 'app' and b.a[0] == 'round':
                    d = sub(b, b.a[2])
                    fs = [(sub(d, const(Fraction(1, 2))), False), (sub(neg(d), const(Fraction(1, 2))), False)]
                elif b.op == 'app' and b.a[0] == 'trunc':
                    d = sub(b, b.a[2])
                    fs = [(sub(d, ONE), True), (sub(neg(d), ONE), True)]
                elif b.op == 'abs':
                    fs = [(sub(b.a[0], b), False), (sub(neg(b.a[0]), b), False)]
                    sg = sign_in(cx, b.a[0])
                    if sg is not None:
                        fs.append((sub(b, scale(b.a[0], sg)), False))
                elif b.op == 'app' and b.a[0] == 'day':
                    n = month_end(cx, b.a[2])
                    if n is not None:
                        addc(sub(b, const(n)), False)
                for p, s in fs:
                    addc(p, s)
                    work.extend(monos(p))
            elif nonneg_mono(m):
                addc(neg(t), False)
    finally:
        CTX.pop()
    # integer tightening
    rows = []
    for p, s in cons:
        if s and is_int_scaled(p):
            den = 1
            for m, c in P(p):
                den = den * c.denominator // __import__('math').gcd(den, c.denominator)
            p = add(scale(p, den), ONE)
            s = False
        d = dict(P(p))
        k = d.pop((), Fraction(0))
        rows.append((d, k, s))
    vs = {m for d, k, s in rows for m in d}
    n = 0
    while vs:
        best = min(vs, key=lambda m: sum(1 for d, k, s in rows if d.get(m, 0) > 0) * sum(1 for d, k, s in rows if d.get(m, 0) < 0))
        vs.discard(best)
        pos = [r for r in rows if r[0].get(best, 0) > 0]
        ng = [r for r in rows if r[0].get(best, 0) < 0]
        new = [r for r in rows if not r[0].get(best, 0)]
        if len(pos) * len(ng) > 400:
            return True
        for d1, k1, s1 in pos:
            for d2, k2, s2 in ng:
                c1, c2 = d1[best], -d2[best]
                d = {}
                for m, c in d1.items():
                    d[m] = d.get(m, 0) + c * c2
                for m, c in d2.items():
                    d[m] = d.get(m, 0) + c * c1
                d = {m: c for m, c in d.items() if c}
                new.append((d, k1 * c2 + k2 * c1, s1 or s2))
        rows = []
        seen_ = set()
        for d, k, s in new:
            if not d:
                if k > 0 or (k == 0 and s):
                    return False
                continue
            lead = abs(next(iter(sorted(d.items(), key=lambda x: _mkey(x[0]))))[1])
            key = (tuple(sorted(((_mkey(m), c / lead) for m, c in d.items()))), k / lead, s)
            if key not in seen_:
                seen_.add(key)
                rows.append((d, k, s))
        vs = {m for d, k, s in rows for m in d} & vs
        n += 1
        if n > 60:
            return True
    for d, k, s in rows:
        if not d and (k > 0 or (k == 0 and s)):
            return False
    return True


def _mkey(m):
    return tuple((b.id, e.id) for b, e in m)


def by_factors(cx, p, strict):
    """the constraint p < 0 (p <= 0) puts on one factor of p, when the signs of the others are settled"""
    if len(P(p)) == 1 and len(P(p)[0][0]) < 2:
        return None
    CTX.append(cx)
    try:
        k, f, prim = content(p)
        if f is ONE and len(P(p)) > 1:
            return None
        fs = [] if isconst(prim) is not None else [prim]
        sg = 1 if k > 0 else -1
        for b, e in P(f)[0][0]:
            c = isconst(e)
            if c is None or c.denominator != 1 or b is E:
                return None
            if c % 2 == 0:
                if simp_bool(eq0(b)) is not FALSE and not strict:
                    return None
            else:
                fs.append(b)
        left = None
        for b in fs:
            s = 1 if simp_bool(lt(ZERO, b)) is TRUE else -1 if simp_bool(lt(b, ZERO)) is TRUE else 0
            if s == 0 and strict:
                lo, hi = bounds(b)
                s = 1 if lo is not None and lo >= 0 else -1 if hi is not None and hi <= 0 else 0
            if s:
                sg *= s
            elif left is None:
                left = b
            else:
                return None
        return const(1) if left is None and (sg > 0) else None if left is None else scale(left, sg)
    finally:
        CTX.pop()


def sign_in(cx, p):
    """1 if p >= 0 under cx, -1 if p <= 0, None if not known"""
    CTX.append(cx)
    try:
        lo, hi = bounds(p)
    finally:
        CTX.pop()
    return 1 if lo is not None and lo >= 0 else -1 if hi is not None and hi <= 0 else None


def month_end(cx, d):
    """the last day of the month of date d if cx settles the month"""
    m = mk('app', 'month', 'i', d)
    CTX.append(cx)
    try:
        for k in (2, 4, 6, 9, 11):
            if simp_bool(eq0(sub(m, const(k)))) is TRUE:
                if k != 2:
                    return 30
                return 28 if simp_bool(leap_cond(mk('app', 'year', 'i', d))) is FALSE else 29
    finally:
        CTX.pop()
    return None


def calendar_facts(case):
    """constraints the calendar puts on the dates whose month the case settles; None if violated"""
    out = []
    cx = case.cx
    ds = {g.a[2] for g in case.known if g.op == 'app' and g.a[0] in ('month', 'day')}
    for d in ds:
        m = case.known.get(mk('app', 'month', 'i', d))
        n = None
        if m is not None:
            n = {2: 29, 4: 30, 6: 30, 9: 30, 11: 30}.get(int(m), 31)
            if m == 2:
                y = mk('app', 'year', 'i', d)
                lc = leap_cond(case.known.get(y) and const(case.known[y]) or y)
                if inctx(cx, lambda: resimp(lc)) is FALSE:
                    n = 28
        else:
            n = month_end(cx, d)
        if n is None:
            continue
        day = mk('app', 'day', 'i', d)
        if day in case.known:
            if case.known[day] > n:
                return None
        else:
            out.append((sub(day, const(n)), False))
    return out


def case_feasible(case, extra=()):
    cx = case.cx
    cal = calendar_facts(case)
    if cal is None:
        return False
    base = list(extra) + cal
    if not feasible(cx, base):
        return False
    ne = []
    for a, val in list(cx.lits.items()):
        if a.op == 'eq0' and not val and a.a[0] not in ne:
            ne.append(a.a[0])
    for a, val in case.trace:
        if a.op == 'eq0' and not val and a.a[0] not in ne:
            ne.append(a.a[0])
    extra = base
    again = True
    while again:
        again = False
        for p in list(ne):
            up, dn = feasible(cx, extra + [(neg(p), True)]), feasible(cx, extra + [(p, True)])
            if not up and not dn:
                return False
            if up != dn:
                extra.append((neg(p), True) if up else (p, True))
                ne.remove(p)
                again = True
    return True


def exists_agree(cx):
    """whether the assumed existence conditions over common sources can hold together"""
    es = [a for a in cx.lits if a.op == 'exists']
    again = len(es) > 1
    n = 0
    while again and n < 4:
        again = False
        n += 1
        for a in es:
            if a not in cx.lits or not any(b is not a and b.a[1] is a.a[1] for b in es):
                continue
            v = cx.lits.pop(a)
            b = inctx(cx, lambda: resimp(a))
            b = b if isbool(b) else atom(b)
            if b is (FALSE if v else TRUE):
                return False
            cx.lits[a] = v
            if b is not TRUE and b is not FALSE and b is not atom(a):
                k = len(cx.lits)
                if not assume_conj(cx, b if v else NOT(b)):
                    return False
                again = again or len(cx.lits) > k
    return True


def none_known(case, a):
    """adds that no key known to be there is one the absent existence condition a asks for; False if one is"""
    if a.a[1].op != 'keys':
        return True
    maps = {x.a[2] for x in subterms(a.a[2]) if x.op == 'app' and x.a[0] == 'has'}
    for l, v in list(case.cx.lits.items()):
        if v and l.op == 'app' and l.a[0] == 'has' and l.a[2] in maps and not bvars(l):
            b = inctx(case.cx, lambda: resimp(open_(a, l.a[3])[1][1]))
            b = b if isbool(b) else atom(b)
            if b is TRUE:
                return False
            if b is not FALSE and not assume_conj(case.cx, NOT(b)):
                return False
    return True


def sign_atom(case, ts):
    """the sign of the operand of an absolute value that the case leaves open"""
    near = [set(ts)]
    others = {a for a in case.cx.lits} | {p for p, _ in case.cx.lin}
    while others:
        gs = {x for t in near[-1] for x in subterms(t) if x.op in ('var', 'app') and isnum(x)}
        nxt = {t for t in others if any(x in gs for x in subterms(t))}
        if not nxt:
            near.append(others)
            break
        near.append(nxt)
        others = others - nxt
    seen = set()
    best = None
    for ring in near:
        for t in ring:
            for x in subterms(t):
                if x in seen:
                    continue
                seen.add(x)
                if x.op == 'abs' and not bvars(x) and sign_in(case.cx, x.a[0]) is None:
                    if any(y.op == 'abs' for y in subterms(x.a[0])):
                        continue
                    if opaque(x.a[0]):
                        continue
                    if best is None or (x.ht, x.id) < (best.ht, best.id):
                        best = x
        if best is not None:
            break
    if best is None:
        return None
    b = inctx(case.cx, lambda: lt(best.a[0], ZERO))
    return b.a[0] if b.op == 'bdd' else None


def peeled(ts):
    """some k < n with f(k)  in terms of  some k < n - c with f(k + c), where both occur"""
    es = {a for t in ts for a in subterms(t) if a.op == 'exists' and a.a[1].op == 'range'}
    m = {}
    for a in es:
        for b in es:
            c = isconst(sub(a.a[1].a[0], b.a[1].a[0])) if a is not b else None
            if c not in (1, 2, 3):
                continue
            n = a.a[1].a[0]
            x = b.a[0]
            if b.a[2] is open_(a, add(x, const(c)))[1][1]:
                m[a] = OR(atom(b), *[AND(lt(const(i), n), open_(a, const(i))[1][1]) for i in range(int(c))])
    return m


def at_keys(g, ts):
    """what g assumes of every key, at the keys looked up in ts"""
    out = []
    none = []
    while g.op == 'bdd' and FALSE in g.a[1:]:
        if g.a[1] is FALSE and g.a[0].op == 'exists' and g.a[0].a[1].op not in ('range', 'list'):
            none.append(g.a[0])
        g = g.a[1] if g.a[2] is FALSE else g.a[2]
    for a in none:
        maps = {x.a[2] for x in subterms(a.a[2]) if x.op == 'app' and x.a[0] == 'has'}
        for k in sorted({x.a[3] for t in ts for x in subterms(t) if x.op == 'app' and x.a[0] == 'has' and x.a[2] in maps and not bvars(x)}, key=lambda k: k.id):
            b = open_(a, k)[1][1]
            out.append(NOT(b if isbool(b) else atom(b)))
    return out


def cut(xs, ys, whole=()):
    """a renaming of the largest numbers with conditions inside that occur on both sides (what is equal for any numbers there is equal)"""
    common = {t for x in xs for t in subterms(x)} & {t for y in ys for t in subterms(y)}
    m = {}
    seen = set()
    st = list(xs) + list(ys)
    while st:
        t = st.pop()
        if t in seen:
            continue
        seen.add(t)
        if t in common and t not in whole and not isbool(t) and isnum(t) and t.op != 'var' and not bvars(t) and any(z.op == 'gate' for z in subterms(t)):
            m[t] = fresh('i' if is_int(t) else 'f', 'cut')
            continue
        st.extend(children(t.a))
    return m


def islookup(b):
    """(M, k) if b is (has(M, k) ? 1 : 0)"""
    if b.op == 'gate' and b.a[1] is ONE and b.a[2] is ZERO:
        c = b.a[0]
        if c.op == 'bdd' and c.a[1] is TRUE and c.a[2] is FALSE and c.a[0].op == 'app' and c.a[0].a[0] == 'has' and not bvars(c):
            return c.a[0].a[2:4]
    return None


_stands = {}


def lookups(ts, case):
    """ts with  (has(M, k) ? get(M, k) : 0)  named, where neither part occurs otherwise (any number can be there)"""
    def uses(xs):
        return {x.a[2:4] for t in list(xs) for x in subterms(t) if x.op == 'app' and x.a[0] in ('has', 'get')}
    cand = {islookup(x) for t in ts for x in subterms(t) if x.op == 'gate'} - {None}
    if len(cand) < 3:
        return None
    cand -= uses(case.cx.lits)
    for _ in range(3):
        if len(cand) < 3:
            return None
        memo = {}

        def go(t):
            r = memo.get(t)
            if r is not None:
                return r
            if not t.a or t.op == 'var':
                return t
            if t.op == 'poly':
                r = ZERO
                for m, c in t.a[0]:
                    at = {islookup(b): b for b, e in m if e is ONE and b.op == 'gate'}
                    drop = set()
                    y = const(c)
                    for b, e in m:
                        if e is ONE and b.op == 'app' and b.a[0] == 'get' and b.a[2:4] in at and b.a[2:4] in cand:
                            k = b.a[2:4]
                            if k not in _stands:
                                _stands[k] = fresh('f', 'value')
                            y = mul(y, _stands[k])
                            drop |= {b, at[k]}
                    for b, e in m:
                        if b not in drop:
                            y = mul(y, powr(go(b), go(e)))
                    r = add(r, y)
            else:
                f = REBUILD.get(t.op)
                if f == 'binder':
                    nv = fresh(t.a[0].a[1], 'i')
                    r = BINDERS[t.op](nv, *many(subst_any(t.a[1:], {t.a[0]: nv})))
                else:
                    a = many(t.a)
                    r = mk(t.op, *a) if f is None else f(*a)
            memo[t] = r
            return r

        def many(x):
            return go(x) if isinstance(x, T) else tuple(many(y) for y in x) if isinstance(x, tuple) else x
        out = [go(t) for t in ts]
        left = uses(out) & cand
        if not left:
            return out
        cand -= left
    return None


# ---------------------------------------------------------------- comparison
class Cmp:
    def __init__(self, seconds=20, splits=4000):
        self.t0 = time.process_time()
        self.seconds = seconds
        self.splits = splits
        self.nsplit = 0
        self.ncase = 0
        self.nloop = 0
        self.obl = 0
        self.depth = 0
        self.assumed = TRUE
        self.paired = {}
        self.aligned = set()

    def tick(self):
        self.nsplit += 1
        if self.nsplit > self.splits or time.process_time() - self.t0 > self.seconds:
            raise Budget()

    # --- entry points
    def equal(self, L, R, assumed=TRUE, refute=True):
        self.assumed = assumed
        try:
            m = peeled([assumed, L, R])
            if m:
                assumed, L, R = subst(assumed, m), subst(L, m), subst(R, m)
            R = self.unified(L, R)
            assumed = AND(assumed, *at_keys(assumed, [L, R]))
            r = self.under(assumed, L, R, Case())
        except Budget:
            r = Res(UND, 'budget')
        if r.v == DIFF and r.taint:
            r = Res(UND, 'difference depends on unresolved ' + show(next(iter(r.taint)))[:200])
        if r.v == UND and refute:
            r2 = self.refute(L, R, assumed)
            if r2 is not None:
                return r2
        return r

    def holds(self, C, assumed=TRUE, refute=True):
        return self.equal(C, TRUE, assumed, refute)

    def under(self, g, L, R, case):
        """compare L and R in every case where g"""
        if g is FALSE:
            return OK
        if g is TRUE:
            return self.cmp(L, R, case)
        # conjunctive literals first
        a = self.pick_atom([g])
        if a is None:
            a = g.a[0]
        return self.split(a, case, lambda c, s: self.under(s(g), s(L), s(R), c))

    def split(self, a, case, f):
        """f in the two cases of atom a"""
        self.tick()
        opq = opaque(a)
        out = []
        self.depth += 1
        try:
            if self.depth > 180:
                return Res(UND, 'depth')
            for val in (True, False):
                c = Case(case)
                if not c.add(a, val):
                    continue
                if any(x.op == 'abs' and sign_in(case.cx, x.a[0]) is None and sign_in(c.cx, x.a[0]) is not None for l in case.cx.lits for x in subterms(l)):
                    c = self.renewed(c, a, val)
                    if c is None:
                        continue
                if a.op == 'exists' and (not exists_agree(c.cx) or not val and not none_known(c, a)):
                    continue
                if not feasible(c.cx):
                    continue
                m = {}
                if val and a.op == 'eq0':
                    s = eq_subst(a)
                    if s is not None:
                        m[s[0]] = s[1]
                        if isconst(s[1]) is not None:
                            c.known[s[0]] = isconst(s[1])
                if a.op in ('lt0', 'le0'):
                    for mm, _ in P(a.a[0]):
                        if len(mm) == 1 and mm[0][1] is ONE and mm[0][0].op in ('var', 'app') and is_int(mm[0][0]):
                            g = mm[0][0]
                            lo, hi = inctx(c.cx, lambda: bounds(g))
                            if lo is not None and lo == hi:
                                m[g] = const(lo)
                                c.known[g] = lo
                if val and a.op == 'app' and a.a[0] == 'eqv':
                    x, y = a.a[2:]
                    if x.op not in ('var', 'app') or y.op == 'var' and y.id > x.id:
                        x, y = y, x
                    if x.op in ('var', 'app') and y.op in ('var', 'app') and enum_domain(x) is not None and x not in subterms(y):
                        m[x] = y
                if a.op == 'in':
                    al = c.cx.sets.get(a.a[0])
                    if al is not None and len(al) == 1:
                        m[a.a[0]] = mk('variant', a.a[0].a[1][1], next(iter(al)))
                if m:
                    c = self.substituted(c, m)
                    if c is None:
                        continue

                def simp(x, c=c, m=m):
                    def go():
                        y = subst(x, m) if m else x
                        return resimp(y)
                    return inctx(c.cx, go)
                r = f(c, simp)
                out.append(r)
                if r.v == DIFF and not opq and not r.taint:
                    return r
        finally:
            self.depth -= 1
        if not out:
            return OK
        d = [r for r in out if r.v == DIFF]
        if len(d) == 2:
            return Res(DIFF, d[0].why, (d[0].taint | d[1].taint) - {a}, d[0].soft)
        u = [r for r in out if r.v == UND]
        if d:
            return Res(DIFF, d[0].why, d[0].taint | (frozenset([a]) if opq and len(out) == 2 else frozenset()), d[0].soft)
        return u[0] if u else OK

    def renewed(self, case, a, val):
        """the case with its literals renormalised knowing a"""
        n = Case()
        n.trace = list(case.trace)
        n.known = dict(case.known)
        n.unfolded = case.unfolded
        if not assume_lit(n.cx, a, val):
            return None
        for l, v in case.cx.lits.items():
            b = inctx(n.cx, lambda: resimp(atom(l) if v else NOT(atom(l))))
            if b is FALSE or not assume_conj(n.cx, b):
                return None
        for (p, s) in case.cx.lin:
            q = inctx(n.cx, lambda: resimp(p))
            k = isconst(q)
            if k is not None:
                if k > 0 or (s and k == 0):
                    return None
            elif (q, s) not in n.cx.lin:
                n.cx.lin.append((q, s))
        n.cx.sets.update({k: v for k, v in case.cx.sets.items() if k not in n.cx.sets})
        n.cx.notsets.update({k: v for k, v in case.cx.notsets.items() if k not in n.cx.notsets})
        return n

    def substituted(self, case, m):
        """the case with its literals renormalised under a substitution"""
        n = Case()
        n.trace = list(case.trace)
        n.known = dict(case.known)
        n.unfolded = case.unfolded
        cx = n.cx
        lits = []
        for a, val in case.cx.lits.items():
            b = subst(a, m)
            b = b if isbool(b) else atom(b)
            lits.append(b if val else NOT(b))
        for b in lits:
            b = inctx(cx, lambda: simp_bool(b))
            if b is FALSE or not assume_conj(cx, b):
                return None
        for (p, s) in case.cx.lin:
            q = subst(p, m)
            if isconst(q) is not None:
                if isconst(q) > 0 or (s and isconst(q) == 0):
                    return None
            elif (q, s) not in cx.lin:
                cx.lin.append((q, s))
        cx.sets.update({k: v for k, v in case.cx.sets.items() if k not in m})
        cx.notsets.update({k: v for k, v in case.cx.notsets.items() if k not in m})
        return n

    # --- atoms
    def pick_atom(self, ts):
        """an undecided condition the graphs contain whose own operands are free of conditions"""
        cand = {}
        seen = set()
        st = list(ts)
        while st:
            x = st.pop()
            if x in seen:
                continue
            seen.add(x)
            if x.op == 'bdd':
                a = x.a[0]
                if not bvars(a):
                    cand[a] = cand.get(a, 0) + 1
                st.extend(x.a)
                continue
            st.extend(children(x.a))
        if not cand:
            return None

        def rank(a):
            inner = any(y.op == 'bdd' for y in subterms(a))
            return (inner, opaque(a), 0 if a.op in ('in',) else 1, a.ht, len(subterms(a)), a.id)
        return min(cand, key=rank)

    # --- values
    def cmp(self, L, R, case):
        if L is R:
            return OK
        self.ncase += 1
        if self.ncase % 16 == 0 and time.process_time() - self.t0 > self.seconds:
            raise Budget()
        if L is UNDEF or R is UNDEF:
            # a value that is not computed in any execution
            return OK
        if isbool(L) or isbool(R):
            L2 = L if isbool(L) else atom(L)
            R2 = R if isbool(R) else atom(R)
            return self.cmp_bool(L2, R2, case)
        if isnum(L) and isnum(R):
            return self.cmp_num(L, R, case)
        if L.op == R.op and L.op in ('tuple', 'rec', 'variant'):
            k = {'tuple': 0, 'rec': 1, 'variant': 2}[L.op]
            if L.a[:k] != R.a[:k] or len(L.a) != len(R.a):
                return self.leaf_diff(L, R, case)
            und = None
            for x, y in zip(L.a[k:], R.a[k:]):
                r = self.cmp(x, y, case)
                if r.v == DIFF and not r.taint:
                    return r
                if r.v != EQ:
                    und = r if und is None or und.v == UND else und
            return und or OK
        for x in (L, R):
            if x.op == 'gate':
                a = self.pick_atom([x.a[0]]) or x.a[0].a[0]
                return self.split(a, case, lambda c, s: self.cmp(s(L), s(R), c))
        if ismap(L) or ismap(R):
            return self.cmp_map(L, R, case)
        if isseq_(L) or isseq_(R):
            return self.cmp_seq(L, R, case)
        if isstr(L) and isstr(R):
            return self.cmp_str(L, R, case)
        if L.op == R.op == 'app' and L.a[0] == R.a[0] and len(L.a) == len(R.a) and L.a[0] != 'sel':
            und = None
            ok = True
            for x, y in zip(L.a[2:], R.a[2:]):
                if isinstance(x, T) and isinstance(y, T):
                    r = self.cmp(x, y, case)
                    if r.v != EQ:
                        ok = False
                        und = r
                elif x != y:
                    ok = False
            if ok:
                return OK
            if L.a[0] in INJECTIVE and und is not None:
                return und
            return und if und is not None and und.v == UND else self.leaf_diff(L, R, case)
        r = self.pair(L, R, case)
        if r is not None:
            return r
        a = self.pick_atom([L, R])
        if a is not None:
            return self.split(a, case, lambda c, s: self.cmp(s(L), s(R), c))
        return self.leaf_diff(L, R, case)

    def leaf_diff(self, L, R, case):
        self.obl += 1
        if opaque(L) or opaque(R):
            return Res(UND, f'{show(L)[:160]}  vs  {show(R)[:160]}')
        if not case_feasible(case):
            return OK
        a = sign_atom(case, [L, R])
        if a is not None:
            return self.split(a, case, lambda c, s: self.cmp(s(L), s(R), c))
        return Res(DIFF, self.witness(L, R, case), soft=nonlinear(case) or interpreted(L, R))

    def witness(self, L, R, case):
        w = ' and '.join((show(a) if v else 'not ' + show(a)) for a, v in case.trace)
        return f'{show(L)[:400]}  differs from  {show(R)[:400]}' + (f'  when {w[:2000]}' if w else '')

    def cmp_bool(self, L, R, case):
        X = XOR(L, R)
        X = inctx(case.cx, lambda: resimp(X))
        if X is FALSE:
            return OK
        if X is TRUE:
            self.obl += 1
            if not case_feasible(case):
                return OK
            a = sign_atom(case, [])
            if a is not None:
                return self.split(a, case, lambda c, s: self.cmp_bool(s(L), s(R), c))
            return Res(DIFF, self.witness(L, R, case), soft=nonlinear(case))
        # conditions that are summaries may be the same condition
        ats = [a for a in batoms(X) if opaque(a)]
        if len(ats) > 1:
            m = self.pair_atoms(ats, case)
            if m:
                return self.cmp_bool(subst(L, m), subst(R, m), case)
        a = self.pick_atom([X]) or X.a[0]
        if a.op == 'app' and a.a[0] == 'has':
            r = lookups([L, R], case)
            if r is not None:
                return self.cmp_bool(r[0], r[1], case)
        return self.split(a, case, lambda c, s: self.cmp_bool(s(L), s(R), c))

    def cmp_num(self, L, R, case):
        D = sub(L, R)
        if D is ZERO:
            return OK
        D = inctx(case.cx, lambda: resimp(D))
        return self.zero(D, case, L, R)

    def zero(self, D, case, L, R):
        """is D zero"""
        if D is ZERO:
            return OK
        if D is NAN or D.op == 'undef':
            return OK
        m = self.pair_terms(D, case)
        if m:
            D2 = inctx(case.cx, lambda: resimp(subst(D, m)))
            if D2 is not D:
                return self.zero(D2, case, L, R)
        a = self.pick_atom([D])
        if a is not None:
            if a.op == 'app' and a.a[0] == 'has':
                r = lookups([D, L, R], case)
                if r is not None:
                    return self.zero(*[r[0], case, r[1], r[2]])
            return self.split(a, case, lambda c, s: self.zero(s(D), c, s(L), s(R)))
        self.obl += 1
        D2 = clear(D)
        if D2 is ZERO:
            return OK
        D3 = self.peel(D2, case)
        if D3 is None:
            D3 = self.unfold(D2, case)
        if D3 is not None:
            D3 = inctx(case.cx, lambda: resimp(D3))
            return self.zero(D3, case, L, R)
        D3 = inctx(case.cx, lambda: day_number(D2))
        if D3 is not D2:
            return self.zero(D3, case, L, R)
        if not case_feasible(case):
            return OK
        if zero_by_facts(D2, case):
            return OK
        if opaque(D2):
            if DEBUG:
                print('UND', show(D2, -30)[:DEBUG], 'CASE', [(show(a)[:80], v) for a, v in case.trace])
            return Res(UND, f'{show(D2)[:300]} not shown zero')
        a = sign_atom(case, [D2])
        if a is not None:
            return self.split(a, case, lambda c, s: self.zero(s(D), c, s(L), s(R)))
        return Res(DIFF, self.witness(L, R, case), soft=nonlinear(case) or interpreted(D2))

    def peel(self, D, case):
        """sums over ranges that differ by a constant: take the extra terms out of the longer one"""
        sums = [x for x in top_generators(D) if x.op == 'sum' and x.a[1].op == 'range' and not bvars(x)]
        for i, s in enumerate(sums):
            for t in sums:
                if s is t:
                    continue
                n = sub(t.a[1].a[0], s.a[1].a[0])
                c = isconst(n)
                if c is None or c.denominator != 1 or not (0 < c <= 6):
                    continue
                n0 = s.a[1].a[0]
                if not inctx(case.cx, lambda: nonneg(n0)):
                    # below zero the shorter range is empty
                    continue
                v, (src, g, e) = open_(t)
                _, (_, gs, es) = open_(s, v)
                # how many of the extra terms come first
                first = next((k for k in range(1, int(c) + 1) if subst(e, {v: add(v, const(k))}) is es and subst(g, {v: add(v, const(k))}) is gs), 0)
                sh = {v: add(v, const(first))}
                acc = bigsum(v, mk('range', n0), subst(g, sh), subst(e, sh))
                for k in range(int(c)):
                    w = const(k) if k < first else add(n0, const(k))
                    acc = add(acc, gate(subst(g, {v: w}), subst(e, {v: w}), ZERO))
                return subst(D, {t: acc})
        return None

    def unfold(self, D, case):
        """replace elements of recursively defined arrays by their definition"""
        xs = [x for x in subterms(D) if x.op == 'app' and x.a[0] == 'idx' and x.a[2].op == 'recarr' and not bvars(x)]
        xs = [x for x in xs if x not in case.unfolded]
        if not xs or len(case.unfolded) > 6:
            return None
        case.unfolded = case.unfolded | set(xs)
        return subst(D, {x: unfold_rec(x.a[2], x.a[3]) for x in xs})

    # --- summaries that are equal by their parts
    def pair_terms(self, D, case):
        gens = [x for x in top_generators(D) if (x.op in ('sum', 'prod', 'first', 'extr') or (x.op == 'app' and opaque(x)) or (x.op == 'poly' and opaque(x))) and not bvars(x)]
        return self.pair_list(gens, case)

    def pair_atoms(self, ats, case):
        return self.pair_list([a for a in ats if not bvars(a)], case)

    def pair_list(self, xs, case):
        for i in range(len(xs)):
            for j in range(i):
                r = self.pair(xs[i], xs[j], case)
                if r is not None and r.v == EQ:
                    return {xs[i]: xs[j]}
        return None

    def pair(self, A, B, case):
        """EQ if the two summaries are equal part by part, None when that says nothing"""
        if A is B:
            return OK
        k = (A, B, len(case.trace))
        if k in self.paired:
            return self.paired[k]
        self.paired[k] = None
        if self.depth > 150:
            return None
        self.depth += 3
        try:
            r = self.pair_(A, B, case)
        finally:
            self.depth -= 3
        self.paired[k] = r
        return r

    def same_src(self, A, B, case):
        if A is B:
            return True
        if A.op != B.op:
            return False
        if A.op == 'range':
            return self.cmp(A.a[0], B.a[0], case).v == EQ
        return False

    def pair_(self, A, B, case):
        if A.op == B.op == 'poly':
            return OK if self.cmp_num(A, B, case).v == EQ else None
        if A.op == B.op and A.op in ('sum', 'prod', 'exists', 'first', 'extr', 'seq', 'sjoin'):
            v, a = open_(A)
            _, b = open_(B, v)
            if A.a[0].a[1] != B.a[0].a[1]:
                return None
            if not self.same_src(a[0], b[0], case):
                return None
            c2 = Case(case)
            with_range(c2, v, a[0])
            def go(x, y, cc):
                return self.cmp(inctx(cc.cx, lambda: resimp(x)), inctx(cc.cx, lambda: resimp(y)), cc)
            if go(a[1], b[1], c2).v != EQ:
                if A.op == 'exists' and a[0].op == 'range':
                    return self.reversed_pair(A, B, case)
                return None
            for x, y in zip(a[2:], b[2:]):
                if isinstance(x, T) and isinstance(y, T):
                    g = inctx(c2.cx, lambda: resimp(a[1])) if isbool(a[1]) else TRUE
                    r = self.under_g(g, x, y, c2)
                    if r.v != EQ:
                        return self.reversed_pair(A, B, case) if A.op in ('sum', 'prod') else None
                elif x != y:
                    return None
            return OK
        if A.op == B.op == 'app' and A.a[:2] == B.a[:2] and len(A.a) == len(B.a):
            if A.a[0] in ('sel', 'atexit') and A.a[2].op == B.a[2].op == 'loop':
                return self.results_equal(A, B, case)
            for x, y in zip(A.a[2:], B.a[2:]):
                if isinstance(x, T) and isinstance(y, T):
                    if x is y:
                        continue
                    if self.cmp(x, y, case).v != EQ:
                        return None
                elif x != y:
                    return None
            return OK
        return None

    def under_g(self, g, x, y, case):
        if g is TRUE:
            return self.cmp(inctx(case.cx, lambda: resimp(x)), inctx(case.cx, lambda: resimp(y)), case)
        return self.under(g, x, y, case)

    def reversed_pair(self, A, B, case):
        """the same summary with the range traversed backwards"""
        if A.a[1].op != 'range' or A.a[1] is not B.a[1]:
            return None
        n = A.a[1].a[0]
        v, a = open_(A)
        _, b = open_(B, v)
        m = {v: sub(sub(n, ONE), v)}
        c2 = Case(case)
        with_range(c2, v, a[0])
        for x, y in zip(a[1:], b[1:]):
            if isinstance(x, T) and self.under_g(TRUE, x, subst(y, m), c2).v != EQ:
                return None
        return OK

    def loops_equal(self, A, B, case):
        """the correspondence of the states when the two loop nodes are the same state machine, else None"""
        if len(A.a) != len(B.a) or A.a[0].a[1] != B.a[0].a[1]:
            return None
        n = A.a[0].a[1][1]
        if A is B:
            return tuple(range(n))
        k = ('loops', A, B, len(case.trace))
        if k in self.paired:
            return self.paired[k]
        self.paired[k] = None
        import itertools
        r = None
        if self.same_src(A.a[1], B.a[1], case):
            for perm in itertools.permutations(range(n)) if n <= 4 else [tuple(range(n))]:
                if self.machine(A, B, perm, case):
                    r = perm
                    break
        self.paired[k] = r
        return r

    def renamed(self, ts, S, perm):
        """state i of the first machine corresponds to state perm[i] of the second: the second's terms in the first's numbering"""
        inv = {p: i for i, p in enumerate(perm)}
        m = {}
        for t in ts:
            for x in subterms(t):
                if x.op == 'app' and x.a[0] == 'st' and x.a[2] is S:
                    m[x] = mk('app', 'st', x.a[1], S, const(inv[int(isconst(x.a[3]))]), x.a[4])
        return m

    def machine(self, A, B, perm, case):
        S, a = open_(A)
        _, b = open_(B, S)
        for i, p in enumerate(perm):
            if a[1][i] is not b[1][p] and self.cmp(a[1][i], b[1][p], case).v != EQ:
                return False
        v, (g1, n1, e1) = open_(a[2])
        _, (g2, n2, e2) = open_(b[2], v)
        m = self.renamed((g2, e2) + n2, S, perm)
        g2, e2 = subst(g2, m), subst(e2, m)
        n2 = [subst(n2[p], m) for p in perm]
        c2 = Case(case)
        with_range(c2, v, a[0])
        g1, g2, e1, e2 = inctx(c2.cx, lambda: tuple(resimp(t) for t in (g1, g2, e1, e2)))
        n1, n2 = inctx(c2.cx, lambda: ([resimp(t) for t in n1], [resimp(t) for t in n2]))
        def same(g1, g2, e1, e2, n1, n2):
            if self.cmp(g1, g2, c2).v != EQ or self.under(g1, e1, e2, c2).v != EQ:
                return False
            go = AND(g1, NOT(e1))
            return all(x is y or self.under(go, x, y, c2).v == EQ for x, y in zip(n1, n2))
        whole = set()
        for _ in range(3):
            m = cut([g1, e1, *n1], [g2, e2, *n2], whole)
            if not m:
                break
            if self.within(60, lambda: same(*(([subst(t, m) for t in x] if isinstance(x, list) else subst(x, m)) for x in (g1, g2, e1, e2, n1, n2)))):
                return True
            inner = {u for t in m for u in subterms(t) if u is not t and u in m}
            whole |= {t for t in m if t not in inner and inner & subterms(t)} or set(m)
        return same(g1, g2, e1, e2, n1, n2)

    def unified(self, L, R):
        """R with its loops written as the loops of L that they equal"""
        def nodes(t, f):
            return sorted((x for x in subterms(t) if f(x) and not bvars(x)), key=lambda x: (x.ht, x.id))
        for f, same in ((lambda x: x.op == 'loop', lambda A, B: self.loops_equal(A, B, Case()) == tuple(range(A.a[0].a[1][1]))),
                        (lambda x: x.op == 'app' and x.a[0] == 'atexit', lambda A, B: A.a[2] is B.a[2] and self.results_equal(A, B, Case()) is OK)):
            done = set()
            again = True
            while again:
                again = False
                ls = nodes(L, f)
                for B in nodes(R, f):
                    if B in done or B in ls:
                        continue
                    done.add(B)
                    A = next((A for A in ls if A.op == B.op and self.within(150, lambda: same(A, B))), None)
                    if A is not None:
                        R = subst(R, {B: A})
                        again = True
                        break
        return R

    def settled(self, c):
        """c without the panics that no state of their loop reaches"""
        for x in [x for x in subterms(c) if x.op == 'app' and x.a[0] == '?looppanic' and not bvars(x)]:
            S, (src, inits, lam) = open_(x.a[2])
            v, (g, nexts, E) = open_(lam)
            _, (l1,) = open_(x.a[3], S)
            _, (e,) = open_(l1, v)
            c2 = Case()
            with_range(c2, v, src)
            r = self.within(200, lambda: self.under(g, e, FALSE, c2))
            if r is not None and r.v == EQ:
                c = subst(c, {x: FALSE})
        return c

    def within(self, splits, f):
        """f(), or None if it takes more than so many splits"""
        n, self.splits = self.splits, min(self.splits, self.nsplit + splits)
        try:
            return f()
        except Budget:
            if self.nsplit > n or time.process_time() - self.t0 > self.seconds:
                raise
            return None
        finally:
            self.splits = n

    def results_equal(self, A, B, case):
        """two results of loops"""
        x, y = A.a[2], B.a[2]
        perm = self.loops_equal(x, y, case)
        if perm is None:
            return None
        if A.a[0] == 'sel':
            if A.a[3] == 'exited' or B.a[3] == 'exited':
                return OK if A.a[3] == B.a[3] else None
            return OK if perm[int(A.a[3][4:])] == int(B.a[3][4:]) else None
        S, (src, inits, lam) = open_(x)
        v, (g, nexts, E) = open_(lam)
        _, (l1,) = open_(A.a[3], S)
        _, (e1,) = open_(l1, v)
        _, (l2,) = open_(B.a[3], S)
        _, (e2,) = open_(l2, v)
        e2 = subst(e2, self.renamed((e2,), S, perm))
        if e1 is e2:
            return OK
        c2 = Case(case)
        with_range(c2, v, src)
        r = self.under(AND(g, E), e1, e2, c2)
        return OK if r.v == EQ else None

    # --- maps: equal at an arbitrary key
    def cmp_map(self, L, R, case):
        K = keyty(L) or keyty(R)
        if K is None:
            r = self.pair(L, R, case)
            return r if r is not None else self.leaf_diff(L, R, case)
        if L.op == R.op == 'app' and not (opaque(L) or opaque(R)) or (L.op in ('var',) and R.op in ('var', 'app')):
            return self.leaf_diff(L, R, case)
        if L.op == R.op == 'app' and L.a[0] == R.a[0] and L.a[0] in ('sel', 'atexit') and L.a[2].op == R.a[2].op == 'loop':
            r = self.pair(L, R, case)
            if r is not None and r.v == EQ:
                return r
        v = keyvar(K)
        k = keyval(K, v)
        hl, hr = inctx(case.cx, lambda: (resimp(mhas(L, k)), resimp(mhas(R, k))))
        r = self.cmp_bool(hl, hr, case)
        if r.v == DIFF and not r.taint:
            return Res(DIFF, 'presence of key: ' + str(r.why), soft=r.soft)
        gl, gr = inctx(case.cx, lambda: (mget(L, k), mget(R, k)))
        if gl is UNIT and gr is UNIT:
            return r
        r2 = self.under(hl, gl, gr, case)
        if r2.v != EQ and (r.v == EQ or r2.v == DIFF):
            return r2
        return r

    # --- sequences
    def cmp_seq(self, L, R, case):
        if L is R:
            return OK
        if L.op == 'list' and R.op == 'list':
            if len(L.a) != len(R.a):
                return self.leaf_diff(L, R, case) if not (opaque(L) or opaque(R)) else self.seq_len_diff(L, R, case)
            return self.cmp(mk('tuple', *L.a), mk('tuple', *R.a), case)
        for x in (L, R):
            if x.op == 'gate':
                a = self.pick_atom([x.a[0]]) or x.a[0].a[0]
                return self.split(a, case, lambda c, s: self.cmp_seq(s(L), s(R), c))
        if L.op == 'glist' and R.op == 'glist' or (L.op in ('list', 'glist') and R.op in ('list', 'glist')):
            a = self.pick_atom([g for g, e in glist(L) + glist(R)])
            if a is not None:
                return self.split(a, case, lambda c, s: self.cmp_seq(s(L), s(R), c))
        pl, pr = posn(L), posn(R)
        if L.op == 'cat' and R.op == 'cat':
            pass
        elif pl and pr:
            nl, nr = length(L), length(R)
            r = self.cmp_num(nl, nr, case) if nl is not nr else OK
            if r.v == DIFF and not r.taint:
                return Res(DIFF, 'length: ' + str(r.why), soft=r.soft)
            if r.v != EQ:
                return r
            i = fresh('u', 'i')
            c2 = Case(case)
            with_range(c2, i, mk('range', nl))
            if not feasible(c2.cx):
                return OK
            x, y = inctx(c2.cx, lambda: (resimp(at(L, i)), resimp(at(R, i))))
            return self.cmp(x, y, c2)
        r = self.pair(L, R, case)
        if r is not None and r.v == EQ:
            return r
        if L.op == 'cat' and R.op == 'cat' and len(L.a) == len(R.a):
            rs = [self.cmp_seq(x, y, case) for x, y in zip(L.a, R.a)]
            if all(x.v == EQ for x in rs):
                return OK
        a = self.pick_atom([L, R])
        if a is not None:
            return self.split(a, case, lambda c, s: self.cmp(s(L), s(R), c))
        return Res(UND, f'sequences {show(L)[:150]}  vs  {show(R)[:150]}')

    def seq_len_diff(self, L, R, case):
        if not case_feasible(case):
            return OK
        return Res(DIFF, f'{len(L.a)} elements against {len(R.a)}: ' + self.witness(L, R, case), soft=nonlinear(case))

    def cmp_str(self, L, R, case):
        def parts(x):
            return list(x.a) if x.op == 'scat' else [x]
        if (L, R) not in self.aligned:
            self.aligned.add((L, R))
            d = misaligned(L, R)
            if d is not None and self.cmp_num(d[0], d[1], case).v == EQ:
                L = subst(L, {d[0]: d[1]})
                return OK if L is R else self.cmp_str(L, R, case)
        a, b = parts(L), parts(R)
        while a and b and a[0] is b[0]:
            del a[0], b[0]
        while a and b and a[-1] is b[-1]:
            del a[-1], b[-1]
        if len(a) == len(b) == 1:
            x, y = a[0], b[0]
            if x.op == 'str' and y.op == 'str':
                return self.leaf_diff(x, y, case)
            if x.op == 'gate' or y.op == 'gate':
                if (x, y) != (L, R):
                    return self.cmp(x, y, case)
            else:
                r = self.pair(x, y, case)
                if r is not None and r.v == EQ:
                    return r
        elif len(a) == len(b):
            if all(self.equal_text(x, y, case) for x, y in zip(a, b)):
                return OK
        at_ = self.pick_atom([self.text_(a), self.text_(b)])
        if at_ is not None:
            return self.split(at_, case, lambda c, s: self.cmp(s(self.text_(a)), s(self.text_(b)), c))
        return Res(UND, f'text {show(self.text_(a))[:150]} vs {show(self.text_(b))[:150]}')

    def text_(self, parts):
        from models import scat
        return scat(*parts)

    def equal_text(self, x, y, case):
        if x is y:
            return True
        if x.op == 'gate' or y.op == 'gate':
            return self.cmp(x, y, case).v == EQ
        r = self.pair(x, y, case)
        return r is not None and r.v == EQ

    # --- refutation: the same comparison at small sizes
    def refute(self, L, R, assumed):
        for m in sizes([L, R, assumed]):
            try:
                g, l, r = subst(assumed, m), subst(L, m), subst(R, m)
                if not isbool(g):
                    g = atom(g)
                if g is FALSE:
                    continue
                u1, u2 = unloop(l), unloop(r)
                if u1 is l and u2 is r and not m:
                    continue
                sub_ = Cmp(seconds=max(1.0, min(6.0, self.seconds - (time.process_time() - self.t0))), splits=1500)
                res = sub_.equal(u1, u2, g, refute=False)
                self.nsplit += sub_.nsplit
                self.ncase += sub_.ncase
                if res.v == DIFF:
                    res.why = 'at ' + ', '.join(f'{show(k)[:60]} = {show(x)[:80]}' for k, x in m.items()) + ': ' + str(res.why)
                    return res
            except Budget:
                pass
            if time.process_time() - self.t0 > self.seconds:
                return None
        return None


INJECTIVE = ('ymd', 'yo')


def with_range(case, v, src):
    if src.op == 'range':
        c = case.cx
        c.lin.append((neg(v), False))
        c.lin.append((sub(v, src.a[0]), True))
        if is_int(src.a[0]):
            c.lin.append((add(v, neg(src.a[0]), ONE), False))
            c.lin.append((sub(ONE, src.a[0]), False))
    element_facts(case.cx, v, src)


def ismap(x):
    if x.op in ('mempty', 'mst', 'mstore', 'mfun', 'mext'):
        return True
    return x.op in ('var', 'app') and isinstance(x.a[1], tuple) and x.a[1][0] == 'map'


def isseq_(x):
    if x.op in ('list', 'glist', 'seq', 'cat', 'astore', 'recarr', 'flat'):
        return True
    return x.op in ('var', 'app') and isinstance(x.a[1], tuple) and x.a[1][0] == 'vec'


def posn(s):
    if s.op in ('astore', 'recarr', 'list'):
        return True
    if s.op == 'cat':
        return all(x.op != 'gate' and posn(x) for x in s.a)
    if s.op in ('var', 'app') and not str(s.a[0]).startswith('?'):
        return True
    return positional(s)


def misaligned(a, b):
    """the first pair of different numbers at corresponding places of two terms"""
    if a is b or not (isinstance(a, T) and isinstance(b, T)):
        return None
    if isnum(a) and isnum(b):
        return None if bvars(a) or bvars(b) else (a, b)
    if a.op != b.op or len(a.a) != len(b.a):
        return None
    for x, y in zip(a.a, b.a):
        if x is not y:
            if isinstance(x, tuple) and isinstance(y, tuple) and len(x) == len(y):
                for z, w in zip(x, y):
                    r = misaligned(z, w)
                    if r is not None:
                        return r
                continue
            r = misaligned(x, y)
            if r is not None:
                return r
    return None


def isstr(x):
    return x.op in ('str', 'scat', 'sjoin', 'fmtstr', 'scatseq') or (x.op in ('var', 'app') and x.a[1] == 's')


def top_generators(D):
    out = []
    for m, c in P(D):
        for b, e in m:
            if b not in out:
                out.append(b)
            for x in children((e,)):
                for y in subterms(x):
                    if y.op in ('sum', 'prod', 'first', 'extr') and y not in out:
                        out.append(y)
            if b.op == 'poly':
                for y in top_generators(b):
                    if y not in out:
                        out.append(y)
            elif b.op in ('abs',) or (b.op == 'app' and b.a[0] in ('ln', 'floor', 'round', 'pow', 'ceil', 'trunc')):
                for y in children(b.a):
                    for z in top_generators(y):
                        if z not in out:
                            out.append(z)
    return out


def clear(D):
    """D times a nonzero factor that removes the denominators"""
    for _ in range(12):
        need = {}
        for m, c in P(D):
            for b, e in m:
                q, s = sym_split(e)
                for mm, cc in P(e):
                    # only constant exponents of sums matter: other bases are monomials already
                    if mm == () and cc < 0 and b.op == 'poly' and isconst(b) is None and cc.denominator == 1:
                        need[b] = max(need.get(b, 0), int(-cc))
        if not need:
            break
        f = ONE
        for b, n in need.items():
            f = mul(f, mk('poly', ((((b, const(n)),), Fraction(1)),)))
        D2 = mul(D, f)
        # expand powers that became positive
        D2 = expand_pos(D2)
        if D2 is D:
            break
        D = D2
        if D is ZERO:
            return ZERO
        if len(P(D)) > 3000:
            break
    return unify_bases(D)


def expand_pos(D):
    acc = ZERO
    for m, c in P(D):
        t = const(c)
        for b, e in m:
            ce = isconst(e)
            if b.op == 'poly' and isconst(b) is None:
                k = next((cc for mm, cc in P(e) if mm == ()), Fraction(0))
                if k > 0 and k.denominator == 1:
                    t = mul(t, expand_pow(b, int(k)))
                    rest = sub(e, const(k))
                    if rest is not ZERO:
                        t = mul(t, mk('poly', ((((b, rest),), Fraction(1)),)))
                    continue
                t = mul(t, mk('poly', ((((b, e),), Fraction(1)),)))
            else:
                t = mul(t, mkpoly({((b, e),): Fraction(1)}) if not (b.op == 'poly') else mk('poly', ((((b, e),), Fraction(1)),)))
        acc = add(acc, t)
    return acc


def unify_bases(D):
    """bases that are powers of other bases"""
    bases = []
    for m, c in P(D):
        for b, e in m:
            if b.op == 'poly' and isconst(b) is None and b not in bases:
                bases.append(b)
    for b in bases:
        for d in bases:
            if b is d:
                continue
            for n in (2, 3, 4):
                if len(P(d)) ** n > 400:
                    break
                if expand_pow(d, n) is b:
                    x = var('$base', 'f')
                    acc = ZERO
                    for m, c in P(D):
                        t = const(c)
                        for bb, e in m:
                            if bb is b:
                                t = mul(t, mk('poly', ((((d, scale(e, n)),), Fraction(1)),)))
                            else:
                                t = mul(t, mk('poly', ((((bb, e),), Fraction(1)),)) if bb.op == 'poly' else mkpoly({((bb, e),): Fraction(1)}))
                        acc = add(acc, t)
                    return clear(acc)
    return D


def zero_by_facts(D, case):
    """D is squeezed to zero by the linear facts"""
    return not case_feasible(case, [(D, True)]) and not case_feasible(case, [(neg(D), True)])


# ---------------------------------------------------------------- small sizes for refutation
def sizes(ts):
    """substitutions that give symbolic lengths, counts and maps small values"""
    lens, maps, ints = [], [], []
    allt = set()
    for t in ts:
        subterms(t, allt)
    rng = set()
    for x in allt:
        if x.op == 'range' and isconst(x.a[0]) is None:
            for y in subterms(x.a[0]):
                rng.add(y)
    for x in sorted(allt, key=lambda x: x.id):
        if bvars(x):
            continue
        if x.op == 'app' and x.a[0] == 'len' and x.a[2].op in ('var', 'app') and not opaque(x.a[2]) and x not in lens:
            lens.append(x)
        if x.op == 'var' and isinstance(x.a[1], tuple) and x.a[1][0] == 'map' and keyty(x) is not None:
            maps.append(x)
        if x in rng and x.op == 'var' and x.a[1] in ('u', 'i'):
            ints.append(x)
        if x in rng and x.op == 'app' and x.a[1] in ('u', 'i') and x.a[0] in ('floor', 'round', 'trunc', 'ceil'):
            ints.append(x)
    maps = [x for x in maps if any(y.op in BINDER_OPS and x in subterms(y) for y in allt)]
    yield {}
    for k in (2, 1, 3, 0):
        m = {x: const(k) for x in lens + ints}
        if m:
            yield m
        if k == 2:
            for j, x in enumerate(lens + ints):
                if len(lens + ints) > 1:
                    m2 = dict(m)
                    m2[x] = const(3)
                    yield m2
    base = {x: const(2) for x in lens + ints}
    for n in (1, 2, 0):
        if not maps:
            break
        m = dict(base)
        for M in maps:
            K, V = keyty(M), valty(M)
            t = mempty(K, V)
            for i in range(n):
                kv = symbol(f'key{i}', K)
                t = mset(t, kv, TRUE, UNIT if V is UNIT_TY or V == UNIT_TY else symbol(f'{M.a[0]}.val{i}', V))
            m[M] = t
        yield m


def unloop(t, k=2):
    """loop nodes replaced by their first k iterations when they leave within them"""
    nodes = [x for x in subterms(t) if x.op == 'loop' and not bvars(x)]
    if not nodes:
        return t
    import loops
    m = {}
    for x in subterms(t):
        if x.op == 'app' and x.a[0] in ('sel', 'atexit') and x.a[2].op == 'loop' and not bvars(x):
            r = loops.unrolled(x, k)
            if r is not None:
                m[x] = r
    if not m:
        return t
    return subst(t, m)
