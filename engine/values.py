"""Aggregates of the value graph: sequences, maps, sums, quantifiers, dates, structural equality and order."""
from terms import *
import terms as TM

UNIT = mk('tuple')
UNIT_TY = ('tuple',)
NUMSORTS = ('i', 'u', 'f')


class TypeInfo:
    """Filled in by facts: adt lookup for expansion."""
    adt = None          # key -> (kind, name, generics, variants[(name, [(fname, ty)])])
    alias = None


def sort_of(ty):
    if isinstance(ty, str):
        if ty in ('f64', 'f32'):
            return 'f'
        if ty in ('usize', 'u8', 'u16', 'u32', 'u64', 'u128'):
            return 'u'
        if ty in ('isize', 'i8', 'i16', 'i32', 'i64', 'i128'):
            return 'i'
        if ty == 'bool':
            return 'b'
        if ty == 'str':
            return 's'
        return ('prim', ty)
    k = ty[0]
    if k == 'ref':
        return sort_of(ty[2])
    if k == 'adt':
        n = ty[2]
        if n == 'NaiveDate':
            return 'i'
        if n in ('TimeDelta', 'Duration'):
            return 'i'
        if n == 'String':
            return 's'
        if n in ('HashMap', 'BTreeMap'):
            return ('map', ty[3], ty[4])
        if n in ('HashSet', 'BTreeSet'):
            return ('map', ty[3], UNIT_TY)
        if n in ('Vec', 'VecDeque'):
            return ('vec', ty[3])
        if n == 'Box' and len(ty) > 3:
            return sort_of(ty[3])
        a = TypeInfo.adt(ty[1]) if TypeInfo.adt else None
        if a and a['kind'] == 'enum' and all(not v['fields'] for v in a['variants']):
            ENUMS.setdefault(ty[1], frozenset(v['n'] for v in a['variants']))
            return ('enum', ty[1])
        return ('obj', ty)
    if k in ('slice', 'array'):
        return ('vec', ty[1])
    return ('obj', ty)


def expand(ty, base):
    """The symbolic value of type ty whose leaves are base(sort)."""
    if not isinstance(ty, str) and ty[0] == 'ref':
        return expand(ty[2], base)
    s = sort_of(ty)
    if s == 'b':
        return atom(base('b'))
    if not isinstance(ty, str) and ty[0] == 'adt' and ty[2] == 'NaiveDate':
        r = base(s)
        TM.DATES.add(r)
        return r
    if isinstance(s, str) or s[0] in ('enum', 'prim'):
        return base(s)
    if s[0] == 'map':
        return base(s)
    if s[0] == 'vec':
        x = base(s)
        v = fresh('u', 'i')
        return mkseq(v, mk('range', length(x)), TRUE, idx_(x, v, s[1]))
    # object
    t = s[1]
    if t[0] == 'tuple':
        if len(t) == 1:
            return UNIT
        o = base(s)
        return mk('tuple', *[expand(f, lambda so, i=i: sel_(so, o, i)) for i, f in enumerate(t[1:])])
    if t[0] == 'adt':
        if t[2] == 'Box':
            return expand(t[3], base)
        if t[2] == 'Option':
            o = base(s)
            tag = sel_(('enum', 'Option'), o, 'tag')
            return gate(member(tag, frozenset(['Some'])), mk('variant', 'Option', 'Some', expand(t[3], lambda so: sel_(so, o, 'Some.0'))), NONE)
        a = TypeInfo.adt(t[1])
        if a is None:
            return base(s)
        m = dict(zip(a['g'], t[3:]))
        if a['kind'] == 'struct':
            o = base(s)
            return mk('rec', t[1], *[expand(tsubst(f['ty'], m), lambda so, i=i: sel_(so, o, i)) for i, f in enumerate(a['variants'][0]['fields'])])
        if a['kind'] == 'enum':
            o = base(s)
            ENUMS.setdefault(t[1], frozenset(v['n'] for v in a['variants']))
            tag = sel_(('enum', t[1]), o, 'tag')
            r = None
            for v in reversed(a['variants']):
                x = mk('variant', t[1], v['n'], *[expand(tsubst(f['ty'], m), lambda so, i=i, vn=v['n']: sel_(so, o, f'{vn}.{i}')) for i, f in enumerate(v['fields'])])
                r = x if r is None else gate(member(tag, frozenset([v['n']])), x, r)
            return r
    return base(s)


ENUMS['Option'] = frozenset(['Some', 'None'])
NONE = mk('variant', 'Option', 'None')


def some(x):
    return mk('variant', 'Option', 'Some', x)


def tsubst(ty, m):
    if isinstance(ty, str) or not isinstance(ty, tuple):
        return ty
    if ty and ty[0] == 'param':
        return m.get(ty[1], ty)
    return tuple(tsubst(x, m) if isinstance(x, tuple) else x for x in ty)


def symbol(name, ty):
    return expand(ty, lambda s: var(name, s))


# ---------------------------------------------------------------- selection from opaque objects
def sel_(sort, o, i):
    r = sel(o, i)
    return r if r is not None else mk('app', 'sel', sort, o, i)


def sel(o, i):
    if o.op == 'tuple':
        return o.a[i]
    if o.op == 'rec':
        return o.a[1 + i]
    if o.op == 'variant':
        if i == 'tag':
            return mk('variant', o.a[0], o.a[1])
        vn, k = i.split('.')
        return o.a[2 + int(k)] if vn == o.a[1] else UNDEF
    if o.op == 'gate':
        x, y = sel(o.a[1], i), sel(o.a[2], i)
        if x is not None and y is not None:
            return gate(o.a[0], x, y)
    if o is UNDEF:
        return UNDEF
    return None


def field(v, i):
    """field i of a struct or tuple value"""
    if v.op == 'gate':
        return gate(v.a[0], field(v.a[1], i), field(v.a[2], i))
    r = sel(v, i)
    if r is None:
        return mk('app', 'sel', ('obj', ('?',)), v, i)
    return r


def is_variant(v, vn):
    if v.op == 'variant':
        return TRUE if v.a[1] == vn else FALSE
    if v.op == 'gate':
        return ite(v.a[0], is_variant(v.a[1], vn), is_variant(v.a[2], vn))
    if v is UNDEF:
        return FALSE
    if enum_domain(v) is not None:
        return member(v, frozenset([vn]))
    return atom(mk('app', 'isv', 'b', v, vn))


def payload(v, vn, i):
    if v.op == 'variant':
        return v.a[2 + i] if v.a[1] == vn and len(v.a) > 2 + i else UNDEF
    if v.op == 'gate':
        return gate(v.a[0], payload(v.a[1], vn, i), payload(v.a[2], vn, i))
    if v is UNDEF:
        return UNDEF
    return mk('app', 'sel', ('obj', ('?',)), v, f'{vn}.{i}')


# ---------------------------------------------------------------- sequences
# list(e..)   glist(((g,e),..))   seq(bv; src, guard, elem)   cat(s..)   astore(s, i, x)   recarr(bvself; n, <bv; elem>)
# src: range(n) | keys(K)
NIL = mk('list')


def crange(src):
    """range(max(n, 0)) is range(n)"""
    n = src.a[0]
    if n.op == 'poly':
        for m, k in P(n):
            if len(m) == 1 and m[0][0].op == 'abs' and m[0][1] is ONE and k > 0:
                p = m[0][0].a[0]
                rest = sub(n, scale(m[0][0], k))
                a, b = add(rest, scale(p, k)), add(rest, scale(p, -k))
                for x, y in ((a, b), (b, a)):
                    c = isconst(x)
                    if c is not None and c <= 0:
                        return crange(mk('range', y))
    return src


def mkseq(v, src, guard, elem):
    if guard is FALSE:
        return NIL
    if src.op == 'range':
        src = crange(src)
        n = isconst(src.a[0])
        if n is not None and n <= 0:
            return NIL
        if n is not None and n <= 64:
            es = []
            for k in range(int(n)):
                m = {v: const(k)}
                es.append((subst(guard, m), subst(elem, m)))
            return mkglist(es)
        # eta: the elements of a sequence in order
        if guard is TRUE and elem.op == 'app' and elem.a[0] == 'idx' and elem.a[3] is v and v not in elem.a[2].fv and src.a[0] is length(elem.a[2]):
            if elem.a[2].op not in ('var', 'app'):
                return elem.a[2]
    return close('seq', v, v.a[1], src, guard, elem)


def mkglist(es):
    es = [(g, e) for g, e in es if g is not FALSE]
    if all(g is TRUE for g, e in es):
        return mk('list', *[e for g, e in es])
    return mk('glist', tuple(es))


BINDERS['seq'] = lambda v, src, guard, elem: mkseq(v, src, guard, elem)
REBUILD['seq'] = 'binder'
REBUILD['glist'] = lambda es: mkglist(es)


def gmerge_seq(c, a, b):
    if a.op == 'seq' and b.op == 'seq' and a.a[1] is b.a[1]:
        v = fresh(a.a[0].a[1], 'i')
        _, (src, ga, ea) = open_(a, v)
        _, (_, gb, eb) = open_(b, v)
        if ga is gb:
            return mkseq(v, src, ga, gate(c, ea, eb))
        return mkseq(v, src, ite(c, ga, gb), gate(c, ea, eb))
    if a.op in ('list', 'glist', 'seq') and b is NIL and a is not NIL:
        return filter_guard(a, c)
    if b.op in ('list', 'glist', 'seq') and a is NIL and b is not NIL:
        return filter_guard(b, NOT(c))
    if a.op == 'cat' and b.op in ('cat', 'seq', 'list', 'glist'):
        # common prefix
        pa, pb = a.a, (b.a if b.op == 'cat' else (b,))
        if pa[0] is pb[0]:
            return cat(pa[0], gate(c, cat(*pa[1:]), cat(*pb[1:])))
    if b.op == 'cat' and a.op in ('seq', 'list', 'glist') and b.a[0] is a:
        return cat(a, gate(c, NIL, cat(*b.a[1:])))
    if a.op == 'astore' or b.op == 'astore':
        ba = a.a[0] if a.op == 'astore' else a
        bb = b.a[0] if b.op == 'astore' else b
        i = a.a[1] if a.op == 'astore' else b.a[1]
        if ba is bb and (a.op != 'astore' or b.op != 'astore' or a.a[1] is b.a[1]):
            return astore(ba, i, gate(c, at(a, i), at(b, i)))
    return None


def filter_guard(s, c):
    if s.op == 'list':
        return mkglist([(c, e) for e in s.a])
    if s.op == 'glist':
        return mkglist([(AND(c, g), e) for g, e in s.a[0]])
    v, (src, g, e) = open_(s)
    return mkseq(v, src, AND(c, g), e)


for _o in ('seq', 'cat', 'astore', 'list', 'glist'):
    GATE_MERGE[_o] = gmerge_seq


def cat(*ss):
    out = []
    for s in ss:
        parts = s.a if s.op == 'cat' else (s,)
        for p in parts:
            if p is NIL:
                continue
            if out and p.op in ('list', 'glist') and out[-1].op in ('list', 'glist'):
                out[-1] = mkglist(glist(out[-1]) + glist(p))
            else:
                out.append(p)
    if not out:
        return NIL
    if len(out) == 1:
        return out[0]
    return mk('cat', *out)


REBUILD['cat'] = cat


def glist(s):
    return [(TRUE, e) for e in s.a] if s.op == 'list' else list(s.a[0])


def length(s):
    if s.op == 'list':
        return const(len(s.a))
    if s.op == 'glist':
        return add(*[gate(g, ONE, ZERO) for g, e in s.a[0]]) if s.a[0] else ZERO
    if s.op == 'seq':
        v, (src, g, e) = open_(s)
        return bigsum(v, src, g, ONE)
    if s.op == 'cat':
        return add(*[length(p) for p in s.a])
    if s.op == 'flat':
        v, (src, g, inner) = open_(s)
        return bigsum(v, src, g, length(inner))
    if s.op == 'astore':
        return length(s.a[0])
    if s.op == 'recarr':
        return s.a[1]
    if s.op == 'arrview':
        return s.a[3]
    if s.op == 'pushview':
        return s.a[1]
    if s.op == 'gate':
        return gate(s.a[0], length(s.a[1]), length(s.a[2]))
    if s is UNDEF:
        return UNDEF
    return mk('app', 'len', 'u', s)


def shape_ty(e):
    """a type describing a plain value"""
    if e is UNDEF:
        return None
    if isbool(e):
        return 'bool'
    if isnum(e):
        return 'i64' if is_int(e) else 'f64'
    if e.op == 'tuple':
        ts = [shape_ty(y) for y in e.a]
        return None if None in ts else ('tuple',) + tuple(ts)
    if e.op == 'rec':
        return ('adt', e.a[0], e.a[0].split('::')[-1])
    if e.op == 'variant':
        return ('adt', e.a[0], e.a[0].split('::')[-1]) if TypeInfo.adt and TypeInfo.adt(e.a[0]) else None
    if e.op == 'gate':
        return shape_ty(e.a[1]) or shape_ty(e.a[2])
    if e.op in ('var', 'app'):
        so = e.a[1]
        if isinstance(so, tuple) and so:
            if so[0] == 'enum' and TypeInfo.adt and TypeInfo.adt(so[1]):
                return ('adt', so[1], so[1].split('::')[-1])
            if so[0] == 'map':
                return ('adt', 'BTreeMap', 'BTreeMap', so[1], so[2])
            if so[0] == 'vec' and so[1] is not None:
                return ('adt', 'Vec', 'Vec', so[1])
        if so == 's':
            return 'str'
    if e.op in ('str', 'scat'):
        return 'str'
    if e.op in ('mempty', 'mst', 'mstore', 'mfun', 'mext'):
        return ('adt', 'BTreeMap', 'BTreeMap', keyty(e), valty(e))
    if e.op in ('list', 'glist', 'seq', 'cat', 'astore', 'recarr'):
        t = elem_ty(e)
        return ('adt', 'Vec', 'Vec', t) if t is not None else None
    return None


def elem_ty(s):
    so = s.a[1] if s.op in ('var', 'app') else None
    if isinstance(so, tuple) and so[0] == 'vec':
        return so[1]
    if s.op == 'astore':
        return elem_ty(s.a[0])
    if s.op == 'recarr':
        return s.a[2]
    if s.op in ('list', 'glist'):
        ts = {shape_ty(e) for g, e in glist(s)}
        if ts == {'i64', 'f64'}:
            return 'f64'
        return ts.pop() if len(ts) == 1 else None
    if s.op == 'seq':
        return shape_ty(s.a[3])
    if s.op == 'cat':
        ts = {elem_ty(p) for p in s.a}
        if ts == {'i64', 'f64'}:
            return 'f64'
        return ts.pop() if len(ts) == 1 else None
    if s.op == 'gate':
        return elem_ty(s.a[1]) or elem_ty(s.a[2])
    if s.op == 'arrview':
        return elem_ty(s.a[0])
    if s.op == 'pushview':
        return elem_ty(s.a[0])
    return None


def idx_(x, i, ty):
    return expand(ty, lambda s: mk('app', 'idx', s, x, i)) if ty is not None else mk('app', 'idx', ('obj', ('?',)), x, i)


def at(s, i):
    """element i (in bounds)"""
    k = isconst(i)
    if s.op == 'list':
        if k is not None:
            return s.a[int(k)] if 0 <= k < len(s.a) and k.denominator == 1 else UNDEF
        if len(s.a) <= 16:
            r = UNDEF
            for j in reversed(range(len(s.a))):
                r = gate(eq0(sub(i, const(j))), s.a[j], r) if r is not UNDEF else s.a[j]
            return r
    if s.op == 'seq' and s.a[1].op == 'range' and s.a[2] is TRUE:
        _, (src, g, e) = open_(s, i)
        return e
    if s.op == 'astore':
        c = eq0(sub(s.a[1], i))
        return gate(c, s.a[2], at(s.a[0], i))
    if s.op == 'gate':
        return gate(s.a[0], at(s.a[1], i), at(s.a[2], i))
    if s.op == 'cat':
        n = length(s.a[0])
        return gate(lt(i, n), at(s.a[0], i), at(cat(*s.a[1:]), sub(i, n)))
    if s.op == 'recarr' and i.op == 'var' and not isinstance(i.a[0], tuple) and '~' not in i.a[0]:
        return unfold_rec(s, i)
    if s.op == 'recarr' and k is not None and k <= 4:
        return unfold_rec(s, i)
    if s is UNDEF:
        return UNDEF
    if s.op == 'arrview':
        # an array being filled in order: self, next position, initial contents, length
        slf, pos, I, L = s.a
        if lt(i, pos) is TRUE:
            return idx_(slf, i, elem_ty(slf)) if slf.op == 'var' else at(slf, i)
        if le(pos, i) is TRUE:
            return at(I, i)
        return idx_(s, i, elem_ty(slf))
    if s.op == 'pushview':
        return idx_(s.a[0] if lt(i, s.a[1]) is TRUE else s, i, elem_ty(s.a[0]))
    return idx_(s, i, elem_ty(s))


def recarr(n, ety, vself, vi, elem):
    """the array a of length n with a[i] = elem(i), elem reading only earlier entries of a (as vself)"""
    return close('recarr', vself, vself.a[1], n, ety, close('lam', vi, 'u', elem))


BINDERS['recarr'] = lambda v, n, ety, lam: close('recarr', v, v.a[1], n, ety, lam)
BINDERS['lam'] = lambda v, e: close('lam', v, v.a[1], e)
REBUILD['recarr'] = REBUILD['lam'] = 'binder'


def unfold_rec(s, i):
    _, (n, ety, lam) = open_(s, s)
    return apply_lam(lam, i)


def apply_lam(lam, x):
    _, (e,) = open_(lam, x)
    return e


def astore(s, i, x):
    k = isconst(i)
    if s.op == 'list' and k is not None and 0 <= k < len(s.a):
        l = list(s.a)
        l[int(k)] = x
        return mk('list', *l)
    if s.op == 'list' and len(s.a) <= 16:
        return mk('list', *[gate(eq0(sub(i, const(j))), x, e) for j, e in enumerate(s.a)])
    if s.op == 'seq' and s.a[1].op == 'range' and s.a[2] is TRUE:
        v, (src, g, e) = open_(s)
        return mkseq(v, src, TRUE, gate(eq0(sub(v, i)), x, e))
    if s.op == 'gate':
        return gate(s.a[0], astore(s.a[1], i, x), astore(s.a[2], i, x))
    if s.op == 'astore' and s.a[1] is i:
        return astore(s.a[0], i, x)
    return mk('astore', s, i, x)


REBUILD['astore'] = astore


def push(s, x):
    return cat(s, mk('list', x))


def seq_map(s, f, guard_f=None):
    """s with every element mapped by f (and filtered by guard_f)"""
    if s.op in ('list', 'glist'):
        es = []
        for g, e in glist(s):
            es.append((g if guard_f is None else AND(g, guard_f(e)), f(e)))
        return mkglist(es)
    if s.op == 'seq':
        v, (src, g, e) = open_(s)
        with range_facts(v, src):
            g2 = g if guard_f is None else AND(g, guard_f(e))
            e2 = f(e)
        return mkseq(v, src, g2, e2)
    if s.op == 'cat':
        return cat(*[seq_map(p, f, guard_f) for p in s.a])
    if s.op == 'flat':
        v, (src, g, inner) = open_(s)
        with range_facts(v, src):
            r = seq_map(inner, f, guard_f)
        return None if r is None else BINDERS['flat'](v, src, g, r)
    if s.op == 'gate':
        return gate(s.a[0], seq_map(s.a[1], f, guard_f), seq_map(s.a[2], f, guard_f))
    if s.op in ('astore', 'recarr') or (s.op in ('var', 'app')):
        return seq_map(as_seq(s), f, guard_f)
    return None


def as_seq(s):
    """a positional description of any sequence"""
    if s.op in ('list', 'glist', 'seq', 'cat'):
        return s
    if s.op == 'gate':
        return gate(s.a[0], as_seq(s.a[1]), as_seq(s.a[2]))
    v = fresh('u', 'i')
    n = length(s)
    return close('seq', v, 'u', mk('range', n), TRUE, at(s, v))


def element_facts(c, v, src):
    """what holds for every element of the source holds for this one"""
    key = mk('key', src.a[0]) if src.op == 'keys' else src
    for a, val in list(c.lits.items()):
        if a.op == 'exists' and not val and a.a[1] is key:
            v0, (s0, cond) = open_(a)
            g = NOT(subst(cond, {v0: v}))
            while g.op == 'bdd' and (g.a[1] is FALSE or g.a[2] is FALSE):
                assume_lit(c, g.a[0], g.a[2] is FALSE)
                g = g.a[1] if g.a[2] is FALSE else g.a[2]


class range_facts:
    """facts about a bound variable while working under its binder"""
    def __init__(self, v, src):
        self.v, self.src = v, src

    def __enter__(self):
        c = Ctx(ctx())
        if self.src.op == 'range':
            c.lin.append((neg(self.v), False))
            c.lin.append((sub(self.v, self.src.a[0]), True))
            if is_int(self.src.a[0]):
                c.lin.append((add(self.v, neg(self.src.a[0]), ONE), False))
                c.lin.append((sub(ONE, self.src.a[0]), False))
        element_facts(c, self.v, self.src)
        CTX.append(c)
        return c

    def __exit__(self, *a):
        CTX.pop()


def positional(s):
    """True if element i of s is given for every i < length (no filtering)"""
    return s.op == 'list' or (s.op == 'seq' and s.a[1].op == 'range' and s.a[2] is TRUE)


def reverse(s):
    if s.op == 'list':
        return mk('list', *reversed(s.a))
    if s.op == 'glist':
        return mk('glist', tuple(reversed(s.a[0])))
    if s.op == 'seq' and s.a[1].op == 'range':
        v, (src, g, e) = open_(s)
        m = {v: sub(sub(src.a[0], ONE), v)}
        with range_facts(v, src):
            return mkseq(v, src, subst(g, m), subst(e, m))
    if s.op == 'seq' and s.a[1].op == 'keys':
        v, (src, g, e) = open_(s)
        return mkseq(v, mk('keys', src.a[0], not src.a[1]), g, e)
    if s.op == 'cat':
        return cat(*[reverse(p) for p in reversed(s.a)])
    if s.op == 'flat':
        v, (src, g, inner) = open_(s)
        if src.op == 'keys':
            return close('flat', v, v.a[1], mk('keys', src.a[0], not src.a[1]), g, reverse(inner))
        if src.op == 'range':
            m = {v: sub(sub(src.a[0], ONE), v)}
            return close('flat', v, v.a[1], src, subst(g, m), reverse(subst(inner, m)))
    if s.op in ('astore', 'recarr', 'var') or s.op == 'app' and s.a[0][0] != '?':
        return reverse(as_seq(s))
    if s.op == 'gate':
        return gate(s.a[0], reverse(s.a[1]), reverse(s.a[2]))
    return mk('app', '?rev', ('obj', ('?',)), s)


def take_skip(s, k, n):
    """elements k .. k+n (n None: to the end); clamped to the length"""
    if s.op == 'list' and isconst(k) is not None and (n is None or isconst(n) is not None):
        k0 = int(isconst(k))
        return mk('list', *(s.a[k0:] if n is None else s.a[k0:k0 + int(isconst(n))]))
    if s.op == 'gate':
        return gate(s.a[0], take_skip(s.a[1], k, n), take_skip(s.a[2], k, n))
    if s.op == 'list':
        s2 = as_pos(s)
    elif positional(s):
        s2 = s
    elif s.op in ('astore', 'recarr', 'var', 'app'):
        s2 = as_seq(s)
    elif s.op == 'cat' and n is None and s.a[0].op == 'list' and isconst(k) is not None and isconst(k) <= len(s.a[0].a):
        return cat(take_skip(s.a[0], k, None), *s.a[1:])
    else:
        return mk('app', '?skip', ('obj', ('?',)), s, k, n if n is not None else UNDEF)
    v, (src, g, e) = open_(s2)
    L = sub(src.a[0], k)
    L = L if nonneg(L) else gate(lt0(L), ZERO, L)
    if n is not None:
        L = gate(le(n, L), n, L)
    with range_facts(v, mk('range', L)):
        e2 = subst(e, {v: add(v, k)})
    return mkseq(v, mk('range', L), TRUE, e2)


def as_pos(s):
    v = fresh('u', 'i')
    return close('seq', v, 'u', mk('range', length(s)), TRUE, at(s, v))


def zip_(a, b):
    if a.op == 'gate':
        return gate(a.a[0], zip_(a.a[1], b), zip_(a.a[2], b))
    if b.op == 'gate':
        return gate(b.a[0], zip_(a, b.a[1]), zip_(a, b.a[2]))
    if a.op == 'list' and b.op == 'list':
        return mk('list', *[mk('tuple', x, y) for x, y in zip(a.a, b.a)])
    if a.op == 'inf_range' and b.op != 'inf_range':
        r = zip_(b, a)
        return seq_map(r, lambda t: mk('tuple', t.a[1], t.a[0]))
    if b.op == 'inf_range':
        k = b.a[0]
        if a.op == 'list':
            return mk('list', *[mk('tuple', x, add(k, const(i))) for i, x in enumerate(a.a)])
        if a.op in ('astore', 'recarr', 'var', 'app'):
            a = as_seq(a)
        if positional(a):
            v, (src, g, e) = open_(a)
            return mkseq(v, src, TRUE, mk('tuple', e, add(k, v)))
        return mk('app', '?zip', ('obj', ('?',)), a, b)
    if a.op in ('astore', 'recarr', 'var', 'app'):
        a = as_seq(a)
    if b.op in ('astore', 'recarr', 'var', 'app'):
        b = as_seq(b)
    if (a.op == 'list' or positional(a)) and (b.op == 'list' or positional(b)):
        na, nb = length(a), length(b)
        n = na if na is nb else gate(le(na, nb), na, nb)
        v = fresh('u', 'i')
        with range_facts(v, mk('range', n)):
            e = mk('tuple', at(a, v), at(b, v))
        return mkseq(v, mk('range', n), TRUE, e)
    if a.op == 'seq' and b.op == 'seq' and a.a[1] is b.a[1] and a.a[2] is b.a[2]:
        v, (src, g, e) = open_(a)
        _, (_, _, e2) = open_(b, v)
        return mkseq(v, src, g, mk('tuple', e, e2))
    return mk('app', '?zip', ('obj', ('?',)), a, b)


# ---------------------------------------------------------------- sums, products, quantifiers, first
def _splitexp(b, e, v):
    """b^e = free part * bound part w.r.t. v (b free of v)"""
    fr, bd = {}, {}
    for m, c in P(e):
        t = mkpoly({m: c})
        (bd if v in t.fv else fr)[m] = c
    return mkpoly(fr), mkpoly(bd)


def backward(v, n, guard, elem):
    """does the bound variable of a sum over range(n) occur only as n - v + constant (in indices, if it occurs in any)"""
    if n.op != 'poly' and n.op != 'var' and n.op != 'app':
        return False
    ps = [x for t in (guard, elem) for x in subterms(t) if x.op == 'poly' and v in x.fv]
    ix = [x.a[3] for t in (guard, elem) for x in subterms(t) if x.op == 'app' and x.a[0] == 'idx' and v in x.a[3].fv]
    if ix:
        ps = ix
    elif any(x.op == 'lt0' or x.op == 'le0' or x.op == 'eq0' for x in subterms(guard)):
        return False
    return bool(ps) and all(v not in sub(add(p, v), n).fv and isconst(sub(add(p, v), n)) is not None for p in ps)


def bigsum(v, src, guard, elem):
    if guard is FALSE or elem is ZERO:
        return ZERO
    if src.op == 'range':
        src = crange(src)
        n = isconst(src.a[0])
        if n is not None and n <= 0:
            return ZERO
        if elem is UNDEF:
            return UNDEF
        if n is not None and n <= 64:
            return add(*[gate(subst(guard, {v: const(k)}), subst(elem, {v: const(k)}), ZERO) for k in range(int(n))])
        if src.a[0].op == 'gate':
            g = src.a[0]
            return gate(g.a[0], bigsum(v, mk('range', g.a[1]), guard, elem), bigsum(v, mk('range', g.a[2]), guard, elem))
        if backward(v, src.a[0], guard, elem):
            m = {v: sub(src.a[0], add(v, ONE))}
            return bigsum(v, src, subst(guard, m), subst(elem, m))
    if guard is not TRUE and v not in guard.fv:
        return gate(guard, bigsum(v, src, TRUE, elem), ZERO)
    if elem is UNDEF:
        return UNDEF
    if elem.op == 'gate' and not isnum(elem):
        return mk('app', '?sum', 'f', elem)
    acc = ZERO
    for m, c in P(elem):
        outer = const(c)
        inner = ONE
        g = guard
        for b, e in m:
            if b.op == 'gate' and b.a[1] is ONE and b.a[2] is ZERO and isconst(e) is not None and isconst(e) > 0:
                if v in b.fv:
                    g = AND(g, b.a[0])
                else:
                    outer = mul(outer, b)
                continue
            if v in b.fv:
                inner = mul(inner, powr(b, e))
            elif v in e.fv:
                f, bd = _splitexp(b, e, v)
                outer = mul(outer, powr(b, f))
                inner = mul(inner, powr(b, bd))
            else:
                outer = mul(outer, powr(b, e))
        acc = add(acc, mul(outer, _sum1(v, src, g, inner)))
    return acc


def _sum1(v, src, g, inner):
    if g is FALSE:
        return ZERO
    if g is not TRUE and v not in g.fv:
        return gate(g, _sum1(v, src, TRUE, inner), ZERO)
    if inner.op == 'gate' and v in inner.a[0].fv:
        # a sum of cases is the sum over each case
        c, x, y = inner.a
        if x is not UNDEF and y is not UNDEF:
            return add(bigsum(v, src, AND(g, c), x), bigsum(v, src, AND(g, NOT(c)), y))
    if g is TRUE and src.op == 'range' and inner is ONE:
        return maxv(src.a[0], ZERO)
    if g is TRUE and src.op == 'range' and (inner is v or inner is powr(v, const(2)) or inner is powr(v, const(3))) and nonneg(src.a[0]):
        n = src.a[0]
        h = scale(mul(n, sub(n, ONE)), Fraction(1, 2))
        return h if inner is v else mul(h, h) if inner is powr(v, const(3)) else scale(mul(h, sub(scale(n, 2), ONE)), Fraction(1, 3))
    if inner.op == 'poly' and len(P(inner)) > 1:
        return bigsum(v, src, g, inner)
    g2 = simp_range(v, src, g)
    if g2 is not g:
        return _sum1(v, src, g2, inner)
    # an equation for the bound variable selects one term
    if src.op == 'keys' or src.op == 'range':
        t = solved(g, v)
        if t is not None:
            inside = TRUE if src.op == 'keys' else AND(le0(neg(t)), lt(t, src.a[0]))
            return gate(AND(inside, subst(g, {v: t})), subst(inner, {v: t}), ZERO)
    return close('sum', v, v.a[1], src, g, inner)


def simp_range(v, src, g):
    if src.op != 'range' or g.op != 'bdd':
        return g
    with range_facts(v, src):
        return simp_bool(g)


def solved(g, v):
    """t if condition g forces v = t (g a conjunction with the equation v = t)"""
    while g.op == 'bdd':
        a, hi, lo = g.a
        if lo is FALSE and a.op == 'eq0':
            p = a.a[0]
            for m, c in P(p):
                if len(m) == 1 and m[0][0] is v and m[0][1] is ONE:
                    rest = sub(v, scale(p, 1 / c))
                    if v not in rest.fv:
                        return rest
        if lo is FALSE and a.op == 'in' and a.a[0] is v and len(a.a[1]) == 1:
            return mk('variant', v.a[1][1], next(iter(a.a[1])))
        if lo is FALSE:
            g = hi
        elif hi is FALSE:
            g = lo
        else:
            return None
    return None


BINDERS['sum'] = bigsum
REBUILD['sum'] = 'binder'


def bigprod(v, src, guard, elem):
    if guard is FALSE:
        return ONE
    if src.op == 'range':
        src = crange(src)
        n = isconst(src.a[0])
        if n is not None and n <= 0:
            return ONE
        if n is not None and n <= 64:
            r = ONE
            for k in range(int(n)):
                r = mul(r, gate(subst(guard, {v: const(k)}), subst(elem, {v: const(k)}), ONE))
            return r
    items = P(elem)
    if len(items) == 1 and elem.op == 'poly':
        m, c = items[0]
        r = powr(const(c), bigsum(v, src, guard, ONE)) if c != 1 else ONE
        for b, e in m:
            if v not in b.fv:
                r = mul(r, powr(b, bigsum(v, src, guard, e)))
            elif v not in e.fv:
                r = mul(r, powr(bigprod(v, src, guard, b), e))
            else:
                r = mul(r, close('prod', v, v.a[1], src, guard, powr(b, e)))
        return r
    if elem.op == 'poly':
        k, f, prim = content(elem, positive_only=True)
        if k != 1 or f is not ONE:
            return mul(bigprod(v, src, guard, scale(f, k)), bigprod(v, src, guard, prim))
    if v not in elem.fv:
        return powr(elem, bigsum(v, src, guard, ONE))
    return close('prod', v, v.a[1], src, guard, elem)


BINDERS['prod'] = bigprod
REBUILD['prod'] = 'binder'


def exists(v, src, cond):
    if cond is FALSE:
        return FALSE
    if src.op == 'range':
        src = crange(src)
        n = isconst(src.a[0])
        if n is not None and n <= 0:
            return FALSE
        if n is not None and n <= 64:
            return OR(*[subst(cond, {v: const(k)}) for k in range(int(n))])
    cond = simp_range(v, src, cond)
    if v not in cond.fv:
        if src.op == 'range':
            return AND(cond, NOT(le0(src.a[0])))
    t = solved(cond, v)
    if t is not None:
        inside = TRUE if src.op == 'keys' else AND(le0(neg(t)), lt(t, src.a[0]))
        return AND(inside, subst(cond, {v: t}))
    if ruled_out(v, src, cond):
        return FALSE
    d = monotone(v, cond) if src.op == 'range' and cond.op == 'bdd' else 0
    if d:
        n = src.a[0]
        return AND(NOT(le0(n)), subst(cond, {v: add(n, const(-1)) if d > 0 else ZERO}))
    # conditions free of v move out, disjunctions split
    if cond.op == 'bdd':
        a, hi, lo = cond.a
        if v not in a.fv and (hi is FALSE or lo is FALSE or True):
            return ite(atom(a), exists(v, src, hi), exists(v, src, lo))
        fre = next((x for x in batoms(cond) if v not in x.fv), None)
        if fre is not None:
            return ite(atom(fre), exists(v, src, cofactor(cond, fre, True)), exists(v, src, cofactor(cond, fre, False)))
        if hi is TRUE and lo is not FALSE:
            ds, x = [], cond
            while x.op == 'bdd' and x.a[1] is TRUE:
                ds.append(atom(x.a[0]))
                x = x.a[2]
            ds = merge_in(ds + [x])
            return OR(*[exists(v, src, d) for d in ds])
        if lo is TRUE and hi is not FALSE:
            return OR(exists(v, src, NOT(atom(a))), exists(v, src, hi))
        both, ds = factored(cond)
        if len(ds) > 1:
            return OR(*[exists(v, src, AND(both, d)) for d in ds])
    return atom(close('exists', v, v.a[1], mk('key', src.a[0]) if src.op == 'keys' else src, cond))


def factored(cond):
    """cond as a conjunction of literals and a disjunction: (both, disjuncts)"""
    both, rest = [], cond
    for a in batoms(cond):
        if rest.op != 'bdd':
            break
        for val in (True, False):
            if cofactor(rest, a, not val) is FALSE:
                both.append(atom(a) if val else NOT(atom(a)))
                rest = cofactor(rest, a, val)
                break
    if not both:
        return TRUE, [cond]
    ds = []
    while rest.op == 'bdd':
        a, hi, lo = rest.a
        if hi is TRUE and lo is not FALSE:
            ds.append(atom(a))
            rest = lo
        elif lo is TRUE and hi is not FALSE:
            ds.append(NOT(atom(a)))
            rest = hi
        else:
            break
    return AND(*both), merge_in(ds + [rest])


def none_of(count):
    """the condition that a sum of ones has no terms"""
    v, (src, g, e) = open_(count)
    return NOT(exists(v, src, g)) if e is ONE else None


TM.NONE_OF = none_of


def monotone(v, cond):
    """+1 (-1): a conjunction of linear inequalities, each of which still holds when v grows (shrinks); 0: not of that form"""
    d = 0
    while cond.op == 'bdd':
        a, hi, lo = cond.a
        pos = lo is FALSE
        if not pos and hi is not FALSE or a.op not in ('lt0', 'le0'):
            return 0
        k = 0
        for m, c in P(a.a[0]):
            if any(v in b.fv or v in e.fv for b, e in m):
                if len(m) != 1 or m[0][0] is not v or m[0][1] is not ONE:
                    return 0
                k = -1 if c > 0 else 1
        if k == 0:
            return 0
        if not pos:
            k = -k
        if d not in (0, k):
            return 0
        d = k
        cond = hi if pos else lo
    return d if cond is TRUE else 0


def ruled_out(v, src, cond):
    """no element fulfils cond, because none fulfils something it implies"""
    lits = ctx().lits
    if not lits:
        return False
    key = mk('key', src.a[0]) if src.op == 'keys' else src
    for a, val in lits.items():
        if a.op == 'exists' and not val and a.a[1] is key:
            _, (_, c) = open_(a, v)
            if AND(cond, NOT(c)) is FALSE:
                return True
    return False


REBUILD['key'] = lambda k: mk('keys', k, False)


def cofactor(b, a, val):
    if b.op != 'bdd':
        return b
    x, hi, lo = b.a
    if x is a:
        return hi if val else lo
    return bnode_safe(x, cofactor(hi, a, val), cofactor(lo, a, val))


def bnode_safe(x, hi, lo):
    return ite(atom(x), hi, lo)


def _ex(v, src, cond):
    if src.op == 'key':
        src = mk('keys', src.a[0], False)
    return exists(v, src, cond)


BINDERS['exists'] = _ex
REBUILD['exists'] = 'binder'


def s_exists(s, f):
    """exists an element of sequence s with f"""
    if s.op in ('list', 'glist'):
        return OR(*[AND(g, f(e)) for g, e in glist(s)])
    if s.op == 'cat':
        return OR(*[s_exists(p, f) for p in s.a])
    if s.op == 'flat':
        v, (src, g, inner) = open_(s)
        with range_facts(v, src):
            c = AND(g, s_exists(inner, f))
        return exists(v, src, c)
    if s.op == 'gate':
        return ite(s.a[0], s_exists(s.a[1], f), s_exists(s.a[2], f))
    if s.op != 'seq':
        s = as_seq(s)
    v, (src, g, e) = open_(s)
    with range_facts(v, src):
        c = AND(g, f(e))
    return exists(v, src, c)


def s_sum(s, f=lambda x: x):
    if s.op in ('list', 'glist'):
        return add(*[gate(g, f(e), ZERO) for g, e in glist(s)]) if glist(s) else ZERO
    if s.op == 'cat':
        return add(*[s_sum(p, f) for p in s.a])
    if s.op == 'flat':
        v, (src, g, inner) = open_(s)
        with range_facts(v, src):
            x = s_sum(inner, f)
        return bigsum(v, src, g, x)
    if s.op == 'gate':
        return gate(s.a[0], s_sum(s.a[1], f), s_sum(s.a[2], f))
    if s.op != 'seq':
        s = as_seq(s)
    v, (src, g, e) = open_(s)
    with range_facts(v, src):
        x = f(e)
    return bigsum(v, src, g, x)


def s_prod(s):
    if s.op in ('list', 'glist'):
        r = ONE
        for g, e in glist(s):
            r = mul(r, gate(g, e, ONE))
        return r
    if s.op == 'cat':
        r = ONE
        for p in s.a:
            r = mul(r, s_prod(p))
        return r
    if s.op == 'flat':
        v, (src, g, inner) = open_(s)
        return bigprod(v, src, g, s_prod(inner))
    if s.op == 'gate':
        return gate(s.a[0], s_prod(s.a[1]), s_prod(s.a[2]))
    if s.op != 'seq':
        s = as_seq(s)
    v, (src, g, e) = open_(s)
    return bigprod(v, src, g, e)


def onset(v, guard):
    """the first natural number of a condition v >= r"""
    ats = batoms(guard)
    if len(ats) != 1 or ats[0].op != 'le0' or v not in ats[0].fv:
        return None
    p, yes = ats[0].a[0], guard is atom(ats[0])
    if not is_int(p) or not yes and guard is not NOT(atom(ats[0])):
        return None
    q = add(p, v) if yes else sub(v, p)
    if v in q.fv:
        return None
    # q - v <= 0, or not(v - q <= 0)
    return maxv(q if yes else add(q, ONE), ZERO)


def first_of(v, src, guard, elem):
    """elem at the first v of src with guard (which exists)"""
    if elem.op == 'wrapb':
        elem = elem.a[0]
    if src.op == 'range':
        src = crange(src)
        n = isconst(src.a[0])
        if n is not None and n <= 64:
            r = FALSE if isbool(elem) else UNDEF
            for k in reversed(range(int(n))):
                r = (ite if isbool(elem) else gate)(subst(guard, {v: const(k)}), subst(elem, {v: const(k)}), r)
            return r
    guard = simp_range(v, src, guard)
    if guard is TRUE and src.op == 'range':
        return subst(elem, {v: ZERO})
    if v not in elem.fv:
        return elem
    if src.op == 'range':
        k = onset(v, guard)
        if k is not None:
            return subst(elem, {v: k})
    if elem.op in ('tuple', 'rec', 'variant'):
        k = {'tuple': 0, 'rec': 1, 'variant': 2}[elem.op]
        return mk(elem.op, *elem.a[:k], *[first_of(v, src, guard, x) for x in elem.a[k:]])
    if elem.op == 'seq' and v not in elem.a[2].fv and v not in elem.a[3].fv and elem.a[1].op == 'range':
        w, (s2, g2, e2) = open_(elem)
        return mkseq(w, mk('range', first_of(v, src, guard, s2.a[0])), g2, e2)
    if elem.op == 'poly':
        out = ZERO
        for m, c in P(elem):
            o, inn = const(c), ONE
            for b, e in m:
                if v in b.fv or v in e.fv:
                    inn = mul(inn, powr(b, e))
                else:
                    o = mul(o, powr(b, e))
            out = add(out, mul(o, close('first', v, v.a[1], src, guard, inn) if inn is not ONE else ONE))
        return out
    if elem.op == 'bdd':
        return atom(close('first', v, v.a[1], src, guard, mk('wrapb', elem)))
    return close('first', v, v.a[1], src, guard, elem)


BINDERS['first'] = first_of
REBUILD['first'] = 'binder'


def s_first(s):
    """(exists?, first element) of a filtered sequence"""
    if s.op in ('list', 'glist'):
        r, ex = UNDEF, FALSE
        for g, e in reversed(glist(s)):
            r = gate(g, e, r)
            ex = OR(g, ex)
        return ex, r
    if s.op == 'gate':
        e1, v1 = s_first(s.a[1])
        e2, v2 = s_first(s.a[2])
        return ite(s.a[0], e1, e2), gate(s.a[0], v1, v2)
    if s.op == 'cat':
        e1, v1 = s_first(s.a[0])
        e2, v2 = s_first(cat(*s.a[1:]))
        return OR(e1, e2), gate(e1, v1, v2)
    if s.op != 'seq':
        s = as_seq(s)
    v, (src, g, e) = open_(s)
    return exists(v, src, g), first_of(v, src, g, e)


# ---------------------------------------------------------------- maps
# mempty(K,V)  mst(base, ((k,p,v),..sorted const keys))  mstore(base,k,p,v)  mfun(bv;K,has,val)  mext(base; seq of pairs)
def keyty(M):
    if M.op in ('mempty', 'mfun'):
        return M.a[0] if M.op == 'mempty' else M.a[1]
    if M.op in ('mst', 'mstore', 'mext'):
        return keyty(M.a[0])
    if M.op == 'gate':
        return keyty(M.a[1]) or keyty(M.a[2])
    so = M.a[1] if M.op in ('var', 'app') else None
    if isinstance(so, tuple) and so[0] == 'map':
        return so[1]
    return None


def valty(M):
    if M.op == 'mempty':
        return M.a[1]
    if M.op == 'mfun':
        return None
    if M.op in ('mst', 'mstore', 'mext'):
        return valty(M.a[0])
    if M.op == 'gate':
        return valty(M.a[1]) or valty(M.a[2])
    so = M.a[1] if M.op in ('var', 'app') else None
    if isinstance(so, tuple) and so[0] == 'map':
        return so[2]
    return None


def isckey(k):
    if k.op == 'variant':
        return all(isckey(x) for x in k.a[2:])
    if k.op in ('tuple',):
        return all(isckey(x) for x in k.a)
    return isconst(k) is not None or k.op == 'str'


def mset(M, k, p, v):
    if isckey(k):
        if M.op == 'mst':
            es = {x[0]: x for x in M.a[1]}
            es[k] = (k, p, v)
            return mk('mst', M.a[0], tuple(sorted(es.values(), key=lambda x: x[0].id)))
        if M.op == 'mstore' and isckey(M.a[1]):
            pass
        return mk('mst', M, ((k, p, v),))
    if M.op == 'mstore' and M.a[1] is k:
        return mset(M.a[0], k, p, v)
    if M.op == 'gate':
        return gate(M.a[0], mset(M.a[1], k, p, v), mset(M.a[2], k, p, v))
    return mk('mstore', M, k, p, v)


def _mst(M, es):
    for k, p, v in es:
        if not isbool(p):
            p = atom(p)
        M = mset(M, k, p, v)
    return M


REBUILD['mst'] = _mst
REBUILD['mstore'] = mset


def mfun(v, K, has, val):
    # eta: the map itself
    if has.op == 'bdd' and has.a[1] is TRUE and has.a[2] is FALSE and has.a[0].op == 'app' and has.a[0].a[0] == 'has':
        h = has.a[0]
        if h.a[3] is keyval(K, v) and v not in h.a[2].fv:
            M = h.a[2]
            if val is mget(M, keyval(K, v)):
                return M
    return close('mfun', v, v.a[1], K, has, val)


def keyval(K, v):
    return expand(K, lambda s: v)


def keyvar(K):
    return fresh(sort_of(K), 'k')


BINDERS['mfun'] = mfun
REBUILD['mfun'] = 'binder'


def mext(M, s):
    """insert the pairs of sequence s in order"""
    if s is NIL:
        return M
    if s.op in ('list', 'glist'):
        for g, e in glist(s):
            k, x = field(e, 0), field(e, 1)
            if g is TRUE:
                M = mset(M, k, TRUE, x)
            else:
                M = mset(M, k, OR(g, mhas(M, k)), gate(g, x, mget(M, k)))
        return M
    if s.op == 'cat':
        for p in s.a:
            M = mext(M, p)
        return M
    if s.op == 'gate':
        return gate(s.a[0], mext(M, s.a[1]), mext(M, s.a[2]))
    if s.op == 'seq' and s.a[1].op == 'keys':
        K = s.a[1].a[0]
        v, (src, g, e) = open_(s)
        if field(e, 0) is keyval(K, v):
            if M.op == 'mempty':
                return mfun(v, K, g, field(e, 1))
            kv = keyval(K, v)
            return mfun(v, K, OR(g, mhas(M, kv)), gate(g, field(e, 1), mget(M, kv)))
    if s.op in ('astore', 'recarr', 'var', 'app'):
        s = as_seq(s)
    return mk('mext', M, s)


REBUILD['mext'] = mext


def gmerge_map(c, a, b):
    if a.op == 'mst' or b.op == 'mst':
        ba, ea = (a.a[0], a.a[1]) if a.op == 'mst' else (a, ())
        bb, eb = (b.a[0], b.a[1]) if b.op == 'mst' else (b, ())
        if ba is bb or (ba.op == bb.op == 'mempty'):
            da, db = {x[0]: x for x in ea}, {x[0]: x for x in eb}
            out = []
            for k in set(da) | set(db):
                pa, va = da[k][1:] if k in da else (mhas(ba, k), mget(ba, k))
                pb, vb = db[k][1:] if k in db else (mhas(bb, k), mget(bb, k))
                if pa is FALSE:
                    va = UNDEF
                if pb is FALSE:
                    vb = UNDEF
                out.append((k, ite(c, pa, pb), gate(c, va, vb)))
            return mk('mst', ba, tuple(sorted(out, key=lambda x: x[0].id)))
    if a.op == 'mstore' or b.op == 'mstore':
        ba = a.a[0] if a.op == 'mstore' else a
        bb = b.a[0] if b.op == 'mstore' else b
        k = a.a[1] if a.op == 'mstore' else b.a[1]
        if ba is bb and (a.op != 'mstore' or b.op != 'mstore' or a.a[1] is b.a[1]):
            pa, va = a.a[2:] if a.op == 'mstore' else (mhas(a, k), mget(a, k))
            pb, vb = b.a[2:] if b.op == 'mstore' else (mhas(b, k), mget(b, k))
            if pa is FALSE:
                va = UNDEF
            if pb is FALSE:
                vb = UNDEF
            return mset(ba, k, ite(c, pa, pb), gate(c, va, vb))
    if a.op == b.op == 'mstore' and a.a[0] is b.a[0]:
        return mset(a.a[0], gate(c, a.a[1], b.a[1]), ite(c, a.a[2], b.a[2]), gate(c, a.a[3], b.a[3]))
    if a.op == 'mfun' and b.op == 'mfun':
        K = a.a[1]
        v, (_, ha, va) = open_(a)
        _, (_, hb, vb) = open_(b, v)
        return mfun(v, K, ite(c, ha, hb), gate(c, va, vb))
    if a.op == 'mext' and a.a[0] is b and b.op != 'gate':
        return mext(b, gate(c, a.a[1], NIL))
    if b.op == 'mext' and b.a[0] is a:
        return mext(a, gate(c, NIL, b.a[1]))
    return None


for _o in ('mst', 'mstore', 'mfun', 'mext'):
    GATE_MERGE[_o] = gmerge_map


def mhas(M, k):
    if M.op == 'mempty' or M is UNDEF:
        return FALSE
    if M.op == 'mst':
        if isckey(k):
            for kk, p, v in M.a[1]:
                if kk is k:
                    return p
            return mhas(M.a[0], k)
        r = mhas(M.a[0], k)
        groups = {}
        for kk, p, v in M.a[1]:
            groups.setdefault(p, []).append(kk)
        for p, ks in groups.items():
            r = ite(key_in(k, ks), p, r)
        return r
    if M.op == 'mstore':
        return ite(veq(M.a[1], k), M.a[2], mhas(M.a[0], k))
    if M.op == 'mfun':
        _, (K, h, val) = open_(M, k)
        return h
    if M.op == 'gate':
        return ite(M.a[0], mhas(M.a[1], k), mhas(M.a[2], k))
    if M.op == 'mext':
        return OR(mhas(M.a[0], k), s_exists(M.a[1], lambda e: veq(field(e, 0), k)))
    if k.op == 'gate':
        return ite(k.a[0], mhas(M, k.a[1]), mhas(M, k.a[2]))
    if k is UNDEF:
        return FALSE
    return atom(mk('app', 'has', 'b', M, k))


def mget(M, k):
    if M.op == 'mempty' or M is UNDEF:
        return UNDEF
    if M.op == 'mst':
        if isckey(k):
            for kk, p, v in M.a[1]:
                if kk is k:
                    return v
            return mget(M.a[0], k)
        r = mget(M.a[0], k)
        groups = {}
        for kk, p, v in M.a[1]:
            groups.setdefault(v, []).append(kk)
        for v, ks in groups.items():
            r = gate(key_in(k, ks), v, r)
        return r
    if M.op == 'mstore':
        return gate(veq(M.a[1], k), M.a[3], mget(M.a[0], k))
    if M.op == 'mfun':
        _, (K, h, val) = open_(M, k)
        return val
    if M.op == 'gate':
        return gate(M.a[0], mget(M.a[1], k), mget(M.a[2], k))
    if M.op == 'mext':
        ex, x = s_first(reverse(seq_map(M.a[1], lambda e: field(e, 1), lambda e: veq(field(e, 0), k))))
        return gate(ex, x, mget(M.a[0], k))
    if k.op == 'gate':
        return gate(k.a[0], mget(M, k.a[1]), mget(M, k.a[2]))
    if k is UNDEF:
        return UNDEF
    ty = valty(M)
    if ty is None:
        return mk('app', 'get', ('obj', ('?',)), M, k)
    return expand(ty, lambda s: mk('app', 'get', s, M, k))


def key_in(k, ks):
    if all(x.op == 'variant' and len(x.a) == 2 for x in ks):
        if enum_domain(k) is not None or k.op == 'variant' or k.op == 'gate':
            return member(k, frozenset(x.a[1] for x in ks))
    return OR(*[veq(k, x) for x in ks])


ORDERS = {}


def mkeys(M):
    """the keys of a map in order"""
    es = const_entries(M)
    if es is not None:
        return mkglist([(p, k) for k, p, v in es])
    if M.op == 'gate':
        return gate(M.a[0], mkeys(M.a[1]), mkeys(M.a[2]))
    K = keyty(M)
    if K is None:
        return mk('app', '?keys', ('vec', ('?',)), M)
    v = keyvar(K)
    kv = keyval(K, v)
    return mkseq(v, mk('keys', K, False), mhas(M, kv), kv)


def mitems(M):
    es = const_entries(M)
    if es is not None:
        return mkglist([(p, mk('tuple', k, v)) for k, p, v in es])
    if M.op == 'gate':
        return gate(M.a[0], mitems(M.a[1]), mitems(M.a[2]))
    K = keyty(M)
    if K is None:
        return mk('app', '?items', ('vec', ('?',)), M)
    v = keyvar(K)
    kv = keyval(K, v)
    return mkseq(v, mk('keys', K, False), mhas(M, kv), mk('tuple', kv, mget(M, kv)))


def const_entries(M):
    """entries of a map with constant keys only, in key order"""
    es = {}
    st = []
    while M.op in ('mst', 'mstore'):
        st.append(M)
        M = M.a[0]
    if M.op != 'mempty':
        return None
    for m in reversed(st):
        if m.op == 'mstore':
            return None
        for k, p, v in m.a[1]:
            es[k] = (k, p, v)
    return sorted((x for x in es.values() if x[1] is not FALSE), key=lambda x: korder(x[0]))


def korder(k):
    if k.op == 'variant':
        a = TypeInfo.adt(k.a[0]) if TypeInfo.adt else None
        if a:
            for i, v in enumerate(a['variants']):
                if v['n'] == k.a[1]:
                    return (i,) + tuple(korder(x) for x in k.a[2:])
        return (k.a[1],)
    if k.op == 'tuple':
        return tuple(korder(x) for x in k.a)
    c = isconst(k)
    return (c if c is not None else k.id,)


def mretain(M, f):
    """keep the entries with f(k, v)"""
    es = const_entries(M)
    if es is not None:
        out = M
        for k, p, v in es:
            out = mset(out, k, AND(p, f(k, v)), v)
        return out
    if M.op == 'gate':
        return gate(M.a[0], mretain(M.a[1], f), mretain(M.a[2], f))
    K = keyty(M)
    v = keyvar(K)
    kv = keyval(K, v)
    val = mget(M, kv)
    return mfun(v, K, AND(mhas(M, kv), f(kv, val)), val)


def mmapvals(M, f):
    """apply f(k, v) to every value"""
    es = const_entries(M)
    if es is not None:
        out = M
        for k, p, v in es:
            out = mset(out, k, p, f(k, v))
        return out
    if M.op == 'gate':
        return gate(M.a[0], mmapvals(M.a[1], f), mmapvals(M.a[2], f))
    K = keyty(M)
    v = keyvar(K)
    kv = keyval(K, v)
    return mfun(v, K, mhas(M, kv), f(kv, mget(M, kv)))


def mlen(M):
    return length(mkeys(M))


def mempty(K, V):
    return mk('mempty', K, V)


# ---------------------------------------------------------------- structural equality and order
def veq(a, b):
    if a is b:
        return TRUE
    if a is UNDEF or b is UNDEF:
        return FALSE
    if a.op == 'gate':
        return ite(a.a[0], veq(a.a[1], b), veq(a.a[2], b))
    if b.op == 'gate':
        return ite(b.a[0], veq(a, b.a[1]), veq(a, b.a[2]))
    if isbool(a) and isbool(b):
        return NOT(XOR(a, b))
    if isnum(a) and isnum(b):
        return num_eq(a, b)
    if a.op == b.op == 'tuple' and len(a.a) == len(b.a):
        return AND(*[veq(x, y) for x, y in zip(a.a, b.a)])
    if a.op == b.op == 'rec':
        return AND(*[veq(x, y) for x, y in zip(a.a[1:], b.a[1:])])
    if a.op == b.op == 'variant':
        if a.a[1] != b.a[1]:
            return FALSE
        return AND(*[veq(x, y) for x, y in zip(a.a[2:], b.a[2:])])
    if a.op == 'variant' and enum_domain(b) is not None:
        return member(b, frozenset([a.a[1]]))
    if b.op == 'variant' and enum_domain(a) is not None:
        return member(a, frozenset([b.a[1]]))
    if a.op == b.op == 'list':
        return AND(*[veq(x, y) for x, y in zip(a.a, b.a)]) if len(a.a) == len(b.a) else FALSE
    if a.op == b.op == 'str':
        return FALSE
    if positional(a) and positional(b) and a.op == b.op == 'seq':
        v = fresh('u', 'i')
        n = length(a)
        with range_facts(v, mk('range', n)):
            c = NOT(veq(at(a, v), at(b, v)))
        return AND(num_eq(n, length(b)), NOT(exists(v, mk('range', n), c)))
    if a.id > b.id:
        a, b = b, a
    return atom(mk('app', 'eqv', 'b', a, b))


def vlt(a, b, strict=True):
    """a < b (or <=) in the derived order"""
    if a.op == 'gate':
        return ite(a.a[0], vlt(a.a[1], b, strict), vlt(a.a[2], b, strict))
    if b.op == 'gate':
        return ite(b.a[0], vlt(a, b.a[1], strict), vlt(a, b.a[2], strict))
    if isnum(a) and isnum(b):
        return lt(a, b) if strict else le(a, b)
    if a.op == b.op == 'tuple' and len(a.a) == len(b.a):
        r = FALSE if strict else TRUE
        for x, y in reversed(list(zip(a.a, b.a))):
            r = OR(vlt(x, y), AND(veq(x, y), r))
        return r
    if a.op == b.op == 'variant' and len(a.a) == len(b.a) == 2:
        return TRUE if (korder(a) < korder(b) or (not strict and a is b)) else FALSE
    if isbool(a) and isbool(b):
        return AND(NOT(a), b) if strict else OR(NOT(a), b)
    return atom(mk('app', '?lt' if strict else '?le', 'b', a, b))


# ---------------------------------------------------------------- dates (days as integers)
def dfield(f, x):
    if x.op == 'gate':
        return gate(x.a[0], dfield(f, x.a[1]), dfield(f, x.a[2]))
    if x is UNDEF:
        return UNDEF
    if x.op == 'app' and x.a[0] == 'ymd':
        i = {'year': 2, 'month': 3, 'day': 4}.get(f)
        if i:
            return x.a[i]
    if x.op == 'app' and x.a[0] == 'yo':
        i = {'year': 2, 'ordinal': 3}.get(f)
        if i:
            return x.a[i]
    if x.op == 'poly' and f in ('year', 'month', 'day', 'ordinal'):
        # the day before or after a date
        k = next((c for m, c in P(x) if m == ()), 0)
        d = sub(x, const(k)) if abs(k) == 1 else None
        if d is not None and (d.op in ('var', 'app') or d.op == 'poly' and len(P(d)) == 1):
            y, m, n, o = (dfield(w, d) for w in ('year', 'month', 'day', 'ordinal'))
            if f == 'ordinal':
                if k > 0:
                    return gate(eq0(sub(o, gate(leap_cond(y), const(366), const(365)))), ONE, add(o, ONE))
                p = sub(y, ONE)
                return gate(eq0(sub(o, ONE)), gate(leap_cond(p), const(366), const(365)), sub(o, ONE))
            edge = eq0(sub(n, dim(y, m))) if k > 0 else eq0(sub(n, ONE))
            turn = eq0(sub(m, const(12 if k > 0 else 1)))
            if f == 'year':
                return gate(AND(edge, turn), add(y, const(k)), y)
            if f == 'month':
                return gate(edge, gate(turn, const(1 if k > 0 else 12), add(m, const(k))), m)
            if k > 0:
                return gate(edge, ONE, add(n, ONE))
            p = sub(m, ONE)
            return gate(edge, gate(turn, const(31), dim(y, p)), sub(n, ONE))
    return mk('app', f, 'i', x)


def ymd(y, m, d):
    for t, w in ((y, 'year'), (m, 'month'), (d, 'day')):
        if not (t.op == 'app' and t.a[0] == w):
            break
    else:
        if y.a[2] is m.a[2] is d.a[2]:
            return y.a[2]
    return mk('app', 'ymd', 'i', y, m, d)


_CUM = (0, 31, 59, 90, 120, 151, 181, 212, 243, 273, 304, 334)


def day_number(x):
    """x, a number of days, with fixed days of a year counted from the start of that year"""
    out = []
    changed = False
    for mono, c in P(x):
        if len(mono) == 1 and mono[0][1] is ONE and mono[0][0].op == 'app' and mono[0][0].a[0] == 'yo':
            y, o = mono[0][0].a[2:4]
            out.append(scale(day_number(add(ymd(y, ONE, ONE), o, const(-1))), c))
            changed = True
            continue
        if len(mono) == 1 and mono[0][1] is ONE and mono[0][0].op == 'app' and mono[0][0].a[0] == 'ymd':
            y, m, d = mono[0][0].a[2:5]
            m, d = isconst(m), isconst(d)
            if m is not None and d is not None and 1 <= m <= 12 and isconst(y) is None:
                k = next((z for mm, z in P(y) if mm == ()), 0)
                if abs(k) <= 3:
                    y0 = sub(y, const(k))
                    if y0.op == 'app' and y0.a[0] == 'year':
                        t = add(sub(y0.a[2], mk('app', 'ordinal', 'i', y0.a[2])), ONE)
                    else:
                        t = mk('app', 'ymd', 'i', y0, ONE, ONE)
                    for j in range(min(0, int(k)), max(0, int(k))):
                        n = gate(leap_cond(add(y0, const(j))), const(366), const(365))
                        t = add(t, n) if k > 0 else sub(t, n)
                    t = add(t, const(_CUM[int(m) - 1] + d - 1))
                    if m > 2:
                        t = add(t, gate(leap_cond(y), ONE, ZERO))
                    out.append(scale(t, c))
                    changed = True
                    continue
        out.append(mkpoly({mono: c}))
    return add(*out) if changed else x


def dim(y, m):
    """days in month"""
    c = isconst(m)
    if c is not None:
        return const({4: 30, 6: 30, 9: 30, 11: 30}.get(int(c), 31)) if c != 2 else gate(leap_cond(y), const(29), const(28))
    def eq(k):
        return eq0(sub(m, const(k)))
    return gate(eq(2), gate(leap_cond(y), const(29), const(28)), gate(OR(eq(4), eq(6), eq(9), eq(11)), const(30), const(31)))


def valid_ymd(y, m, d):
    """does the calendar have this day (years are in range)"""
    if ymd(y, m, d).op != 'app' or ymd(y, m, d).a[0] != 'ymd':
        return TRUE
    cy, cm, cd = isconst(y), isconst(m), isconst(d)
    if None not in (cy, cm, cd):
        import calendar
        if not (1 <= cm <= 12):
            return FALSE
        ly = cy % 4 == 0 and (cy % 100 != 0 or cy % 400 == 0)
        n = {2: 29 if ly else 28, 4: 30, 6: 30, 9: 30, 11: 30}.get(int(cm), 31)
        return TRUE if 1 <= cd <= n else FALSE
    k = atom(mk('app', 'calday', 'b', y, m, d)) if cm is None and cd is None else _calday(y, m, d)
    return AND(le(ONE, m), le(m, const(12)), le(ONE, d), OR(le(d, const(28)), k))


def _calday(y, m, d):
    if isconst(m) is not None or isconst(d) is not None:
        cd = isconst(d)
        if cd is not None and cd <= 28:
            return TRUE
        if cd is not None and cd > 31:
            return FALSE
        if isconst(m) is not None:
            return le(d, dim(y, m))
    if ymd(y, m, d).op != 'app' or ymd(y, m, d).a[0] != 'ymd':
        return TRUE
    # what is assumed may settle it: 30 days but in February, 31 but in five months
    lo, hi = bounds(d)
    if hi is not None and hi <= 28:
        return TRUE
    if lo is not None and lo > 31:
        return FALSE
    if hi is not None and hi <= 31:
        def isnt(k):
            b = eq0(sub(m, const(k)))
            return b is FALSE or simp_bool(b) is FALSE
        if isnt(2) and (hi <= 30 or all(isnt(k) for k in (4, 6, 9, 11))):
            return TRUE
    return atom(mk('app', 'calday', 'b', y, m, d))


def yo(y, o):
    if y.op == o.op == 'app' and y.a[0] == 'year' and o.a[0] == 'ordinal' and y.a[2] is o.a[2]:
        return y.a[2]
    if o is ONE:
        return ymd(y, ONE, ONE)
    return mk('app', 'yo', 'i', y, o)


def valid_yo(y, o):
    return AND(le(ONE, o), le(o, gate(leap_cond(y), const(366), const(365))))


# ---------------------------------------------------------------- integer division
def idiv(a, b):
    ca, cb = isconst(a), isconst(b)
    if ca is not None and cb:
        return const(int(ca / cb))
    if cb == 1:
        return a
    return mk('app', 'idiv', 'i', a, b)


def imod(a, b):
    ca, cb = isconst(a), isconst(b)
    if ca is not None and cb:
        return const(ca - cb * int(ca / cb))
    if a.op == 'gate':
        return gate(a.a[0], imod(a.a[1], b), imod(a.a[2], b))
    return mk('app', 'imod', 'i', a, b)


# ---------------------------------------------------------------- rebuilding applications
def _rb_app(f, sort, *args):
    h = APPR.get(f)
    if h is not None:
        return h(sort, *args)
    return mk('app', f, sort, *args)


def _rb_idx(sort, x, i):
    if x.op in ('var', 'app'):
        return mk('app', 'idx', sort, x, i)
    if x.op == 'recarr' and not (i.op == 'var' and not isinstance(i.a[0], tuple) and '~' not in i.a[0]) and isconst(i) is None:
        return mk('app', 'idx', sort, x, i)
    r = at(x, i)
    if r.op in ('tuple', 'rec', 'variant', 'gate') and isinstance(sort, tuple) and sort[0] == 'obj':
        return r
    return r


def _rb_get(sort, M, k):
    if M.op in ('var', 'app') and k.op != 'gate':
        return mk('app', 'get', sort, M, k)
    return mget(M, k)


APPR = {
    'sel': lambda sort, o, i: sel_(sort, o, i),
    'idx': _rb_idx,
    'has': lambda sort, M, k: mhas(M, k),
    'get': _rb_get,
    'len': lambda sort, s: length(s),
    'floor': lambda s, x: rnd('floor', x), 'ceil': lambda s, x: rnd('ceil', x),
    'round': lambda s, x: rnd('round', x), 'trunc': lambda s, x: rnd('trunc', x),
    'pow': lambda s, b, e: powr(b, e),
    'ln': lambda s, x: ln_(x),
    'year': lambda s, x: dfield('year', x), 'month': lambda s, x: dfield('month', x),
    'day': lambda s, x: dfield('day', x), 'ordinal': lambda s, x: dfield('ordinal', x),
    'ymd': lambda s, y, m, d: ymd(y, m, d), 'yo': lambda s, y, o: yo(y, o),
    'calday': lambda s, y, m, d: _calday(y, m, d),
    'idiv': lambda s, a, b: idiv(a, b), 'imod': lambda s, a, b: imod(a, b),
    'eqv': lambda s, a, b: veq(a, b),
    'isv': lambda s, v, n: is_variant(v, n),
    'div0': lambda s, x: mk('app', 'div0', 'f', x),
}
REBUILD['app'] = _rb_app
