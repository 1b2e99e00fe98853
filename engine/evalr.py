"""Abstract evaluation of typed bodies into value graphs.

One pass over each body computes, for every value and memory place, its gated value graph: branches are joined by gates
(never enumerated as paths), calls are inlined, loops are summarised by loops.py, opaque calls stay uninterpreted.
"""
from fractions import Fraction
from terms import *
import terms as TM
from values import *
import values as VL


class Unsupported(Exception):
    pass


class Exit:
    __slots__ = ('kind', 'label', 'cond', 'val', 'store')

    def __init__(self, kind, label, cond, val, store):
        self.kind, self.label, self.cond, self.val, self.store = kind, label, cond, val, store


class Panic:
    __slots__ = ('cond', 'kind', 'span', 'fn')

    def __init__(self, cond, kind, span, fn):
        self.cond, self.kind, self.span, self.fn = cond, kind, span, fn


class Frame:
    n = 0

    def __init__(self, body, env, parent=None, caps=None):
        Frame.n += 1
        self.uid = Frame.n
        self.body = body
        self.env = env
        self.parent = parent
        self.caps = caps or {}
        self.crate = body['crate']


def enumkey(adt, adtn):
    return adt if VL.TypeInfo.adt and VL.TypeInfo.adt(adt) else adtn


for _n, _v in (('Result', ('Ok', 'Err')), ('ControlFlow', ('Continue', 'Break')), ('Ordering', ('Less', 'Equal', 'Greater')), ('Entry', ('Occupied', 'Vacant'))):
    ENUMS[_n] = frozenset(_v)

ORD = {n: mk('variant', 'Ordering', n) for n in ('Less', 'Equal', 'Greater')}


def has_ref(t, memo={}):
    r = memo.get(t)
    if r is None:
        r = t.op in ('ref', 'closure') or any(has_ref(c) for c in children(t.a))
        memo[t] = r
    return r


class Ev:
    MAXDEPTH = 60

    def __init__(self, facts):
        self.F = facts
        self.store = {}
        self.live = TRUE
        self.exits = []
        self.panics = []
        self.written = []
        self.frames = {}
        self.vty = {}
        self.depth = 0
        self.memo_static = {}
        self.unknown = {}
        self.visited = {}
        self.assumed = TRUE
        self.opaque = {}
        self.spied = {}
        self.flags = set()
        self.stack = []
        self.ncall = 0
        self.nloop = 0
        import models
        self.models = models

    # ------------------------------------------------------------ bookkeeping
    def note_unknown(self, what, sp=None):
        self.unknown.setdefault(what, sp)

    def unk(self, name, ty, *args):
        """an uninterpreted result of type ty"""
        return expand(ty, lambda s: mk('app', '?' + name, s, *args))

    def panic(self, cond, kind, sp):
        c = AND(self.live, cond)
        if c is not FALSE:
            self.panics.append(Panic(c, kind, sp, self.stack[-1] if self.stack else ''))

    def die(self, cond):
        """execution continues only when not cond"""
        self.live = AND(self.live, NOT(cond))

    def sub(self, cond, f):
        """run f under cond; returns (value, live relative to cond, store)"""
        saved, self.live = self.live, TRUE
        m, p = len(self.exits), len(self.panics)
        st = self.store
        self.store = dict(st)
        v = f()
        l, s2 = self.live, self.store
        self.store, self.live = st, saved
        base = AND(saved, cond)
        if base is not TRUE:
            for x in self.exits[m:]:
                x.cond = AND(base, x.cond)
            for x in self.panics[p:]:
                x.cond = AND(base, x.cond)
        return v, l, s2

    def merge(self, c, a, b):
        if a is b or c is TRUE:
            return a
        if c is FALSE:
            return b
        out = dict(b)
        for k, x in a.items():
            y = b.get(k)
            if y is None:
                out[k] = x
            elif y is not x:
                out[k] = gate(c, x, y)
        return out

    def ifelse(self, c, ft, ff):
        """value of if c then ft() else ff(), with effects joined"""
        if c is TRUE:
            return ft()
        if c is FALSE:
            return ff()
        v1, l1, s1 = self.sub(c, ft)
        v2, l2, s2 = self.sub(NOT(c), ff)
        base = self.live
        if l1 is FALSE and l2 is FALSE:
            self.live = FALSE
            return UNDEF
        if l1 is FALSE:
            self.store = s2
            self.live = AND(base, NOT(c), l2)
            return v2
        if l2 is FALSE:
            self.store = s1
            self.live = AND(base, c, l1)
            return v1
        self.store = self.merge(c, s1, s2)
        self.live = AND(base, ite(c, l1, l2))
        return gate(c, v1, v2)

    def take_exits(self, m, pred):
        out = [x for x in self.exits[m:] if pred(x)]
        self.exits[m:] = [x for x in self.exits[m:] if not pred(x)]
        return out

    def join_exits(self, xs, val):
        """control reaches this point also through exits xs"""
        for x in xs:
            if x.cond is FALSE:
                continue
            if self.live is FALSE:
                self.store, val, self.live = x.store, x.val, x.cond
                continue
            self.store = self.merge(x.cond, x.store, self.store)
            val = gate(x.cond, x.val, val)
            self.live = OR(self.live, x.cond)
        return val

    # ------------------------------------------------------------ types
    def ty(self, i):
        fr = self.fr
        return self.norm(tsubst(self.F.ty(fr.crate, i), fr.env))

    def norm(self, t):
        if isinstance(t, tuple) and t:
            if t[0] == 'alias':
                args = tuple(self.norm(x) for x in t[3:])
                tk = t[2].rsplit('::', 1)[0]
                if args:
                    r = self.F.assoc(tk, t[1], args[0])
                    if r is not None:
                        return self.norm(r)
                    if t[1] in ('Item', 'IntoIter', 'Output', 'Target'):
                        r = self.models.std_assoc(t[1], args)
                        if r is not None:
                            return self.norm(r)
                return t[:3] + args
            return tuple(self.norm(x) if isinstance(x, tuple) else x for x in t)
        return t

    def ety(self, e):
        return self.ty(e['ty'])

    # ------------------------------------------------------------ places
    def root(self, v, up):
        fr = self.fr
        if not up:
            return ('root', fr.uid, v)
        f = fr
        while f is not None:
            if v in f.caps:
                return f.caps[v]
            f = f.parent
            if f is not None and ('root', f.uid, v) in self.store:
                return ('root', f.uid, v)
        return ('root', fr.uid, v)

    def load(self, r):
        if r.op == 'gate':
            return gate(r.a[0], self.load(r.a[1]), self.load(r.a[2]))
        if r.op != 'ref':
            return r
        v = self.store.get(r.a[0])
        if v is None:
            return UNDEF
        for st in r.a[1]:
            v = self.step(v, st)
        return v

    def step(self, v, st):
        k = st[0]
        if v.op == 'ref' or (v.op == 'gate' and has_ref(v) and k != 'd'):
            v = self.load(v)
        if k == 'f':
            return field(v, st[1])
        if k == 'v':
            return payload(v, st[1], st[2])
        if k == 'i':
            return at(v, st[1])
        if k == 'k':
            return mget(v, st[1])
        if k == 'd':
            return self.load(v)
        raise Unsupported(k)

    def assign(self, r, val):
        if r is UNDEF:
            return
        if r.op == 'gate':
            c, a, b = r.a
            if a is UNDEF:
                return self.assign(b, val)
            if b is UNDEF:
                return self.assign(a, val)
            va, vb = self.load(a), self.load(b)
            self.assign(a, gate(c, val, va))
            # the two places may be the same: read the second one again
            vb = self.load(b)
            self.assign(b, gate(c, vb, val))
            return
        if r.op != 'ref':
            self.note_unknown('assign through ' + r.op)
            return
        root, path = r.a
        if not path:
            self.store[root] = val
            return
        old = self.store.get(root)
        if old is None:
            return
        self.store[root] = self.upd(old, path, 0, val)

    def upd(self, v, path, i, val):
        if i == len(path):
            return val
        st = path[i]
        k = st[0]
        if v.op == 'gate' and not isbool(v):
            if k == 'v':
                c, a, b = v.a
                fa = is_variant(a, st[1]) is FALSE
                fb = is_variant(b, st[1]) is FALSE
                return gate(c, a if fa else self.upd(a, path, i, val), b if fb else self.upd(b, path, i, val))
            return gate(v.a[0], self.upd(v.a[1], path, i, val), self.upd(v.a[2], path, i, val))
        if v is UNDEF:
            return UNDEF
        if k == 'f':
            if v.op in ('rec', 'tuple'):
                o = 1 if v.op == 'rec' else 0
                l = list(v.a)
                l[o + st[1]] = self.upd(l[o + st[1]], path, i + 1, val)
                return mk(v.op, *l)
            return mk('app', '?updf', v.a[1] if v.op in ('var', 'app') else ('obj', ('?',)), v, str(st[1]), self.upd(field(v, st[1]), path, i + 1, val))
        if k == 'v':
            if v.op == 'variant':
                if v.a[1] != st[1]:
                    return v
                l = list(v.a)
                l[2 + st[2]] = self.upd(l[2 + st[2]], path, i + 1, val)
                return mk('variant', *l)
            return mk('app', '?updv', ('obj', ('?',)), v, self.upd(payload(v, st[1], st[2]), path, i + 1, val))
        if k == 'i':
            return astore(v, st[1], self.upd(at(v, st[1]), path, i + 1, val))
        if k == 'k':
            return mset(v, st[1], mhas(v, st[1]), self.upd(mget(v, st[1]), path, i + 1, val))
        raise Unsupported(k)

    def extend(self, r, st):
        if r is UNDEF:
            return r
        if r.op == 'gate':
            return gate(r.a[0], self.extend(r.a[1], st), self.extend(r.a[2], st))
        if r.op == 'ref':
            return mk('ref', r.a[0], r.a[1] + (st,))
        return self.step(r, st)

    def isref(self, v):
        if v.op == 'ref':
            return True
        if v.op == 'gate':
            return (self.isref(v.a[1]) or v.a[1] is UNDEF) and (self.isref(v.a[2]) or v.a[2] is UNDEF)
        return False

    def target(self, r):
        """the place that a reference to a reference leads to"""
        while self.isref(r):
            v = self.load(r)
            if not self.isref(v):
                break
            r = v
        return r

    def tmp(self, val, ty=None):
        Frame.n += 1
        r = ('root', Frame.n, '$tmp')
        self.store[r] = val
        if ty is not None:
            self.vty[r] = ty
        return mk('ref', r, ())

    def place(self, i):
        """a reference to the place of expression i, or its value when it is not a place"""
        e = self.ex(i)
        k = e['k']
        if k in ('scope', 'use', 'never'):
            return self.place(e['e'])
        if k in ('var', 'upvar'):
            return mk('ref', self.root(e['v'], k == 'upvar'), ())
        if k == 'deref':
            p = self.place(e['e'])
            v = self.load(p) if self.isref(p) else p
            if self.isref(v):
                return v
            return p            # a shared reference or a box: its place holds the value itself
        if k == 'field':
            p = self.place(e['e'])
            return self.extend(p, ('f', e['i'])) if self.isref(p) else field(p, e['i'])
        if k == 'index':
            p = self.place(e['e'])
            ix = self.eval(e['i'])
            v = self.load(p) if self.isref(p) else p
            self.bounds_check(v, ix, e['sp'])
            return self.extend(p, ('i', ix)) if self.isref(p) else at(v, ix)
        return self.eval(i)

    def bounds_check(self, v, ix, sp):
        c = le(length(v), ix)
        if c is not FALSE:
            self.panic(c, 'oob', sp)

    def range_check(self, v, r, sp):
        a, b, incl = r.a
        n = length(v)
        end = n if b is UNDEF else add(b, ONE) if incl else b
        bad = [le(add(n, ONE), end)] if b is not UNDEF else []
        if a is not UNDEF and a is not ZERO:
            bad.append(le(add(end, ONE), a))
        for c in bad:
            if c is not FALSE:
                self.panic(c, 'oob', sp)

    def val(self, v):
        """the value behind a possible reference"""
        while v.op == 'ref' or (v.op == 'gate' and self.isref(v)):
            v = self.load(v)
        return v

    # ------------------------------------------------------------ expressions
    @property
    def fr(self):
        return self._fr

    def ex(self, i):
        return self._fr.body['exprs'][i]

    def eval(self, i):
        if self.live is FALSE:
            return UNDEF
        e = self.ex(i)
        return getattr(self, 'e_' + e['k'], self.e_other)(e)

    def e_other(self, e):
        self.note_unknown('expression ' + e['k'], e['sp'])
        return self.unk('expr_' + e['k'], self.ety(e))

    def e_scope(self, e):
        inner = self.ex(e['e'])
        labels = {e['scope']}
        while inner['k'] == 'scope':
            labels.add(inner['scope'])
            e = inner
            inner = self.ex(e['e'])
        if inner['k'] == 'loop':
            return self.loop(inner, labels)
        m = len(self.exits)
        if inner['k'] == 'block':
            labels.add(self.fr.body['blocks'][inner['b']]['scope'])
        v = self.eval(e['e'])
        if len(self.exits) > m:
            fr = self.fr.uid
            xs = self.take_exits(m, lambda x: x.kind == 'brk' and x.label[0] == fr and x.label[1] in labels)
            if xs:
                v = self.join_exits(xs, v)
        return v

    def e_use(self, e):
        return self.eval(e['e'])

    def e_never(self, e):
        self.eval(e['e'])
        return UNDEF

    def e_coerce(self, e):
        return self.eval(e['e'])

    def e_var(self, e):
        return self.store.get(self.root(e['v'], False), UNDEF)

    def e_upvar(self, e):
        return self.store.get(self.root(e['v'], True), UNDEF)

    def e_deref(self, e):
        p = self.place(e['e'])
        v = self.load(p) if self.isref(p) else p
        return self.val(v)

    def e_field(self, e):
        p = self.place(e['e'])
        if self.isref(p):
            return self.load(self.extend(p, ('f', e['i'])))
        return field(p, e['i'])

    def e_index(self, e):
        pl = self.place(e['e'])
        v = self.val(pl)
        ix = self.eval(e['i'])
        self.bounds_check(v, ix, e['sp'])
        return at(v, ix)

    def e_borrow(self, e):
        if e['m']:
            p = self.place(e['e'])
            if self.isref(p):
                return p
            return self.tmp(p, self.ety(self.ex(e['e'])))
        return self.val(self.eval(e['e']))

    e_rawborrow = e_borrow

    def e_if(self, e):
        c = self.cond(e['c'])
        if e['f'] is None:
            self.ifelse(c, lambda: self.eval(e['t']), lambda: UNIT)
            return UNIT
        return self.ifelse(c, lambda: self.eval(e['t']), lambda: self.eval(e['f']))

    def cond(self, i):
        return self.bool(self.eval(i))

    def bool(self, v):
        v = self.val(v)
        if v is UNDEF:
            return FALSE
        return v if isbool(v) else atom(v)

    def e_let(self, e):
        v = self.place(e['e'])
        c = self.match(e['pat'], v)
        return c

    def e_logic(self, e):
        a = self.cond(e['l'])
        b = []

        def right():
            b.append(self.cond(e['r']))
            return b[0]
        if e['op'] == 'And':
            r = self.ifelse(a, right, lambda: FALSE)
            q = within_abs(a, b[0]) if b else None
            return r if q is None else q
        r = self.ifelse(a, lambda: TRUE, right)
        q = within_abs(NOT(a), NOT(b[0])) if b else None
        return r if q is None else NOT(q)

    def e_lit(self, e):
        v = e['v']
        if 'float' in v or 'int' in v:
            t = v.get('float') if 'float' in v else v['int']
            c = Fraction(t.replace('_', '').replace('f64', '').replace('f32', '')) if isinstance(t, str) else Fraction(t)
            return const(-c if e['neg'] else c)
        if 'bool' in v:
            return TRUE if v['bool'] else FALSE
        if 'str' in v:
            return mk('str', v['str'])
        if 'char' in v:
            return mk('char', v['char'])
        if 'bytes' in v:
            return mk('list', *[const(b) for b in v['bytes']])
        return self.unk('lit', self.ety(e))

    def e_scalar(self, e):
        b = int(e['bits'])
        t = self.ety(e)
        return self.scalar(b, e['size'], t)

    def scalar(self, b, size, t):
        if t == 'bool':
            return TRUE if b else FALSE
        if t == 'f64':
            import struct
            f = struct.unpack('<d', struct.pack('<Q', b))[0]
            return fconst(f)
        if t == 'char':
            return mk('char', chr(b))
        if isinstance(t, str) and t.startswith('i') and b >= 1 << (8 * size - 1):
            b -= 1 << (8 * size)
        return const(b)

    def e_zst(self, e):
        return mk('fnval', self.ety(e))

    def e_tuple(self, e):
        return mk('tuple', *[self.eval(x) for x in e['a']])

    def e_array(self, e):
        return mk('list', *[self.eval(x) for x in e['a']])

    def e_repeat(self, e):
        x = self.eval(e['e'])
        n = e['n']
        n = n.get('v') if isinstance(n, dict) else None
        if n is None:
            return self.unk('repeat', self.ety(e), x)
        return repeat(x, const(n))

    def e_adt(self, e):
        fs = {f['i']: self.eval(f['e']) for f in e['fs']}
        base = self.val(self.eval(e['base'])) if e['base'] is not None else None
        vals = [fs[i] if i in fs else (field(base, i) if base is not None else UNDEF) for i in range(e['nf'])]
        return self.make_adt(e['adt'], e['adtn'], e['vn'], e['enum'], vals)

    def make_adt(self, adt, adtn, vn, enum, vals):
        if adtn in ('Range', 'RangeFrom', 'RangeTo', 'RangeFull', 'RangeInclusive', 'RangeToInclusive') and adt.startswith('core::'):
            if adtn == 'Range':
                return mk('rng', vals[0], vals[1], False)
            if adtn == 'RangeFrom':
                return mk('rng', vals[0], UNDEF, False)
            if adtn == 'RangeTo':
                return mk('rng', UNDEF, vals[0], False)
            if adtn == 'RangeToInclusive':
                return mk('rng', UNDEF, vals[0], True)
            if adtn == 'RangeFull':
                return mk('rng', UNDEF, UNDEF, False)
        if enum:
            return mk('variant', enumkey(adt, adtn), vn, *vals)
        return mk('rec', adt, *vals)

    def e_block(self, e):
        return self.block(e['b'])

    def block(self, bi):
        b = self.fr.body['blocks'][bi]
        for s in b['stmts']:
            if self.live is FALSE:
                return UNDEF
            st = self.fr.body['stmts'][s]
            if st['k'] == 'expr':
                self.eval(st['e'])
                continue
            if st['init'] is None:
                continue
            v = self.place(st['init']) if self.needs_place(st['pat']) else self.eval(st['init'])
            if self.live is FALSE:
                return UNDEF
            c = self.match(st['pat'], v)
            if st['else'] is not None:
                c = simp_bool(c)
                if c is not TRUE:
                    self.ifelse(c, lambda: UNIT, lambda: self.block(st['else']))
        if b['expr'] is not None:
            return self.eval(b['expr'])
        return UNIT

    def needs_place(self, p):
        if p['k'] == 'bind':
            return p['by'] == 'mut' or (p['sub'] is not None and self.needs_place(p['sub']))
        subs = []
        if isinstance(p.get('sub'), dict):
            subs = [p['sub']]
        elif isinstance(p.get('sub'), list):
            subs = [x['p'] for x in p['sub']]
        elif p['k'] == 'or':
            subs = p['a']
        elif p['k'] == 'slice':
            subs = p['prefix'] + p['suffix'] + ([p['slice']] if p['slice'] else [])
        return any(self.needs_place(x) for x in subs)

    def e_closure(self, e):
        caps = []
        for u in e['up']:
            x = self.ex(u)
            # a by-value capture takes a copy of the variable
            mode = 'val'
            y = x
            while y['k'] in ('scope', 'use'):
                y = self.ex(y['e'])
            if y['k'] == 'borrow':
                mode = 'ref'
            while y['k'] in ('scope', 'use', 'borrow', 'field', 'deref', 'rawborrow'):
                y = self.ex(y['e'])
            if y['k'] in ('var', 'upvar') and mode == 'val':
                r = self.root(y['v'], y['k'] == 'upvar')
                if r in self.store:
                    caps.append((y['v'], self.store[r]))
        return mk('closure', e['def'], self.fr.uid, tuple(caps))

    def e_const(self, e):
        f = e['f']
        k = f['k']
        c = self.models.const_value(k, f['n'])
        if c is not None:
            return c
        env = dict(zip(f['g'], [self.ty(x) if isinstance(x, int) else ('const', str(x)) for x in e['a']]))
        if f.get('in_trait'):
            i, m = self.F.find_impl(f['trait'], env.get('Self'))
            if i and f['n'] in i['fns'] and i['fns'][f['n']] in self.F.bodies:
                k, env = i['fns'][f['n']], m
        if k in self.F.bodies:
            return self.const_body(k, env)
        self.note_unknown('constant ' + k, e['sp'])
        return self.unk('const_' + k, self.ety(e))

    def const_body(self, k, env):
        key = (k, tuple(sorted(env.items(), key=str)))
        r = self.memo_static.get(key)
        if r is None:
            self.memo_static[key] = UNDEF
            r = self.memo_static[key] = self.isolated(lambda: self.call_body(self.F.bodies[k], [], env))
        return r

    def isolated(self, f):
        """evaluate something that depends on no local state and no assumption"""
        sv = (self.live, self.exits, self.panics, self.store)
        CTX.append(Ctx())
        self.live, self.exits, self.panics = TRUE, [], []
        self.store = {}
        try:
            return f()
        finally:
            CTX.pop()
            st = self.store
            self.live, self.exits, self.panics, self.store = sv

    def e_static(self, e):
        k = e['def']
        if e.get('mut'):
            self.note_unknown('static mut ' + k, e['sp'])
            return self.unk('staticmut_' + k, self.ety(e))
        if k in self.F.bodies:
            return self.const_body(k, {})
        return self.unk('static_' + k, self.ety(e))

    def e_constblock(self, e):
        if e['def'] in self.F.bodies:
            return self.call_body(self.F.bodies[e['def']], [], self.fr.env)
        return self.e_other(e)

    def e_return(self, e):
        v = self.eval(e['e']) if e['e'] is not None else UNIT
        if self.live is not FALSE:
            self.exits.append(Exit('ret', None, self.live, v, dict(self.store)))
        self.live = FALSE
        return UNDEF

    def e_break(self, e):
        v = self.eval(e['e']) if e['e'] is not None else UNIT
        if self.live is not FALSE:
            self.exits.append(Exit('brk', (self.fr.uid, e['label']), self.live, v, dict(self.store)))
        self.live = FALSE
        return UNDEF

    def e_continue(self, e):
        if self.live is not FALSE:
            self.exits.append(Exit('cnt', (self.fr.uid, e['label']), self.live, UNIT, dict(self.store)))
        self.live = FALSE
        return UNDEF

    def e_assign(self, e):
        v = self.eval(e['r'])
        p = self.place(e['l'])
        if self.live is not FALSE:
            self.assign(p, v)
        return UNIT

    def e_assignop(self, e):
        v = self.val(self.eval(e['r']))
        p = self.place(e['l'])
        if self.live is FALSE:
            return UNIT
        old = self.val(p)
        op = e['op'][:-6] if e['op'].endswith('Assign') else e['op']
        self.assign(p, self.binop(op, old, v, self.ety(self.ex(e['l'])), e['sp']))
        return UNIT

    def e_bin(self, e):
        a = self.val(self.eval(e['l']))
        b = self.val(self.eval(e['r']))
        return self.binop(e['op'], a, b, self.ety(self.ex(e['l'])), e['sp'])

    def binop(self, op, a, b, ty, sp):
        r = self.binop0(op, a, b, ty, sp)
        if op in ('Add', 'Sub', 'Mul') and 'ints' in self.flags and ty in self.INTS and isnum(r):
            w = self.INTS[ty]
            lo, hi = (0, 2 ** w - 1) if ty[0] == 'u' else (-2 ** (w - 1), 2 ** (w - 1) - 1)
            l, h = bounds(r)
            if h is None or h > hi:
                self.panic(lt(const(hi), r), 'overflow', sp)
            if (l is None or l < lo) and ty[0] != 'u':
                self.panic(lt(r, const(lo)), 'overflow', sp)
        return r

    def binop0(self, op, a, b, ty, sp):
        if a is UNDEF or b is UNDEF:
            return UNDEF
        isint = isinstance(ty, str) and ty[0] in 'iu'
        if isnum(a) != isnum(b) or (sort_of(ty) in ('f', 'i', 'u') and not isnum(a)):
            # parts of values whose type the graph does not carry
            so = sort_of(ty) if sort_of(ty) in ('f', 'i', 'u') else (a if isnum(a) else b).a[1] if (a if isnum(a) else b).op in ('var', 'app') else 'f'
            a, b = [mk('app', x.a[0], so, *x.a[2:]) if x.op == 'app' and x.a[1] == ('obj', ('?',)) else x for x in (a, b)]
        if op == 'Add':
            if isnum(a) and isnum(b):
                return add(a, b)
        elif op == 'Sub':
            if isnum(a) and isnum(b):
                if isint and ty[0] == 'u':
                    self.panic(lt(a, b), 'overflow', sp)
                return sub(a, b)
        elif op == 'Mul':
            if isnum(a) and isnum(b):
                return mul(a, b)
        elif op == 'Div':
            if isint:
                if isconst(b) is None or isconst(b) == 0:
                    self.panic(eq0(b), 'div0', sp)
                return idiv(a, b)
            if isnum(a) and isnum(b):
                return div(a, b)
        elif op == 'Rem':
            if isint:
                if isconst(b) is None or isconst(b) == 0:
                    self.panic(eq0(b), 'div0', sp)
                return imod(a, b)
            return mk('app', '?fmod', 'f', a, b)
        elif op == 'Eq':
            return veq(a, b)
        elif op == 'Ne':
            return NOT(veq(a, b))
        elif op == 'Lt':
            return vlt(a, b, True)
        elif op == 'Le':
            return vlt(a, b, False)
        elif op == 'Gt':
            return vlt(b, a, True)
        elif op == 'Ge':
            return vlt(b, a, False)
        elif op in ('BitAnd', 'BitOr', 'BitXor') and isbool(a) and isbool(b):
            return {'BitAnd': AND, 'BitOr': OR, 'BitXor': XOR}[op](a, b)
        elif op == 'Shl' and isconst(a) is not None and isconst(b) is not None:
            return const(int(isconst(a)) << int(isconst(b)))
        elif op == 'Shl' and isconst(b) is not None:
            return scale(a, 2 ** int(isconst(b)))
        elif op == 'BitAnd' and isconst(b) is not None and (int(isconst(b)) + 1) & int(isconst(b)) == 0:
            m = mk('app', 'imod', 'i', a, add(b, ONE))
            if nonneg(a):
                return m
            return mk('app', 'emod', 'i', a, add(b, ONE)) if eq0(m) is TRUE or True else m
        self.note_unknown('operator ' + op, sp)
        return mk('app', '?' + op, sort_of(ty) if op not in ('Eq',) else 'b', a, b)

    def e_un(self, e):
        a = self.val(self.eval(e['e']))
        if e['op'] == 'Neg':
            return neg(a) if isnum(a) or a is UNDEF else mk('app', '?neg', 'f', a)
        if a is UNDEF:
            return UNDEF
        if isbool(a):
            return NOT(a)
        if self.ety(e) in ('i8', 'i16', 'i32', 'i64', 'i128', 'isize') and isnum(a):
            return sub(const(-1), a)
        return mk('app', '?not', sort_of(self.ety(e)), a)

    INTS = {'i8': 8, 'i16': 16, 'i32': 32, 'i64': 64, 'i128': 128, 'isize': 64, 'u8': 8, 'u16': 16, 'u32': 32, 'u64': 64, 'u128': 128, 'usize': 64}

    def e_cast(self, e):
        v = self.val(self.eval(e['e']))
        st, dt = self.ety(self.ex(e['e'])), self.ety(e)
        return self.cast(v, st, dt, e['sp'])

    def cast(self, v, st, dt, sp=None):
        if v is UNDEF or st == dt:
            return v
        I = self.INTS
        if st == 'bool' and dt in I:
            return gate(self.bool(v), ONE, ZERO)
        if st in I and dt == 'f64':
            return v
        if st == 'f32' and dt == 'f64':
            return v
        if dt == 'f32':
            return mk('app', 'f32', 'f', v) if isconst(v) is None else v
        if st == 'f64' and dt in I:
            r = rnd('trunc', v)
            return self.narrow(r, 'f64', dt)
        if st in I and dt in I:
            return self.narrow(v, st, dt)
        if isinstance(st, tuple) and st[0] == 'adt' and dt in I:
            return self.discr(v, st)
        self.note_unknown(f'cast {st} as {dt}', sp)
        return self.unk('cast', dt, v)

    def discr(self, v, st):
        a = self.F.adts.get(st[1])
        if v.op == 'gate':
            return gate(v.a[0], self.discr(v.a[1], st), self.discr(v.a[2], st))
        if a and v.op == 'variant':
            for i, x in enumerate(a['variants']):
                if x['n'] == v.a[1]:
                    return const(i)
        return mk('app', 'discr', 'u', v)

    def narrow(self, v, st, dt):
        """integer conversion: the identity when the value fits (32 bits and more are taken to be wide enough)"""
        I = self.INTS
        w = I[dt]
        lo, hi = bounds(v)
        if dt[0] == 'u':
            if lo is None or lo < 0:
                if v.op == 'gate':
                    return gate(v.a[0], self.narrow(v.a[1], st, dt), self.narrow(v.a[2], st, dt))
                if st == 'f64':
                    if is_nonneg_by_type(v):
                        pass
                    else:
                        return satur(v)
                elif isinstance(st, str) and st[0] == 'i':
                    return mk('app', 'wrapu', 'u', v)
        if w < 32:
            if lo is None or hi is None or hi >= 2 ** (w - (dt[0] == 'i')) or lo < -(2 ** (w - 1)):
                return mk('app', 'wrap_' + dt, 'u' if dt[0] == 'u' else 'i', v)
        return v

    # ------------------------------------------------------------ patterns
    def match(self, p, v):
        """bind the variables of pattern p to (parts of) v; returns the condition under which it matches"""
        k = p['k']
        if k in ('wild', 'never'):
            return TRUE
        if k == 'bind':
            c = TRUE
            if p['sub'] is not None:
                c = self.match(p['sub'], v)
            r = ('root', self.fr.uid, p['v'])
            if p['by'] == 'mut':
                self.store[r] = v if self.isref(v) else self.tmp(v)
            elif p['by'] == 'ref':
                self.store[r] = self.val(v)
            else:
                t = self.ty(p['ty'])
                self.vty[r] = t
                if isinstance(t, tuple) and t[0] == 'ref' and t[1]:
                    # a mutable reference stored in the matched place
                    self.store[r] = self.refval(v)
                else:
                    self.store[r] = self.val(v)
            return c
        if k == 'variant':
            vv = self.val(v)
            c = is_variant(vv, p['vn'])
            for s in p['sub']:
                if self.isref(v):
                    sv = self.extend(self.deep(v), ('v', p['vn'], s['f']))
                else:
                    sv = payload(vv, p['vn'], s['f'])
                c = AND(c, self.match(s['p'], sv))
            return c
        if k == 'leaf':
            c = TRUE
            for s in p['sub']:
                sv = self.extend(self.deep(v), ('f', s['f'])) if self.isref(v) else field(v, s['f'])
                c = AND(c, self.match(s['p'], sv))
            return c
        if k in ('deref', 'derefpat'):
            if self.isref(v):
                x = self.load(v)
                if self.isref(x):
                    return self.match(p['sub'], x)
            return self.match(p['sub'], v)
        if k == 'const':
            return veq(self.val(v), self.pconst(p['v']))
        if k == 'range':
            vv = self.val(v)
            c = TRUE
            if p['lo'] is not None:
                c = AND(c, vlt(self.pconst(p['lo']), vv, False))
            if p['hi'] is not None:
                c = AND(c, vlt(vv, self.pconst(p['hi']), not p['incl']))
            return c
        if k == 'or':
            # the alternatives bind the same variables (under different ids or the same)
            conds, stores = [], []
            base = dict(self.store)
            for a in p['a']:
                self.store = dict(base)
                conds.append(self.match(a, v))
                stores.append(self.store)
            st = stores[-1]
            for c, s in reversed(list(zip(conds[:-1], stores[:-1]))):
                st = self.merge(c, s, st)
            self.store = st
            return OR(*conds)
        if k == 'slice':
            vv = self.val(v)
            n = length(vv)
            np, ns = len(p['prefix']), len(p['suffix'])
            c = num_eq(n, const(np + ns)) if p['slice'] is None else le(const(np + ns), n)
            for i, x in enumerate(p['prefix']):
                c = AND(c, self.match(x, self.extend(v, ('i', const(i))) if self.isref(v) else at(vv, const(i))))
            for i, x in enumerate(p['suffix']):
                ix = sub(n, const(ns - i))
                c = AND(c, self.match(x, self.extend(v, ('i', ix)) if self.isref(v) else at(vv, ix)))
            if p['slice'] is not None:
                c = AND(c, self.match(p['slice'], take_skip(vv, const(np), sub(n, const(np + ns)))))
            return c
        self.note_unknown('pattern ' + k)
        return atom(fresh('b', '?pat'))

    def deep(self, v):
        """follow references stored in references to the place of the value"""
        while True:
            x = self.load(v)
            if self.isref(x):
                v = x
            else:
                return v

    def refval(self, v):
        if self.isref(v):
            x = self.load(v)
            if self.isref(x):
                return x
        return v

    def pconst(self, c):
        if 'str' in c:
            return mk('str', c['str'])
        if 'bits' in c:
            return self.scalar(int(c['bits']), c['size'], self.ty(c['ty']))
        self.note_unknown('pattern constant')
        return mk('app', '?pconst', 'i', mk('str', c.get('dbg', '')))

    def e_match(self, e):
        if e['src'] == 'for':
            r = self.for_loop(e)
            if r is not None:
                return r
        v = self.place(e['e'])
        if self.live is FALSE:
            return UNDEF
        arms = [self.fr.body['arms'][a] for a in e['arms']]
        return self.arms(arms, v)

    def arms(self, arms, v):
        if not arms:
            self.live = FALSE
            return UNDEF
        a = arms[0]
        c = self.match(a['pat'], v)
        if len(arms) == 1 and a['guard'] is None:
            return self.eval(a['body'])
        c = simp_bool(c)
        if a['guard'] is not None:
            c = self.ifelse(c, lambda: self.cond(a['guard']), lambda: FALSE)
        return self.ifelse(c, lambda: self.eval(a['body']), lambda: self.arms(arms[1:], v))

    # ------------------------------------------------------------ loops
    def strip(self, i):
        e = self.ex(i)
        while e['k'] in ('scope', 'use'):
            e = self.ex(e['e'])
        return e

    def for_loop(self, e):
        """for pat in iter { body } -> None if the desugaring is not recognised"""
        B = self.fr.body
        it = self.strip(e['e'])
        if it['k'] != 'call' or len(e['arms']) != 1:
            return None
        arm = B['arms'][e['arms'][0]]
        lp = self.ex(arm['body'])
        labels = set()
        while lp['k'] in ('scope', 'use'):
            if lp['k'] == 'scope':
                labels.add(lp['scope'])
            lp = self.ex(lp['e'])
        if lp['k'] != 'loop':
            return None
        blk = self.strip(lp['e'])
        if blk['k'] != 'block':
            return None
        b = B['blocks'][blk['b']]
        mi = b['expr'] if b['expr'] is not None else (B['stmts'][b['stmts'][-1]].get('e') if b['stmts'] else None)
        if mi is None:
            return None
        m = self.strip(mi)
        if m['k'] != 'match' or len(m['arms']) != 2:
            return None
        some_arm = None
        for a in m['arms']:
            p = B['arms'][a]['pat']
            if p['k'] == 'variant' and p['vn'] == 'Some':
                some_arm = B['arms'][a]
        if some_arm is None:
            return None
        pat = some_arm['pat']['sub'][0]['p'] if some_arm['pat']['sub'] else {'k': 'wild'}
        s = self.eval(e['e'])
        if self.live is FALSE:
            return UNDEF
        s = self.models.to_seq(self, s)
        lab = {(self.fr.uid, l) for l in labels}

        def run(x):
            c = self.match(pat, x)
            self.eval(some_arm['body'])
        import loops
        loops.iterate(self, s, run, lab, e['sp'])
        return UNIT

    def loop(self, e, labels):
        import loops
        lab = {(self.fr.uid, l) for l in labels}
        return loops.forever(self, lambda: self.eval(e['e']), lab, e['sp'])

    def e_loop(self, e):
        return self.loop(e, set())

    # ------------------------------------------------------------ calls
    def e_call(self, e):
        fe = self.strip(e['f'])
        args = []
        if fe['k'] == 'zst':
            fty = self.ety(fe)
        else:
            f = self.val(self.eval(e['f']))
            args = [self.eval(a) for a in e['a']]
            if self.live is FALSE:
                return UNDEF
            return self.call_value(f, args, e['sp'], self.ety(e))
        if fty[0] == 'fn' and self.F.callees[fty[1]]['n'] in ('write_box_via_move',):
            return self.eval(e['a'][1])
        args = [self.eval(a) for a in e['a']]
        if self.live is FALSE:
            return UNDEF
        return self.call_fn(fty, args, e['sp'], self.ety(e), [self.ety(self.ex(a)) for a in e['a']])

    def call_value(self, f, args, sp, rty=None):
        """call a closure or function value"""
        f = self.val(f)
        if f.op == 'gate':
            return self.ifelse(f.a[0], lambda: self.call_value(f.a[1], args, sp, rty), lambda: self.call_value(f.a[2], args, sp, rty))
        if f.op == 'closure':
            b = self.F.bodies[f.a[0]]
            par = self.frames.get(f.a[1])
            fr = Frame(b, par.env if par else {}, par)
            caps = {}
            for v, x in f.a[2]:
                r = ('root', fr.uid, 'cap:' + v)
                self.store[r] = x
                caps[v] = r
            fr.caps = caps
            if len(b['params']) == len(args) + 1:
                args = [UNIT] + list(args)      # the closure itself
            return self.run_frame(fr, args)
        if f.op == 'fnval':
            return self.call_fn(f.a[0], args, sp, rty, None)
        if f.op == 'var' and isinstance(f.a[1], tuple) and f.a[1][0] == 'obj':
            # a function parameter: an arbitrary function of its arguments
            return mk('app', 'apply', 'f', f, *[self.val(a) for a in args])
        if f is UNDEF:
            return UNDEF
        self.note_unknown('call of ' + f.op, sp)
        return self.unk('callv', rty or ('obj', '?'), f, *[self.val(a) for a in args])

    def call_fn(self, fty, args, sp, rty, atys):
        c = self.F.callees.get(fty[1])
        if c is None:
            self.note_unknown('callee ' + str(fty[1]), sp)
            return self.unk('fn', rty, *map(self.val, args))
        env = dict(zip(c['g'], fty[2:]))
        self.ncall += 1
        # constructors
        if 'ctor_adt' in c:
            return self.make_adt(c['ctor_adt'], c['ctor_adt_name'], c.get('ctor_variant'), 'ctor_variant' in c, args)
        k = c['k']
        if k in self.opaque:
            return self.opaque[k](self, args, rty, sp)
        if self.spied and c.get('cr') == 'financelib':
            path = '::'.join(x for x in k.split('::') if x[0] != '{')
            for n, f in self.spied.items():
                if path.endswith('::' + n):
                    return f(self, args, rty, sp)
        if c.get('in_trait'):
            st = env.get('Self')
            i, m = self.F.find_impl(c['trait'], st, [env.get(g) for g in c['g']])
            if i is not None and not i.get('derived'):
                ik = i['fns'].get(c['n'])
                if ik and ik in self.F.bodies and ik != k:
                    b = self.F.bodies[ik]
                    env2 = dict(m)
                    own = [g for g in b['g'] if g not in i['g']]
                    cown = c['g'][len(c['g']) - len(own):] if own else []
                    for g, cg in zip(own, cown):
                        env2[g] = env.get(cg)
                    return self.call_body(b, args, env2)
            if k in self.F.bodies:
                return self.call_body(self.F.bodies[k], args, env)
        elif k in self.F.bodies:
            b = self.F.bodies[k]
            if not b.get('derived'):
                return self.call_body(b, args, env)
        return self.models.call(self, c, env, args, sp, rty, atys)

    def call_body(self, b, args, env):
        return self.run_frame(Frame(b, env), args)

    def run_frame(self, fr, args):
        if self.depth > self.MAXDEPTH:
            self.note_unknown('recursion in ' + fr.body['k'])
            return self.unk('rec_' + fr.body['k'], self.norm(tsubst(self.F.ty(fr.crate, fr.body['ret']), fr.env)), *[self.val(a) for a in args])
        self.frames[fr.uid] = fr
        saved = getattr(self, '_fr', None)
        self._fr = fr
        self.depth += 1
        self.visited[fr.body['k']] = self.visited.get(fr.body['k'], 0) + 1
        self.stack.append(fr.body['k'])
        try:
            def body():
                m = len(self.exits)
                for p, a in zip(fr.body['params'], args):
                    if p['pat'] is not None:
                        t = self.F.ty(fr.body['crate'], p['ty'])
                        if t[0] == 'ref' and t[1] is True and not self.isref(a) and a is not UNDEF:
                            self.note_unknown('assign through a copy of ' + a.op)
                        self.match(p['pat'], a)
                v = self.eval(fr.body['root'])
                xs = self.take_exits(m, lambda x: x.kind == 'ret')
                return self.join_exits(xs, v)
            base = self.live
            v, l, st = self.sub(TRUE, body)
            self.store = st
            self.live = AND(base, l)
            if self.live is FALSE:
                return UNDEF
            if not has_ref(v) or True:
                u = fr.uid
                esc = escapes(v, u)
                if not esc:
                    for k in [k for k in self.store if k[1] == u]:
                        # a local may still be referenced from other places
                        if not any(has_ref(x) and escapes(x, u) for kk, x in self.store.items() if kk[1] != u and has_ref(x)):
                            del self.store[k]
            return v
        finally:
            self._fr = saved
            self.depth -= 1
            self.stack.pop()


def escapes(v, uid, memo=None):
    if not has_ref(v):
        return False
    if v.op == 'ref' and v.a[0][1] == uid:
        return True
    if v.op == 'closure':
        return True
    return any(escapes(c, uid) for c in children(v.a))


def is_nonneg_by_type(v):
    return False


def satur(v):
    """saturating conversion of a possibly negative number to an unsigned one"""
    return gate(lt0(v), ZERO, v)


def fconst(f):
    import math
    if math.isnan(f):
        return NAN
    if math.isinf(f):
        return INF if f > 0 else neg(INF)
    return const(Fraction(repr(f)))


def repeat(x, n):
    v = fresh('u', 'i')
    return mkseq(v, mk('range', n), TRUE, x)
