"""Loop summaries: the value of everything a loop changes, in closed form where the update has one (sums, products, affine
recurrences, extremes, quantifiers, pointwise arrays and maps, appended sequences), otherwise as a canonical loop node."""
from fractions import Fraction
from terms import *
import terms as TM
from values import *
import values as VL


def repeat(x, n):
    v = fresh('u', 'i')
    return mkseq(v, mk('range', n), TRUE, x)


# ---------------------------------------------------------------- running code under a bound variable
def bound(ev, v, src, g, f):
    """run f for an arbitrary v of src with g; returns (value, whether it changed nothing)"""
    p = len(ev.panics)
    saved = ev.live
    ev.live = TRUE
    before = ev.store
    with range_facts(v, src):
        r, l, st = ev.sub(g, f)
    for x in ev.panics[p:]:
        x.cond = AND(saved, wrap(v, src, x.cond))
    ev.live = saved
    if l is not TRUE:
        ev.live = AND(saved, NOT(wrap(v, src, AND(g, NOT(l)))))
    pure = all(st.get(k) is x for k, x in before.items())
    for k, x in st.items():
        if k not in ev.store:
            ev.store[k] = x
    return r, pure


def wrap(v, src, c):
    return exists(v, src, c)


# ---------------------------------------------------------------- havoc
def havoc_like(x, base, ty=None):
    """an unconstrained value of the shape of x"""
    if ty is not None:
        return expand(ty, base)
    if x is UNDEF:
        return UNDEF
    if isbool(x):
        return atom(base('b'))
    if isnum(x):
        return base('i' if is_int(x) else 'f')
    if x.op == 'tuple':
        return mk('tuple', *[havoc_like(y, base) for y in x.a])
    if x.op == 'rec':
        return mk('rec', x.a[0], *[havoc_like(y, base) for y in x.a[1:]])
    if x.op in ('mempty', 'mst', 'mstore', 'mfun', 'mext'):
        return base(('map', keyty(x), valty(x)))
    if x.op in ('list', 'glist', 'seq', 'cat', 'astore', 'recarr'):
        ety = seq_elem_ty(x)
        s = ('vec', ety)
        return as_seq(base(s)) if ety is not None else base(s)
    if x.op in ('str', 'scat', 'fmtstr', 'sjoin'):
        return base('s')
    if x.op in ('var', 'app'):
        return base(x.a[1]) if x.a[1] != 'b' else atom(base('b'))
    if x.op == 'variant':
        if VL.TypeInfo.adt and VL.TypeInfo.adt(x.a[0]) or x.a[0] in ENUMS:
            if len(x.a) == 2 and x.a[0] != 'Option':
                return base(('enum', x.a[0]))
    if x.op == 'gate':
        return havoc_like(x.a[1] if x.a[1] is not UNDEF else x.a[2], base)
    return base(('obj', ('?',)))


def seq_elem_ty(x):
    return elem_ty(x)


def step_ty(ev, ty, st):
    if ty is None:
        return None
    while isinstance(ty, tuple) and ty and ty[0] == 'ref':
        ty = ty[2]
    if st[0] == 'k':
        return ty[4] if isinstance(ty, tuple) and ty[0] == 'adt' and ty[2] in ('HashMap', 'BTreeMap') else None
    if st[0] == 'f' and isinstance(ty, tuple):
        if ty[0] == 'tuple':
            return ty[1 + st[1]] if len(ty) > 1 + st[1] else None
        if ty[0] == 'adt':
            a = VL.TypeInfo.adt(ty[1])
            if a and a['kind'] == 'struct' and st[1] < len(a['variants'][0]['fields']):
                return tsubst(a['variants'][0]['fields'][st[1]]['ty'], dict(zip(a['g'], ty[3:])))
    return None


OKTY = ('f64', 'bool', 'usize', 'i32', 'i64', 'u32', 'u64', 'u8', 'isize', 'str')


def known_ty(t):
    while isinstance(t, tuple) and t and t[0] == 'ref':
        if t[1]:
            return None
        t = t[2]
    if isinstance(t, str):
        return t if t in OKTY else None
    if t is None:
        return None
    if t[0] in ('param', 'alias', 'closure', 'fn', 'dyn'):
        return None
    if t[0] == 'adt':
        if t[2] in ('NaiveDate', 'TimeDelta', 'String'):
            return t
        if t[2] in ('HashMap', 'BTreeMap'):
            return t if known_ty(t[3]) and known_ty(t[4]) else None
        if t[2] in ('HashSet', 'BTreeSet', 'Vec', 'Option', 'Box'):
            return t if known_ty(t[3]) else None
        return t if VL.TypeInfo.adt and VL.TypeInfo.adt(t[1]) else None
    if t[0] == 'tuple':
        return t if all(known_ty(x) for x in t[1:]) else None
    if t[0] in ('slice', 'array'):
        return t if known_ty(t[1]) else None
    return None


class Leaf:
    __slots__ = ('root', 'path', 'ty', 'init', 'h', 'sym', 'next', 'F', 'final', 'solved', 'point')

    def __init__(self, root, path, ty):
        self.root, self.path, self.ty = root, path, ty
        self.F = self.final = None
        self.point = None       # (map symbol, initial map, key visited): other keys are not touched in this iteration
        self.solved = False


def get_path(v, path):
    for st in path:
        v = mget(v, st[1]) if st[0] == 'k' else field(v, st[1])
    return v


def set_path(v, path, x):
    if not path:
        return x
    i = path[0][1]
    if path[0][0] == 'k':
        return mset(v, i, mhas(v, i), set_path(mget(v, i), path[1:], x))
    if v.op == 'rec':
        l = list(v.a)
        l[1 + i] = set_path(l[1 + i], path[1:], x)
        return mk('rec', *l)
    l = list(v.a)
    l[i] = set_path(l[i], path[1:], x)
    return mk('tuple', *l)


def diff(a, b, path, out, fixed=None):
    """paths where values differ, through records and tuples, and through an entry of a map if its key is fixed"""
    if a is b:
        return
    if a.op == b.op == 'rec' and a.a[0] == b.a[0]:
        for i, (x, y) in enumerate(zip(a.a[1:], b.a[1:])):
            diff(x, y, path + (('f', i),), out, fixed)
        return
    if a.op == b.op == 'tuple' and len(a.a) == len(b.a) and a.a:
        for i, (x, y) in enumerate(zip(a.a, b.a)):
            diff(x, y, path + (('f', i),), out, fixed)
        return
    if fixed and b.op == 'mstore' and fixed(b.a[1]):
        k = b.a[1]
        if (b.a[0] is a or a.op == 'mstore' and a.a[1] is k and a.a[0] is b.a[0]) and atom_of(b.a[2]) is atom_of(mhas(a, k)):
            diff(mget(a, k), b.a[3], path + (('k', k),), out, fixed)
            return
    out.append(path)


def atom_of(p):
    return p if isbool(p) else atom(p)


# ---------------------------------------------------------------- for loops
def iterate(ev, s, run, labels, sp):
    m = len(ev.exits)
    if ev.live is FALSE:
        return
    parts(ev, s, run, labels, sp)
    xs = ev.take_exits(m, lambda x: x.kind == 'brk' and x.label in labels)
    if xs:
        ev.join_exits(xs, UNIT)


def once(ev, e, run, labels):
    m = len(ev.exits)
    run(e)
    xs = ev.take_exits(m, lambda x: x.kind == 'cnt' and x.label in labels)
    if xs:
        ev.join_exits(xs, UNIT)


def const_run(s):
    """start if s is a list of consecutive integers"""
    k = isconst(s.a[0])
    if k is None or k.denominator != 1:
        return None
    for i, e in enumerate(s.a):
        if isconst(e) != k + i:
            return None
    return const(k)


def parts(ev, s, run, labels, sp):
    if ev.live is FALSE:
        return
    if s.op == 'list':
        k = const_run(s) if len(s.a) > 12 else None
        if k is not None:
            v = fresh('u', 'i')
            symbolic(ev, v, mk('range', const(len(s.a))), TRUE, add(k, v), run, labels, sp)
            return
        for e in s.a:
            if ev.live is FALSE:
                return
            once(ev, e, run, labels)
    elif s.op == 'glist':
        for g, e in s.a[0]:
            if ev.live is FALSE:
                return
            ev.ifelse(g, lambda: (once(ev, e, run, labels), UNIT)[1], lambda: UNIT)
    elif s.op == 'cat':
        for p in s.a:
            parts(ev, p, run, labels, sp)
    elif s.op == 'gate' and not ev.isref(s):
        c, a, b = s.a
        ev.ifelse(c, lambda: (parts(ev, a, run, labels, sp), UNIT)[1], lambda: (parts(ev, b, run, labels, sp), UNIT)[1])
    elif s.op == 'seq':
        v, (src, g, e) = open_(s)
        symbolic(ev, v, src, g, e, run, labels, sp)
    elif s.op == 'flat':
        v, (src, g, inner) = open_(s)
        symbolic(ev, v, src, g, v, lambda x: parts(ev, subst(inner, {v: x}), run, labels, sp), labels, sp)
    elif s.op in ('astore', 'recarr') or (s.op in ('var', 'app') and not str(s.a[0]).startswith('?')):
        parts(ev, as_seq(s), run, labels, sp)
    elif s.op == 'inf_range':
        c = ev.tmp(s.a[0], 'usize')

        def body():
            i = ev.load(c)
            once(ev, i, run, labels)
            if ev.live is not FALSE:
                ev.assign(c, add(ev.load(c), ONE))
            return UNIT
        forever(ev, body, labels, sp)
    elif s is UNDEF:
        return
    else:
        ev.note_unknown('loop over ' + s.op + ' ' + str(s.a[0] if s.op == 'app' else ''), sp)
        v = fresh('u', 'i')
        n = mk('app', '?count', 'u', s)
        symbolic(ev, v, mk('range', n), TRUE, mk('app', '?item', ('obj', ('?',)), s, v), run, labels, sp)


def reach(ev, v, src, g, run, labels, fix=None):
    """the loop body for an arbitrary state at the start of iteration v: modified leaves, their next values, exits"""
    entry = dict(ev.store)
    leaves = {}
    asint = {}
    for attempt in range(40):
        m, p = len(ev.exits), len(ev.panics)
        unk0 = dict(ev.unknown)
        store = dict(entry)
        for key, lf in leaves.items():
            store[lf.root] = set_path(store[lf.root], lf.path, lf.h)
        if fix:
            for r, x in fix.items():
                store[r] = x
        head = dict(store)
        saved_live = ev.live
        ev.store = store
        ev.live = TRUE
        with range_facts(v, src):
            def go():
                run()
                return UNIT
            _, l, st = ev.sub(g, go)
        cn = ev.take_exits(m, lambda x: x.kind == 'cnt' and x.label in labels)
        # conditions of exits are relative to g; join continues
        ev.live = AND(g, l)
        ev.store = st
        if cn:
            ev.join_exits(cn, UNIT)
        st, l = ev.store, ev.live
        ev.store, ev.live = entry, saved_live
        exits = ev.exits[m:]
        del ev.exits[m:]
        panics = ev.panics[p:]
        del ev.panics[p:]
        grow = False
        if l is not FALSE:
            own = {s_ for lf in leaves.values() for s_ in lf.sym} | {v}
            for r in entry:
                if fix and r in fix:
                    continue
                a, b = head.get(r), st.get(r)
                if b is None or a is b:
                    continue
                out = []
                diff(a, b, (), out, lambda k: k.fv.isdisjoint(own))
                for path in out:
                    key = (r, path)
                    if any(k[0] == r and k[1] == path[:len(k[1])] for k in leaves):
                        continue
                    for k in [k for k in leaves if k[0] == r and k[1][:len(path)] == path]:
                        del leaves[k]
                    ty = ev.vty.get(r)
                    for s_ in path:
                        ty = step_ty(ev, ty, s_)
                    ty = known_ty(ty)
                    lf = Leaf(r, path, ty)
                    lf.init = get_path(entry[r], path)
                    mkh(lf, asint.get(key, True))
                    leaves[key] = lf
                    grow = True
        if not grow:
            for key, lf in leaves.items():
                if asint.get(key, True) and lf.sym and lf.sym[0].a[1] == 'i' and isnum(lf.init) and lf.ty not in INTTY:
                    nx = get_path(st[lf.root], lf.path) if l is not FALSE else lf.h
                    if not is_int(nx):
                        asint[key] = False
                        mkh(lf, False)
                        grow = True
        if not grow:
            break
        ev.unknown = unk0
    for lf in leaves.values():
        lf.next = get_path(st[lf.root], lf.path) if l is not FALSE else lf.h
    return entry, list(leaves.values()), l, exits, panics, st


INTTY = ('usize', 'i32', 'i64', 'u32', 'u64', 'u8', 'isize')


def mkh(lf, asint):
    syms = []

    def base(s):
        x = fresh(s, 'h')
        syms.append(x)
        return x
    x = lf.init
    if isnum(x) and lf.ty not in INTTY and not (isinstance(lf.ty, tuple)):
        lf.h = base('i' if asint and is_int(x) else 'f')
    else:
        lf.h = havoc_like(x, base, lf.ty)
    lf.sym = syms


def symbolic(ev, v, src, g, elem, run, labels, sp):
    ev.nloop += 1
    entry, leaves, l, exits, panics, st = reach(ev, v, src, g, lambda: run(elem), labels)
    finish(ev, v, src, g, entry, leaves, l, exits, panics, labels, sp)


def has_syms(x, syms):
    return not x.fv.isdisjoint(syms)


def finish(ev, v, src, g, entry, leaves, l, exits, panics, labels, sp):
    live0 = ev.live
    exits = [x for x in exits if x.cond is not FALSE]
    solve(ev, v, src, g, leaves)
    uns = [lf for lf in leaves if not lf.solved]
    usyms = frozenset(s for lf in uns for s in lf.sym)
    fmap = {}
    noF = set()
    for lf in leaves:
        if lf.solved:
            if lf.F is not None:
                fmap.update(bind_syms(lf))
            else:
                noF.update(lf.sym)
    noF = frozenset(noF)
    blocked = usyms | noF

    points = [lf.point for lf in leaves if lf.solved and lf.point]

    def at_v(x):
        x = subst_any(x, fmap) if fmap else x
        if points and isinstance(x, T):
            for hs, I, kv in points:
                if hs in x.fv:
                    r = reads(x, hs)
                    if r is not None and not r - {kv}:
                        x = subst(x, {hs: I})
        return x
    X = at_v(OR(*[x.cond for x in exits])) if exits else FALSE
    for x in exits:
        x.cond = at_v(x.cond)
        x.val = at_v(x.val)
    need_node = bool(uns)
    if has_syms(X, blocked) or (X is not FALSE and uns) or any(has_syms(x.val, blocked) for x in exits):
        need_node = True
    if not need_node and X is not FALSE:
        # the state at an exit must be expressible
        for x in exits:
            for k, y in x.store.items():
                if k in entry and y is not entry[k] and has_syms(at_v(y), blocked):
                    need_node = True
    if need_node and X is not FALSE:
        node_loop(ev, v, src, g, entry, leaves, l, exits, panics, labels, sp, fmap, blocked)
        return
    if need_node:
        node_loop(ev, v, src, g, entry, leaves, l, [], panics, labels, sp, fmap, blocked)
        return
    # panics inside the loop
    before = FALSE
    if X is not FALSE and src.op == 'range':
        w = fresh('u', 'w')
        with range_facts(v, src):
            before = exists(w, mk('range', v), subst(AND(g, X), {v: w}))
    for p in panics:
        c = at_v(p.cond)
        c = AND(c, NOT(before))
        if has_syms(c, blocked):
            c = atom(mk('app', '?loopcond', 'b', c))
        p.cond = AND(live0, wrap(v, src, c))
        if p.cond is not FALSE:
            ev.panics.append(p)
    dead = AND(g, NOT(OR(at_v(l), X)))
    dead = wrap(v, src, AND(dead, NOT(before))) if dead is not FALSE else FALSE
    if has_syms(dead, blocked):
        dead = atom(mk('app', '?loopdead', 'b', dead))
    # state after normal completion
    fin = dict(entry)
    for lf in leaves:
        fin[lf.root] = set_path(fin[lf.root], lf.path, lf.final)
    if X is FALSE:
        ev.store = fin
        ev.live = AND(live0, NOT(dead))
        return
    gx = AND(g, X)
    Eany = exists(v, src, gx)
    single = all(x.kind == exits[0].kind and x.label == exits[0].label for x in exits)
    groups = []
    for x in exits:
        for gr in groups:
            if gr[0].kind == x.kind and gr[0].label == x.label:
                gr.append(x)
                break
        else:
            groups.append([x])
    new = []
    for gr in groups:
        if single:
            c = Eany
        else:
            ci = OR(*[x.cond for x in gr])
            c = AND(Eany, bool_first(v, src, gx, ci))
        val = UNDEF
        stv = None
        for x in gr:
            xst = dict(x.store)
            if stv is None:
                val, stv = x.val, xst
            else:
                val = gate(x.cond, x.val, val)
                stv = ev.merge(x.cond, xst, stv)
        from evalr import Exit
        val = first_val(v, src, gx, val)
        st2 = dict(fin)
        for k in entry:
            y = stv.get(k)
            if y is not None:
                y = at_v(y)
                st2[k] = first_val(v, src, gx, y)
        new.append(Exit(gr[0].kind, gr[0].label, AND(live0, c, NOT(dead)), val, st2))
    ev.store = fin
    ev.live = AND(live0, NOT(Eany), NOT(dead))
    for x in new:
        ev.exits.append(x)


def bool_first(v, src, gx, c):
    if gx is c:
        return TRUE
    if v not in c.fv:
        return c
    r = first_of(v, src, gx, c)
    return r if isbool(r) else atom(r)


def first_val(v, src, gx, x):
    if isbool(x):
        return bool_first(v, src, gx, x)
    if v not in x.fv:
        return x
    if x.op == 'gate':
        return gate(bool_first(v, src, gx, x.a[0]), first_val(v, src, gx, x.a[1]), first_val(v, src, gx, x.a[2]))
    if x.op in ('tuple', 'rec', 'variant'):
        k = {'tuple': 0, 'rec': 1, 'variant': 2}[x.op]
        return mk(x.op, *x.a[:k], *[first_val(v, src, gx, y) for y in x.a[k:]])
    return first_of(v, src, gx, x)


def bind_syms(lf):
    """substitution replacing the leaf's symbols by its value at the start of iteration v"""
    if len(lf.sym) == 1 and (lf.h is lf.sym[0] or lf.sym[0].a[1] == 'b' or lf.h.op == 'seq'):
        return {lf.sym[0]: lf.F if not isbool(lf.F) else lf.F}
    out = {}
    if len(lf.sym) == 1:
        out[lf.sym[0]] = lf.F
    return out


# ---------------------------------------------------------------- solving the leaves
def affine(N, h):
    """(a, b) with N = a*h + b, a and b free of h, or None"""
    if h not in N.fv:
        return ZERO, N
    if N.op == 'gate':
        if h in N.a[0].fv:
            return None
        x, y = affine(N.a[1], h), affine(N.a[2], h)
        if x is None or y is None:
            return None
        return gate(N.a[0], x[0], y[0]), gate(N.a[0], x[1], y[1])
    a, b = ZERO, ZERO
    for m, c in P(N):
        t = const(c)
        hs = None
        rest = ONE
        for bb, e in m:
            if h in bb.fv or h in e.fv:
                if hs is not None:
                    return None
                if bb is h and e is ONE:
                    hs = (ONE, ZERO)
                elif e is ONE and bb.op in ('gate',):
                    hs = affine(bb, h)
                    if hs is None:
                        return None
                else:
                    return None
            else:
                rest = mul(rest, powr(bb, e))
        t = mul(t, rest)
        if hs is None:
            b = add(b, t)
        else:
            a = add(a, mul(t, hs[0]))
            b = add(b, mul(t, hs[1]))
    return a, b


def as_extreme(N, h):
    """(which, e) if N = max(h, e) or min(h, e)"""
    for x in subterms(N):
        if x.op == 'abs' and h in x.fv:
            a = affine(x.a[0], h)
            if a is None or isconst(a[0]) is None or isconst(a[0]) == 0:
                continue
            e = scale(neg(a[1]), 1 / isconst(a[0]))
            if N is maxv(h, e):
                return 'max', e
            if N is minv(h, e):
                return 'min', e
    if N.op == 'gate':
        for x, y in ((N.a[1], N.a[2]), (N.a[2], N.a[1])):
            if x is h and h not in y.fv:
                for c in (lt(h, y), le(h, y)):
                    if gate(c, y, h) is N:
                        return 'max', y
                for c in (lt(y, h), le(y, h)):
                    if gate(c, y, h) is N:
                        return 'min', y
    return None


def prefix_ok(src):
    return src.op == 'range'


def solve(ev, v, src, g, leaves):
    todo = list(leaves)
    progress = True
    while progress and todo:
        progress = False
        for lf in list(todo):
            others = frozenset(s for x in todo if x is not lf for s in x.sym)
            N = lf.next
            if has_syms(N, others):
                continue
            blockedF = frozenset(s for x in leaves if x.solved and x.F is None for s in x.sym)
            if has_syms(N, blockedF):
                continue
            if solve_leaf(ev, v, src, g, lf):
                lf.solved = True
                todo.remove(lf)
                progress = True
                if lf.F is not None:
                    mp = bind_syms(lf)
                    with range_facts(v, src):
                        for x in todo:
                            x.next = subst(x.next, mp)


def done(lf, final, F):
    lf.final, lf.F = final, F
    return True


def fn_of(v, src, build):
    """(final, value at the start of iteration v) of something determined by the visited prefix"""
    w = fresh(v.a[1], 'w')
    if prefix_ok(src):
        F = build(w, mk('range', v), w)
        return F
    return None


def solve_leaf(ev, v, src, g, lf):
    N, I, h = lf.next, lf.init, lf.h
    syms = frozenset(lf.sym)
    rng = src.op == 'range'
    if N is h:
        return done(lf, I, I)
    w = fresh(v.a[1], 'w')
    sb = lambda x: subst_any(x, {v: w})
    pre = mk('range', v)
    if not has_syms(N, syms):
        return last_value(ev, v, src, g, lf, w)
    if isbool(h) and isbool(N):
        a = h.a[0]
        if any(a in x.fv for x in batoms(N) if x is not a):
            return False
        p, q = cofactor(N, a, True), cofactor(N, a, False)
        if p is TRUE:
            F = OR(I, exists(w, pre, sb(AND(g, q)))) if rng else None
            return done(lf, OR(I, exists(v, src, AND(g, q))), F)
        if q is FALSE:
            c = AND(g, NOT(p))
            F = AND(I, NOT(exists(w, pre, sb(c)))) if rng else None
            return done(lf, AND(I, NOT(exists(v, src, c))), F)
        return False
    if isnum(h) and isnum(N) and len(lf.sym) == 1 and lf.sym[0] is h:
        af = affine(N, h)
        if af is not None:
            a, b = af
            if a is ONE:
                F = None
                if rng:
                    F = add(I, bigsum(w, pre, sb(g), sb(b)))
                return done(lf, add(I, bigsum(v, src, g, b)), F)
            if b is ZERO:
                F = mul(I, bigprod(w, pre, sb(g), sb(a))) if rng else None
                return done(lf, mul(I, bigprod(v, src, g, a)), F)
            if rng and g is TRUE:
                def closed(n, n0):
                    if v not in a.fv:
                        pw = powr(a, sub(sub(n, ONE), w))
                        return add(mul(powr(a, n), I), bigsum(w, mk('range', n), TRUE, mul(pw, sb(b))))
                    u = fresh('u', 'u')
                    tail = bigprod(u, mk('range', sub(sub(n, ONE), w)), TRUE, subst(a, {v: add(w, ONE, u)}))
                    return add(mul(I, bigprod(w, mk('range', n), TRUE, sb(a))), bigsum(w, mk('range', n), TRUE, mul(sb(b), tail)))
                n = src.a[0]
                fin = closed(n, None)
                if not nonneg(n):
                    fin = gate(lt0(n), I, fin)
                return done(lf, fin, closed(v, None))
            return False
        ex = as_extreme(N, h)
        if ex is not None:
            which, e = ex
            if h in e.fv:
                return False
            from models import extr
            F = extr(w, pre, sb(g), sb(e), which, I) if rng else None
            return done(lf, extr(v, src, g, e, which, I), F)
        return False
    if len(lf.sym) != 1:
        return False
    hs = lf.sym[0]
    # iterators that advance by one
    if lf.h.op in ('seq', 'var') and isseq(lf.init):
        tk = take_skip(as_seq(lf.h), ONE, None)
        if N is tk and rng and g is TRUE:
            return done(lf, take_skip(I, src.a[0], None) if nonneg(src.a[0]) else gate(lt0(src.a[0]), I, take_skip(I, src.a[0], None)), take_skip(I, v, None))
        r = solve_array(ev, v, src, g, lf, hs)
        if r is not None:
            return r
        r = solve_push(ev, v, src, g, lf, hs)
        if r is not None:
            return r
        return False
    if hs.a[1] == 's' and N.op == 'scat' and N.a[0] is hs:
        from models import scat, scat_seq
        rest = scat(*N.a[1:])
        if hs in rest.fv:
            return False
        F = scat(I, scat_seq(mkseq(w, pre, sb(g), sb(rest)))) if rng else None
        return done(lf, scat(I, scat_seq(mkseq(v, src, g, rest))), F)
    if isinstance(hs.a[1], tuple) and hs.a[1][0] == 'map':
        return solve_map(ev, v, src, g, lf, hs)
    return False


def isseq(x):
    if x.op == 'gate':
        return isseq(x.a[1]) or isseq(x.a[2])
    if x.op in ('list', 'glist', 'seq', 'cat', 'astore', 'recarr', 'flat'):
        return True
    return x.op in ('var', 'app') and isinstance(x.a[1], tuple) and x.a[1][0] == 'vec'


def last_value(ev, v, src, g, lf, w):
    N, I = lf.next, lf.init
    rng = src.op == 'range'
    if v not in N.fv:
        ex = exists(v, src, g)
        F = gate(exists(w, mk('range', v), subst(g, {v: w})), N, I) if rng else None
        return done(lf, gate(ex, N, I), F)
    if rng and g is TRUE:
        prev = subst(N, {v: sub(v, ONE)})
        z = subst(N, {v: const(-1)}) if not mentions_array(N, v) else None
        F = prev if z is I else gate(eq0(v), I, prev)
        n = src.a[0]
        fin = subst(N, {v: sub(n, ONE)})
        if not (nonneg(n) and (z is I or lt0(neg(n)) is TRUE)):
            fin = gate(le0(n), I, fin)
        return done(lf, fin, F)
    s = reverse(mkseq(v, src, g, N))
    if s.op == 'app':
        return False
    ex, x = s_first(s)
    F = None
    if rng:
        s2 = reverse(mkseq(w, mk('range', v), subst(g, {v: w}), subst(N, {v: w})))
        e2, x2 = s_first(s2)
        F = gate(e2, x2, I)
    return done(lf, gate(ex, x, I), F)


def mentions_array(N, v):
    return any(x.op == 'app' and x.a[0] == 'idx' and v in x.a[3].fv for x in subterms(N)) or any(x.op not in ('poly', 'var', 'app') and v in x.fv for x in subterms(N))


DEBUG = False


def solve_array(ev, v, src, g, lf, hs):
    """one store per iteration at an index v + c"""
    N, I = lf.next, lf.init
    H = lf.h
    rng = src.op == 'range'
    # recover (index, value): N is h with one element replaced
    if N.op == 'astore' and (N.a[0] is hs or N.a[0] is H):
        i, x = N.a[1], N.a[2]
    elif N.op == 'seq' and N.a[1].op == 'range' and N.a[1].a[0] is length(H):
        j = fresh('u', 'j')
        e = at(N, j)
        base = at(H, j)
        r = stored(e, base, j)
        if r is None:
            return None
        i, x = r
    else:
        return None
    if not rng:
        return False
    c = sub(i, v)
    down = False
    if v in c.fv or has_syms(c, frozenset([hs])):
        return False
    n = src.a[0]
    L = length(I)
    pos = i
    slf = fresh(hs.a[1], 'self')
    view = mk('arrview', slf, pos, I, L)
    with range_facts(v, src):
        import equal
        x2 = equal.resimp(subst(x, {hs: view}))
        g2 = equal.resimp(subst(g, {hs: view}))
    if DEBUG:
        print('ARRVIEW', [show(y)[:300] for y in subterms(x2) if y.op == 'app' and any(z.op == 'arrview' for z in children(y.a))])
    if any(y.op == 'arrview' for y in subterms(x2)) or any(y.op == 'arrview' for y in subterms(g2)):
        return False
    j = fresh('u', 'j')
    with range_facts(j, mk('range', L)):
        tov = {v: sub(j, c)}
        cond = AND(le0(neg(sub(j, c))), lt(sub(j, c), n), subst(g2, tov))
        el = gate(cond, subst(x2, tov), at(I, j))
    ety = seq_elem_ty(I) or elem_ty(hs) or 'f64'
    if slf in el.fv:
        arr = recarr(L, ety, slf, j, el)
    else:
        arr = mkseq(j, mk('range', L), TRUE, el)
    done(lf, arr, None)
    # inside the loop entries below the current position have their final value, the others their initial one
    if len(lf.sym) == 1:
        lf.F = mk('arrview', arr, pos, I, L)
    return True


def stored(e, base, j):
    """e = (j == i ? x : base)"""
    if e.op == 'gate':
        c, a, b = e.a
        for cc, x, y in ((c, a, b), (NOT(c), b, a)):
            if y is base:
                i = solved(cc, j)
                if i is not None and cc is eq0(sub(j, i)):
                    return i, subst(x, {j: i})
        return None
    if isnum(e) and isnum(base):
        d = sub(e, base)
        items = P(d)
        cond = None
        # every summand carries the factor [j == i]
        for m, k in items:
            found = None
            for b, ex in m:
                if b.op == 'gate' and b.a[1] is ONE and b.a[2] is ZERO and j in b.a[0].fv:
                    i = solved(b.a[0], j)
                    if i is not None and b.a[0] is eq0(sub(j, i)):
                        found = i
                elif b.op == 'gate' and j in b.a[0].fv:
                    i = solved(b.a[0], j)
                    if i is not None and b.a[0] is eq0(sub(j, i)) and b.a[2] is ZERO:
                        found = i
            if found is None or (cond is not None and cond is not found):
                return None
            cond = found
        if cond is None:
            return None
        return cond, subst(e, {j: cond})
    if e.op == base.op and e.op in ('tuple', 'rec') and len(e.a) == len(base.a):
        i = None
        k0 = 1 if e.op == 'rec' else 0
        for a, b in zip(e.a[k0:], base.a[k0:]):
            if a is b:
                continue
            r = stored(a, b, j)
            if r is None or (i is not None and r[0] is not i):
                return None
            i = r[0]
        return (i, subst(e, {j: i})) if i is not None else None
    return None


def solve_push(ev, v, src, g, lf, hs):
    N, I = lf.next, lf.init
    H = lf.h
    ps = list(N.a) if N.op == 'cat' else None
    if ps is None:
        # guarded pushes merge into gates
        return None
    if not (ps[0] is H or ps[0] is hs):
        return None
    rest = cat(*ps[1:])
    w = fresh(v.a[1], 'w')
    rng = src.op == 'range'

    def seqof(u, s_, gg, r):
        if r.op == 'list' and len(r.a) == 1:
            return mkseq(u, s_, gg, r.a[0])
        if r.op == 'glist' and len(r.a[0]) == 1:
            return mkseq(u, s_, AND(gg, r.a[0][0][0]), r.a[0][0][1])
        if r.op == 'gate' and r.a[2] is NIL and r.a[1].op == 'list' and len(r.a[1].a) == 1:
            return mkseq(u, s_, AND(gg, r.a[0]), r.a[1].a[0])
        return close('flat', u, u.a[1], s_, gg, r)
    if hs not in rest.fv:
        fin = cat(I, seqof(v, src, g, rest))
        F = cat(I, seqof(w, mk('range', v), subst(g, {v: w}), subst(rest, {v: w}))) if rng else None
        return done(lf, fin, F)
    # each element may read the earlier ones
    if rng and g is TRUE and rest.op == 'list' and len(rest.a) == 1 and I.op == 'list':
        c0 = len(I.a)
        slf = fresh(hs.a[1], 'self')
        with range_facts(v, src):
            x = subst(rest.a[0], {hs: mk('pushview', slf, add(v, const(c0)))})
        if any(y.op == 'pushview' for y in subterms(x)):
            return False
        j = fresh('u', 'j')
        n = src.a[0]
        L = add(n if nonneg(n) else gate(lt0(n), ZERO, n), const(c0))
        with range_facts(j, mk('range', L)):
            el = subst(x, {v: sub(j, const(c0))})
            for k in reversed(range(c0)):
                el = gate(eq0(sub(j, const(k))), I.a[k], el)
        ety = elem_ty(hs) or 'f64'
        return done(lf, recarr(L, ety, slf, j, el), None)
    return False


def unstack(N, hs):
    """the stores on top of map hs, outermost last: [(key, present, value)]"""
    out = []
    while N is not hs:
        if N.op == 'mstore':
            out.append(N.a[1:4])
            N = N.a[0]
        elif N.op == 'mst':
            out.extend(reversed(list(N.a[1])))
            N = N.a[0]
        elif N.op == 'mext' and N.a[0] is not None:
            out.append((None, None, N.a[1]))
            N = N.a[0]
        else:
            return None
    out.reverse()
    return out


def reads(x, hs):
    """keys at which x reads map hs; None if hs is used in another way"""
    keys = set()
    for y in subterms(x):
        if y.op == 'app' and y.a[0] in ('has', 'get') and y.a[2] is hs:
            keys.add(y.a[3])
        else:
            for c in children(y.a):
                if c is hs and not (y.op == 'app' and y.a[0] in ('has', 'get')):
                    return None
    return keys


def solve_map(ev, v, src, g, lf, hs):
    N, I = lf.next, lf.init
    K = hs.a[1][1]
    if N.op == 'gate':
        return False
    st = unstack(N, hs)
    if st is None or not st:
        return False
    if hs in g.fv:
        return False
    kv = keyval(K, v) if K is not None else None
    # pointwise update at the key being visited
    if len(st) == 1 and src.op == 'keys' and st[0][0] is kv and kv is not None:
        k, p, x = st[0]
        rd = set()
        for y in (p, x):
            r = reads(y, hs)
            if r is None:
                return False
            rd |= r
        if rd - {kv}:
            return False
        p2 = subst(p, {hs: I})
        x2 = subst(x, {hs: I})
        has = ite(g, p2, mhas(I, kv))
        val = gate(g, x2, mget(I, kv))
        lf.point = (hs, I, kv)
        return done(lf, mfun(v, K, has, val), None)
    ins = []
    for k, p, x in st:
        if k is None:
            return False
        if hs in k.fv:
            return False
        hk, gk = mhas(hs, k), mget(hs, k)
        if p is TRUE:
            c = TRUE
        else:
            a = hk.a[0] if hk.op == 'bdd' else None
            if a is None:
                return False
            c = cofactor(p, a, False)
            if cofactor(p, a, True) is not TRUE:
                return False
        if x is not UNIT:
            if x.op == 'gate' and c is not TRUE:
                if gate(c, x.a[1], gk) is x:
                    x = x.a[1]
                elif gate(c, x.a[2], gk) is x:
                    x = x.a[2]
        if has_syms(x, frozenset([hs])) or hs in c.fv:
            return False
        ins.append((c, k, x))
    w = fresh(v.a[1], 'w')
    rng = src.op == 'range'
    if all(x is UNIT for c, k, x in ins):
        def mkset(u, s_, sbm):
            q = keyvar(K)
            qv = keyval(K, q)
            cond = OR(*[AND(subst_any(AND(g, c), sbm), veq(qv, subst_any(k, sbm))) for c, k, x in ins])
            return mfun(q, K, OR(mhas(I, qv), exists(u, s_, cond)), UNIT)
        return done(lf, mkset(v, src, {}), mkset(w, mk('range', v), {v: w}) if rng else None)
    if len(ins) == 1:
        c, k, x = ins[0]
        fin = mext(I, mkseq(v, src, AND(g, c), mk('tuple', k, x)))
        F = None
        if rng:
            F = mext(I, subst(mkseq(w, mk('range', v), subst(AND(g, c), {v: w}), subst(mk('tuple', k, x), {v: w})), {}))
        return done(lf, fin, F)
    return False


# ---------------------------------------------------------------- loops without a closed form
def node_loop(ev, v, src, g, entry, leaves, l, exits, panics, labels, sp, fmap, blocked):
    """everything not solved becomes the state of a canonical loop node"""
    live0 = ev.live
    if exits:
        state = [lf for lf in leaves if not (lf.solved and lf.F is not None)]
        hasF = [lf for lf in leaves if lf.solved and lf.F is not None]
    else:
        state = [lf for lf in leaves if not lf.solved]
        hasF = [lf for lf in leaves if lf.solved]
    # a solved leaf the state does not know the running value of belongs to the state
    changed = True
    while changed:
        changed = False
        stsy = frozenset(s for lf in state for s in lf.sym)
        for lf in list(hasF):
            if lf.F is None and any(has_syms(x.next, frozenset(lf.sym)) for x in state):
                hasF.remove(lf)
                state.append(lf)
                changed = True
    order = {lf: i for i, lf in enumerate(leaves)}
    state.sort(key=lambda lf: order[lf])
    fm = {}
    for lf in hasF:
        if lf.F is not None:
            fm.update(bind_syms(lf))
    f = (lambda x: subst_any(x, fm)) if fm else (lambda x: x)
    S = fresh(('state', len(state)), 'S')
    rep = {}
    for i, lf in enumerate(state):
        for j, s in enumerate(lf.sym):
            t = mk('app', 'st', s.a[1], S, const(i), const(j))
            rep[s] = atom(t) if s.a[1] == 'b' else t
    rp = lambda x: subst_any(f(x), rep)
    inits = tuple(lf.init for lf in state)
    nexts = tuple(rp(lf.next) for lf in state)
    xs = []
    from evalr import Exit
    groups = []
    for x in exits:
        for gr in groups:
            if gr[0].kind == x.kind and gr[0].label == x.label:
                gr.append(x)
                break
        else:
            groups.append([x])
    info = []
    for gr in groups:
        c = OR(*[x.cond for x in gr])
        val, stv = gr[0].val, dict(gr[0].store)
        for x in gr[1:]:
            val = gate(x.cond, x.val, val)
            stv = ev.merge(x.cond, x.store, stv)
        # exit values of places, in a canonical order
        places = []
        for k in entry:
            if k not in stv:
                continue
            base = entry[k]
            for lf in leaves:
                if lf.root == k:
                    base = set_path(base, lf.path, lf.h)
            out = []
            diff(entry[k], stv[k], (), out)
            for path in out:
                places.append((k, path, get_path(stv[k], path)))
        xs.append((gr[0].kind, rp(c), rp(val), tuple(rp(y) for k, path, y in places)))
        info.append((gr[0].kind, gr[0].label, val, places))
    E = OR(*[x[1] for x in xs])
    core = Core(S, v, src, inits, rp(g), nexts, E)

    fin = dict(entry)
    for i, lf in enumerate(state):
        like = lf.h
        if isbool(like):
            lf.final = atom(core.out('b', i))
        else:
            lf.final = havoc_like(like, lambda s: core.out(s, i), lf.ty)
    for lf in leaves:
        x = lf.final
        if x is None:
            x = lf.init
        fin[lf.root] = set_path(fin[lf.root], lf.path, x)
    exited = core.exited() if xs else FALSE
    conds = []
    rest = exited
    for q in range(len(xs)):
        c = rest if q == len(xs) - 1 else AND(rest, core.at_exit(xs[q][1], 'b'))
        conds.append(c)
        rest = AND(rest, NOT(c))
    for q, (kind, label, val, places) in enumerate(info):
        rv = core.shaped(xs[q][2], val)
        st2 = dict(fin)
        for z, (k, path, y) in enumerate(places):
            st2[k] = set_path(st2[k], path, core.shaped(xs[q][3][z], y))
        ev.exits.append(Exit(kind, label, AND(live0, conds[q]), rv, st2))
    for p in panics:
        c = rp(p.cond)
        if has_any(c, S, v):
            if S not in c.fv and core.E is FALSE:
                # neither the state nor an early exit decides it: some round fulfils it
                with range_facts(v, src):
                    c = exists(v, src, AND(core.g, c))
            else:
                c = core.at_exit(c, 'b', '?looppanic')
        p.cond = AND(live0, c)
        if p.cond is not FALSE:
            ev.panics.append(p)
    ev.store = fin
    ev.live = AND(live0, NOT(exited))


def has_any(x, *vs):
    return any(v in x.fv for v in vs)


def given(E, e):
    """e where E is known to hold"""
    if E is FALSE or E is TRUE:
        return e
    if e.op == 'gate':
        y, n = AND(E, e.a[0]), AND(E, NOT(e.a[0]))
        if n is FALSE:
            return given(y, e.a[1])
        if y is FALSE:
            return given(n, e.a[2])
        return gate(e.a[0], given(y, e.a[1]), given(n, e.a[2]))
    if e.op == 'bdd':
        a = atom(e.a[0])
        y, n = AND(E, a), AND(E, NOT(a))
        if n is FALSE:
            return given(y, e.a[1])
        if y is FALSE:
            return given(n, e.a[2])
        return ite(a, given(y, e.a[1]), given(n, e.a[2]))
    return e


class Core:
    """a loop as a state machine: canonical up to the state its results need"""
    def __init__(self, S, v, src, inits, g, nexts, E):
        self.S, self.v, self.src, self.inits, self.g, self.nexts, self.E = S, v, src, inits, g, nexts, E
        self.memo = {}

    def deps(self, t):
        return {int(isconst(x.a[3])) for x in subterms(t) if x.op == 'app' and x.a[0] == 'st' and x.a[2] is self.S}

    def slice(self, seeds):
        need = self.deps(self.g) | self.deps(self.E) | seeds
        work = list(need)
        while work:
            i = work.pop()
            for j in self.deps(self.nexts[i]):
                if j not in need:
                    need.add(j)
                    work.append(j)
        key = tuple(sorted(need))
        r = self.memo.get(key)
        if r is None:
            S2 = fresh(('state', len(key)), 'S')
            ix = {o: n for n, o in enumerate(key)}
            sts = {}
            for t in (self.g, self.E) + tuple(self.nexts[i] for i in key):
                for x in subterms(t):
                    if x.op == 'app' and x.a[0] == 'st' and x.a[2] is self.S:
                        sts[x] = None
            m = {x: renum(x, S2, ix) for x in sts}
            f = lambda t: subst_any(t, m)
            node = close('loop', S2, S2.a[1], self.src, tuple(self.inits[i] for i in key),
                         close('lamn', self.v, self.v.a[1], f(self.g), tuple(f(self.nexts[i]) for i in key), f(self.E)))
            r = (node, ix)
            self.memo[key] = r
        return r

    def exited(self):
        return atom(mk('app', 'sel', 'b', self.slice(set())[0], 'exited'))

    def out(self, sort, i):
        node, ix = self.slice({i})
        return mk('app', 'sel', sort, node, f'out.{ix[i]}')

    def at_exit(self, e, sort, how='atexit'):
        """the value of e when the loop is left early"""
        if not has_any(e, self.S, self.v):
            return e
        if how == 'atexit':
            e = given(AND(self.g, self.E), e)
            if not has_any(e, self.S, self.v):
                return e
            if e.op == 'gate':
                return gate(self.at_exit(e.a[0], 'b'), self.at_exit(e.a[1], sort), self.at_exit(e.a[2], sort))
            if e.op == 'bdd' and not (e.a[1] is TRUE and e.a[2] is FALSE):
                return ite(self.at_exit(atom(e.a[0]), 'b'), self.at_exit(e.a[1], 'b'), self.at_exit(e.a[2], 'b'))
        node, ix = self.slice(self.deps(e))
        S2 = fresh(('state', len(ix)), 'S')
        m = {x: renum(x, S2, ix) for x in subterms(e) if x.op == 'app' and x.a[0] == 'st' and x.a[2] is self.S}
        e = subst_any(e, m)
        t = mk('app', how, sort, node, close('lamn', S2, S2.a[1], close('lamn', self.v, self.v.a[1], e)))
        return atom(t) if sort == 'b' else t

    def shaped(self, e, like):
        """a result of the loop with the shape of a value"""
        if not has_any(e, self.S, self.v):
            return e
        cs = comps(e)
        n = [0]

        def base(s):
            n[0] += 1
            if n[0] > len(cs):
                return mk('app', '?shape', s, e)
            c = cs[n[0] - 1](e)
            if s != 'b' and isbool(c):
                c = mk('wrapb', c)
            r = self.at_exit(c, s)
            return r

        def sh(x):
            if x.op == 'gate' and not isnum(x):
                vs = set()

                def coll(y):
                    if y.op == 'gate':
                        coll(y.a[1])
                        coll(y.a[2])
                    else:
                        vs.add(y)
                coll(x)
                vs = [y for y in vs if y is not UNDEF]
                if vs and all(y.op == 'variant' for y in vs):
                    by = {}
                    for y in vs:
                        by.setdefault(y.a[1], y)
                    r = None
                    names = sorted(by)
                    tag_ = base(('enum', by[names[0]].a[0]))
                    for vn in names:
                        y = by[vn]
                        z = mk('variant', y.a[0], vn, *[sh(q) for q in y.a[2:]])
                        r = z if r is None else gate(member(tag_, frozenset([vn])), z, r)
                    return r
                return havoc_like(x, base)
            if x.op == 'variant':
                return mk('variant', *x.a[:2], *[sh(y) for y in x.a[2:]])
            if x.op in ('tuple', 'rec'):
                k = 1 if x.op == 'rec' else 0
                return mk(x.op, *x.a[:k], *[sh(y) for y in x.a[k:]])
            if isbool(x):
                return base('b')
            return havoc_like(x, base)
        return sh(e)


def renum(x, S2, ix):
    t = mk('app', 'st', x.a[1], S2, const(ix[int(isconst(x.a[3]))]), x.a[4])
    return t


BINDERS['loop'] = lambda v, *a: close('loop', v, v.a[1], *a)
BINDERS['lamn'] = lambda v, *a: close('lamn', v, v.a[1], *a)
REBUILD['loop'] = REBUILD['lamn'] = 'binder'


# ---------------------------------------------------------------- loop { } / while
def forever(ev, run, labels, sp):
    m = len(ev.exits)
    if ev.live is FALSE:
        return UNDEF
    _forever(ev, run, labels, sp)
    xs = ev.take_exits(m, lambda x: x.kind == 'brk' and x.label in labels)
    v = UNDEF
    if xs:
        ev.live = FALSE
        v = ev.join_exits(xs, UNDEF)
    else:
        ev.live = FALSE
    return v


def _forever(ev, run, labels, sp):
    ev.nloop += 1
    v = fresh('u', 'n')
    src = mk('ever')
    unk0 = dict(ev.unknown)
    live0 = ev.live
    store0 = dict(ev.store)
    entry, leaves, l, exits, panics, st = reach(ev, v, src, TRUE, run, labels)
    # counted loops
    for lf in leaves:
        cnt = counted(lf, leaves, exits)
        if cnt is None:
            continue
        n, val = cnt           # number of iterations, value of the leaf in iteration v
        ev.unknown = unk0
        run_counted(ev, run, labels, sp, lf, n, val)
        return
    if l is FALSE and not leaves:
        # runs once
        for x in exits:
            x.cond = AND(live0, x.cond)
            ev.exits.append(x)
        for p in panics:
            p.cond = AND(live0, p.cond)
            ev.panics.append(p)
        ev.live = FALSE
        return
    node_loop(ev, v, src, TRUE, entry, leaves, l, exits, panics, labels, sp, {}, frozenset())


def counted(lf, leaves, exits):
    """the loop runs while an induction variable is in range"""
    syms = frozenset(s for x in leaves for s in x.sym)
    brk = [x for x in exits if x.kind == 'brk']
    if len(lf.sym) != 1:
        return None
    # the loop goes on only while every conjunct holds
    brk = [c for x in brk for c in [x.cond] + [NOT(c) for c in conjuncts(NOT(x.cond))]]
    h = lf.sym[0]
    if isnum(lf.h) and lf.h is h and lf.next is not h:
        d = sub(lf.next, h)
        c = isconst(d)
        if c is None or c == 0:
            return None
        for a in brk:
            if a.op == 'bdd':
                at_, hi, lo = a.a
                single = (hi is TRUE and lo is FALSE) or (hi is FALSE and lo is TRUE)
                if not single:
                    continue
                pos = hi is TRUE
                p = at_.a[0] if at_.op in ('le0', 'lt0', 'eq0') else None
                if p is None:
                    continue
                af = affine(p, h)
                if af is None or isconst(af[0]) is None or has_syms(af[1], syms):
                    continue
                k, b = isconst(af[0]), af[1]
                if k == 0:
                    continue
                # exits when  k*h + b (op) 0 ;  h = I + c*v
                if at_.op == 'eq0':
                    if not pos:
                        continue
                    t = scale(neg(add(scale(lf.init, k), b)), 1 / (k * c))
                    if abs(k * c) != 1:
                        continue
                    return t, add(lf.init, scale(mk('app', 'itv', 'u'), c))
                strict = at_.op == 'lt0'
                q = add(scale(lf.init, k), b)        # value of p at v = 0 ; p(v) = q + k*c*v
                s = k * c
                if pos:
                    if s >= 0:
                        continue
                    # continue while p(v) >= 0 (or > 0 when not strict): v <= q/(-s)
                    r = scale(q, 1 / -s)
                    if not is_int(r):
                        r2 = rnd('floor', r) if strict else sub(rnd('ceil', r), ONE)
                    else:
                        r2 = r if strict else sub(r, ONE)
                    return add(r2, ONE), add(lf.init, scale(mk('app', 'itv', 'u'), c))
                if s <= 0:
                    continue
                # exits when not(p op 0): continues while p(v) < 0 / <= 0
                r = scale(neg(q), 1 / s)
                if not is_int(r):
                    r2 = sub(rnd('ceil', r), ONE) if strict else rnd('floor', r)
                else:
                    r2 = sub(r, ONE) if strict else r
                return add(r2, ONE), add(lf.init, scale(mk('app', 'itv', 'u'), c))
        return None
    if isseq(lf.init):
        H = as_seq(lf.h)
        if lf.next is take_skip(H, ONE, None):
            for c in brk:
                if c is NOT(lt0(neg(length(H)))) or c is NOT(s_first(H)[0]):
                    I = lf.init
                    if I.op == 'list' or positional(I) or I.op in ('astore', 'recarr', 'var', 'app'):
                        return length(I), take_skip(I, mk('app', 'itv', 'u'), None)
                    if I.op == 'seq':
                        return None
    if lf.h.op == 'rng' or lf.init.op == 'rng':
        return None
    return None


def conjuncts(c):
    out = []
    while c.op == 'bdd':
        a, hi, lo = c.a
        if lo is FALSE:
            out.append(atom(a))
            c = hi
        elif hi is FALSE:
            out.append(NOT(atom(a)))
            c = lo
        else:
            break
    return out if len(out) > 1 else []


def run_counted(ev, run, labels, sp, lf, n, val):
    root, path = lf.root, lf.path
    itv = mk('app', 'itv', 'u')

    def assign(i):
        ev.store[root] = set_path(ev.store[root], path, subst_keys(val, itv, i))

    def body(i):
        assign(i)
        m = len(ev.exits)
        run()
        for x in ev.exits[m:]:
            x.cond = simp_bool(x.cond)
        ev.live = simp_bool(ev.live)

    def counted_part():
        v = fresh('u', 'i')
        symbolic_n(ev, v, mk('range', n), body, labels, sp, lf)
        if ev.live is FALSE:
            return UNIT
        assign(n)
        run()                   # the last evaluation of the head leaves the loop
        return UNIT
    if nonneg(n):
        counted_part()
        ev.live = FALSE
        return
    z = le0(n)

    def none():
        run()
        return UNIT
    ev.ifelse(z, none, counted_part)
    ev.live = FALSE


def subst_keys(t, a, b):
    return subst(t, {a: b})


def symbolic_n(ev, v, src, body, labels, sp, lf0):
    n = isconst(src.a[0])
    if n is not None and n <= 40:
        for k in range(int(max(n, 0))):
            if ev.live is FALSE:
                return
            once(ev, const(k), body, labels)
        return
    symbolic(ev, v, src, TRUE, v, body, labels, sp)


# ---------------------------------------------------------------- unrolling a node
def comps(x):
    """the components shaped() numbers, in its order"""
    if x.op == 'gate' and not isnum(x):
        vs = set()

        def coll(y):
            if y.op == 'gate':
                coll(y.a[1])
                coll(y.a[2])
            else:
                vs.add(y)
        coll(x)
        vs = [y for y in vs if y is not UNDEF]
        if vs and all(y.op == 'variant' for y in vs):
            by = {}
            for y in vs:
                by.setdefault(y.a[1], y)
            out = [lambda z: variant_tag(z)]
            for vn in sorted(by):
                for i, q in enumerate(by[vn].a[2:]):
                    for f in comps(q):
                        out.append(lambda z, f=f, vn=vn, i=i: f(payload(z, vn, i)))
            return out
        return [lambda z: z]
    if x.op == 'variant':
        out = []
        for i, q in enumerate(x.a[2:]):
            for f in comps(q):
                out.append(lambda z, f=f, i=i, vn=x.a[1]: f(payload(z, vn, i)))
        return out
    if x.op in ('tuple', 'rec'):
        k = 1 if x.op == 'rec' else 0
        out = []
        for i, q in enumerate(x.a[k:]):
            for f in comps(q):
                out.append(lambda z, f=f, i=i: f(field(z, i)))
        return out
    return [lambda z: z]


def variant_tag(z):
    if z.op == 'gate':
        return gate(z.a[0], variant_tag(z.a[1]), variant_tag(z.a[2]))
    if z.op == 'variant':
        return mk('variant', z.a[0], z.a[1])
    return UNDEF


def unrolled(x, k):
    """the value of a loop's result x when it is decided within k iterations"""
    node, tag, sort = x.a[2], x.a[3], x.a[1]
    S, (src, inits, lam) = open_(node)
    n = None
    if src.op == 'range':
        n = isconst(src.a[0])
        if n is None:
            return None
        n = int(n)
    elif src.op != 'ever':
        return None
    v, (g, nexts, E) = open_(lam)
    obs = None
    if x.a[0] == 'atexit':
        _, (l2,) = open_(tag, S)
        _, (obs,) = open_(l2, v)
    sts = {y for t in (g, E) + nexts + ((obs,) if obs is not None else ()) for y in subterms(t) if y.op == 'app' and y.a[0] == 'st' and y.a[2] is S}
    if any(isconst(y.a[4]) != 0 for y in sts):
        return None
    state = list(inits)
    alive = TRUE
    total = k if n is None else min(n, k)
    ex = FALSE
    acc = []
    for it in range(total):
        m = {v: const(it)}
        for y in sts:
            m[y] = state[int(isconst(y.a[3]))]
        sb = lambda t: subst(t, m)
        gi = sb(g)
        e = AND(gi, sb(E))
        if obs is not None:
            acc.append((AND(alive, e), sb(obs)))
        ex = OR(ex, AND(alive, e))
        nxt = [sb(t) for t in nexts]
        state = [gate(AND(gi, NOT(e)), a, b) for a, b in zip(nxt, state)]
        alive = AND(alive, NOT(e))
    rest = mk('app', '?rest', sort, node, tag)
    done_ = n is not None and total == n
    if obs is None and tag == 'exited':
        return ex if done_ else OR(ex, AND(alive, atom(rest)))
    if obs is None:
        return state[int(tag.split('.')[1])] if done_ else rest
    r = UNDEF if done_ else (atom(rest) if sort == 'b' else rest)
    for c, y in reversed(acc):
        r = gate(c, y, r)
    return r
