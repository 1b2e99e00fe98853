"""Structural rules on the typed trees of the library: effects and hash-order dependence (P32), serialization (P33).

A rule inspects every site of its kind in the current source and returns
{'rule', 'sites', 'violations': [{'construct', 'where', 'why'}], 'undecided': [...], 'detail'}."""
import re

SKIP = ('scope', 'never', 'use', 'coerce')


def kids(b, i):
    """Indices of the expressions directly below expression i (statements and arms of blocks included)."""
    e = b['exprs'][i]
    out = []

    def add(x):
        if isinstance(x, bool) or x is None:
            return
        if isinstance(x, int):
            out.append(x)
        elif isinstance(x, list):
            for y in x:
                add(y)
    k = e['k']
    if k == 'block':
        bl = b['blocks'][e['b']]
        for s in bl['stmts']:
            s = b['stmts'][s]
            if s['k'] == 'expr':
                add(s['e'])
            else:
                add(s['init'])
                if s.get('else') is not None:
                    out.extend(block_kids(b, s['else']))
        add(bl['expr'])
    elif k == 'match':
        add(e['e'])
        for a in e['arms']:
            a = b['arms'][a]
            add(a['guard'])
            add(a['body'])
    elif k == 'if':
        add([e['c'], e['t'], e['f']])
    elif k == 'adt':
        add([f['e'] for f in e['fs']])
        if isinstance(e['base'], int):
            add(e['base'])
    elif k == 'call':
        add([e['f']] + e['a'])
    elif k in ('bin', 'assign', 'assignop', 'logic'):
        add([e['l'], e['r']])
    elif k in ('tuple', 'array'):
        add(e['a'])
    elif k == 'closure':
        add(e['up'])
    elif k in ('lit', 'var', 'upvar', 'zst', 'static', 'const'):
        pass
    else:
        add(e.get('e'))
    return out


def block_kids(b, bi):
    bl = b['blocks'][bi]
    out = []
    for s in bl['stmts']:
        s = b['stmts'][s]
        x = s['e'] if s['k'] == 'expr' else s['init']
        if isinstance(x, int):
            out.append(x)
    if isinstance(bl['expr'], int):
        out.append(bl['expr'])
    return out


def walk(b, i):
    todo = [i]
    while todo:
        i = todo.pop()
        yield i
        todo.extend(reversed(kids(b, i)))


def strip(b, i, refs=True):
    while True:
        e = b['exprs'][i]
        if e['k'] in SKIP or refs and e['k'] in ('borrow', 'deref'):
            i = e['e']
        elif e['k'] == 'block' and not b['blocks'][e['b']]['stmts'] and b['blocks'][e['b']]['expr'] is not None:
            i = b['blocks'][e['b']]['expr']
        else:
            return e


def callee(F, b, e):
    """Key of the function a call goes to, with its type arguments."""
    if e['k'] != 'call':
        return None, ()
    f = strip(b, e['f'])
    if f['k'] == 'zst':
        t = F.ty(b['crate'], f['ty'])
        if t[0] == 'fn':
            return t[1], t[2:]
    return None, ()


def short(k):
    return re.sub(r'\{impl#\d+\}::', '', k)


def lit_str(e):
    return e['v'].get('str') if e['k'] == 'lit' and isinstance(e['v'], dict) else None


def pat_str(p):
    """The string a constant pattern matches."""
    while p and p['k'] == 'deref':
        p = p['sub']
    if p and p['k'] == 'const':
        m = re.search(r'ty: str, valtree: Branch\(\[([^\]]*)\]\)', p['v'].get('dbg', ''))
        if m:
            return bytes(int(x.split('_')[0]) for x in m.group(1).split(',') if x.strip()).decode('utf8', 'replace')
    return None


def own(F):
    return {k: b for k, b in F.bodies.items() if b['crate'] == 'financelib' and not b.get('test')}


# ------------------------------------------------------------------------------------------------ P33: serialization
PERSISTENT = ['Currency', 'BsType', 'PlType', 'CfType', 'FinOthersTyp', 'BalanceSheetEntry', 'Param', 'BalanceSheet', 'ProfitLoss', 'CashFlow',
              'FinOthers', 'FinancialReport', 'Accounts', 'Industry', 'CompanyReports', 'ValuationModel']


def serde_impls(F):
    ser, de = {}, {}
    for i in F.impls:
        if i['crate'] != 'financelib' or not isinstance(i['self'], tuple) or i['self'][0] != 'adt':
            continue
        t = (i.get('trait_n'), (i.get('trait') or '').split('::')[0])
        if t[0] == 'Serialize' and t[1].startswith('serde'):
            ser[i['self'][1]] = i
        if t[0] == 'Deserialize' and t[1].startswith('serde'):
            de[i['self'][1]] = i
    return ser, de


def serialization(F):
    r = dict(rule='every field and variant of a persistent type is written under its own name and read back from the same name into the same '
                  'place', sites=0, violations=[], undecided=[], detail='')
    ser, de = serde_impls(F)
    adts = {a['n']: a for a in F.adts.values() if a['k'].startswith('financelib') and '__' not in a['n']}
    names = [n for n in PERSISTENT if n in adts] + sorted(a['n'] for a in adts.values() if (a['k'] in ser or a['k'] in de) and a['n'] not in PERSISTENT)
    r['undecided'] += [f'type {n} is not in the crate' for n in PERSISTENT if n not in adts]

    def bad(a, what, why, where=None):
        r['violations'].append(dict(construct=f'{a["k"]}{what}', where=where or a['span'], why=why))
    for n in names:
        a = adts[n]
        if a['k'] not in ser or a['k'] not in de:
            bad(a, '', 'has no ' + ('Serialize' if a['k'] not in ser else 'Deserialize') + ' implementation')
            continue
        wr = written(F, a, F.bodies[ser[a['k']]['fns']['serialize']], r, bad)
        rd = read(F, a, de[a['k']], r, bad)
        items = [f['n'] for f in a['variants'][0]['fields']] if a['kind'] == 'struct' else [v['n'] for v in a['variants']]
        for x in items:
            r['sites'] += 2
            if wr is not None and x not in wr:
                bad(a, '.' + x, 'is not written: no call of the serializer for it')
            if rd is not None and x not in rd:
                bad(a, '.' + x, 'is not read back: no name of the input is mapped to it')
            if wr is not None and rd is not None and x in wr and x in rd and wr[x] not in rd[x]:
                bad(a, '.' + x, f'is written as "{wr[x]}" and read from "{", ".join(sorted(rd[x]))}"')
            if wr is not None and wr.get(x, x) != x:
                bad(a, '.' + x, f'is written as "{wr[x]}", not under its own name')
    r['detail'] = f'{len(names)} persistent types: ' + ', '.join(names)
    return r


def guarded(b, root, target):
    """Whether target is only evaluated under a condition of the body (an `if` or a match arm that is no `?`)."""
    def go(i, g):
        if i == target:
            return g
        e = b['exprs'][i]
        if e['k'] == 'if':
            for x, gg in ((e['c'], g), (e['t'], True), (e['f'], True)):
                if x is not None:
                    y = go(x, gg)
                    if y is not None:
                        return y
            return None
        for x in kids(b, i):
            inner = g
            if e['k'] == 'match' and x != e['e']:
                inner = True
            y = go(x, inner)
            if y is not None:
                return y
        return None
    return go(root, False)


def place(b, e):
    """A chain of fields from self: 'a.b' -> ['a', 'b']"""
    out = []
    while True:
        if e['k'] == 'field':
            out.append(e['n'])
            e = strip(b, e['e'])
        elif e['k'] in ('var', 'upvar'):
            return e['v'], out[::-1]
        else:
            return None, None


def written(F, a, b, r, bad):
    """name of the field or variant -> name it is written under"""
    out = {}
    if a['kind'] == 'struct':
        selfv = b['params'][0]['pat'].get('v')
        known = False
        for i in walk(b, b['root']):
            e = b['exprs'][i]
            k, _ = callee(F, b, e)
            if not k:
                continue
            n = k.split('::')[-1]
            if n == 'serialize_field' and 'SerializeStruct' in k:
                known = True
                name, val = lit_str(strip(b, e['a'][1])), strip(b, e['a'][2])
                v, path = place(b, val)
                if v == selfv and path and len(path) == 1:
                    if guarded(b, b['root'], i):
                        bad(a, '.' + path[0], 'is written only under a condition', e['sp'])
                    if name is None:
                        r['undecided'].append(f'{a["n"]}.{path[0]}: the name it is written under is computed')
                    if path[0] in out:
                        bad(a, '.' + path[0], f'is written twice, as "{out[path[0]]}" and "{name}"', e['sp'])
                    out[path[0]] = name
                else:
                    # a custom writer around a field, or a computed value
                    f = [x for x in walk(b, e['a'][2]) if b['exprs'][x]['k'] == 'field']
                    path = [place(b, b['exprs'][x])[1] for x in f if place(b, b['exprs'][x])[0] == selfv]
                    if path:
                        out[path[0][0]] = name
                        r['undecided'].append(f'{a["n"]}.{path[0][0]}: a custom writer is used')
                    elif name in [f['n'] for f in a['variants'][0]['fields']]:
                        bad(a, '.' + name, 'another value is written under its name', e['sp'])
                        out[name] = name
            elif n == 'skip_field':
                known = True
            elif n in ('serialize_map', 'serialize_seq', 'serialize_tuple_struct', 'serialize_newtype_struct', 'collect_map', 'collect_seq'):
                r['undecided'].append(f'{a["n"]}: written through {n}')
                return None
        if not known and a['variants'][0]['fields']:
            r['undecided'].append(f'{a["n"]}: its serialization is not field by field')
            return None
        return out
    tagged = False
    for i in walk(b, b['root']):
        e = b['exprs'][i]
        if e['k'] != 'match':
            continue
        for ar in e['arms']:
            ar = b['arms'][ar]
            p = ar['pat']
            while p['k'] == 'deref':
                p = p['sub']
            if p['k'] != 'variant' or p['adt'] != a['k']:
                continue
            tagged = True
            lits = []
            for x in walk(b, ar['body']):
                ex = b['exprs'][x]
                k, _ = callee(F, b, ex)
                if k and re.search(r'::serialize_(unit|newtype|tuple|struct)_variant$', k):
                    lits.append((lit_str(strip(b, ex['a'][3])), strip(b, ex['a'][2]), ex['sp']))
            if len(lits) == 1 and lits[0][0] is not None:
                if p['vn'] in out:
                    bad(a, '::' + p['vn'], 'is written in two ways', lits[0][2])
                out[p['vn']] = lits[0][0]
            elif not lits:
                if any('custom' in (callee(F, b, b['exprs'][x])[0] or '') for x in walk(b, ar['body'])):
                    bad(a, '::' + p['vn'], 'cannot be serialized: the writer returns an error for it')
                    out[p['vn']] = p['vn']
                else:
                    r['undecided'].append(f'{a["n"]}::{p["vn"]}: not written as a variant')
                    out[p['vn']] = p['vn']
    if not tagged:
        r['undecided'].append(f'{a["n"]}: its serialization is not variant by variant')
        return None
    dup = {}
    for v, s in out.items():
        if s in dup and s is not None:
            bad(a, '::' + v, f'is written as "{s}" like {dup[s]}')
        dup[s] = v
    return out


def read(F, a, impl, r, bad):
    """name of the field or variant -> set of the input names that reach it"""
    root = impl['fns']['deserialize']
    bodies = {k: b for k, b in F.bodies.items() if k.startswith(root + '::')}
    strs = [b for k, b in bodies.items() if k.endswith('::visit_str')]
    if len(strs) != 1:
        r['undecided'].append(f'{a["n"]}: its deserialization is not derived')
        return None
    b = strs[0]
    ident = {}                                     # generated field identifier -> input names
    for i in walk(b, b['root']):
        e = b['exprs'][i]
        if e['k'] == 'match':
            for ar in e['arms']:
                ar = b['arms'][ar]
                body = [b['exprs'][x] for x in walk(b, ar['body']) if b['exprs'][x]['k'] == 'adt' and b['exprs'][x]['adtn'] == '__Field']
                ps = ar['pat']['a'] if ar['pat']['k'] == 'or' else [ar['pat']]
                for p in ps:
                    s = pat_str(p)
                    if s is not None and len(body) == 1:
                        ident.setdefault(body[0]['vn'], set()).add(s)
    out = {}
    if a['kind'] != 'struct':
        for k, b in bodies.items():
            if not k.endswith('::visit_enum'):
                continue
            for i in walk(b, b['root']):
                e = b['exprs'][i]
                if e['k'] != 'match':
                    continue
                for ar in e['arms']:
                    ar = b['arms'][ar]
                    ids = pat_idents(ar['pat'])
                    made = {b['exprs'][x]['vn'] for x in walk(b, ar['body']) if b['exprs'][x]['k'] == 'adt' and b['exprs'][x]['adt'] == a['k']}
                    for x in walk(b, ar['body']):        # a constructor used as a function
                        t = F.ty(b['crate'], b['exprs'][x]['ty']) if b['exprs'][x]['k'] == 'zst' else ('',)
                        if t[0] == 'fn' and t[1].startswith(a['k'] + '::'):
                            made.add(t[1][len(a['k']) + 2:].split('::')[0])
                    if len(ids) == 1 and len(made) == 1:
                        out.setdefault(made.pop(), set()).update(ident.get(ids[0], set()))
        if not out and a['variants']:
            r['undecided'].append(f'{a["n"]}: its deserialization is not variant by variant')
            return None
        return out
    maps = [b for k, b in bodies.items() if k.endswith('::visit_map')]
    if len(maps) != 1:
        r['undecided'].append(f'{a["n"]}: its deserialization is not derived')
        return None
    b = maps[0]
    filled = {}                                    # local -> identifiers whose arm fills it
    for i in walk(b, b['root']):
        e = b['exprs'][i]
        if e['k'] == 'match':
            for ar in e['arms']:
                ar = b['arms'][ar]
                ids = pat_idents(ar['pat'])
                for x in walk(b, ar['body']):
                    ex = b['exprs'][x]
                    if ids and ex['k'] == 'assign':
                        l = strip(b, ex['l'])
                        if l['k'] == 'var':
                            filled.setdefault(l['v'], set()).update(ids)
    final, fallback = {}, {}                       # local after the loop -> local filled in the loop; name used when it is missing
    for s in b['stmts']:
        if s['k'] != 'let' or s['init'] is None or s['pat']['k'] != 'bind':
            continue
        e = strip(b, s['init'])
        if e['k'] != 'match':
            continue
        src = strip(b, e['e'])
        if src['k'] != 'var' or src['v'] not in filled:
            continue
        final[s['pat']['v']] = src['v']
        miss = 'default'
        for x in walk(b, s['init']):
            k, _ = callee(F, b, b['exprs'][x])
            if k and k.endswith('::missing_field'):
                miss = ('name', lit_str(strip(b, b['exprs'][x]['a'][0])))
        fallback[s['pat']['v']] = miss
    for i in walk(b, b['root']):
        e = b['exprs'][i]
        if e['k'] != 'adt' or e['adt'] != a['k']:
            continue
        for f in e['fs']:
            v = strip(b, f['e'])
            if v['k'] == 'var' and v['v'] in final:
                ns = set()
                for d in filled[final[v['v']]]:
                    ns |= ident.get(d, set())
                out[f['n']] = ns
                if fallback[v['v']] == 'default':
                    bad(a, '.' + f['n'], 'a missing value is silently replaced by a default when read')
            else:
                bad(a, '.' + f['n'], 'is not read from the input: a default takes its place')
                out[f['n']] = {f['n']}
    if not out and a['variants'][0]['fields']:
        r['undecided'].append(f'{a["n"]}: its deserialization is not field by field')
        return None
    return out


def pat_idents(p):
    """Generated field identifiers named in a pattern."""
    out = []

    def go(p):
        if isinstance(p, dict):
            if p.get('k') == 'variant' and p.get('adtn') == '__Field':
                out.append(p['vn'])
            for v in p.values():
                go(v)
        elif isinstance(p, list):
            for v in p:
                go(v)
    go(p)
    return out


# ------------------------------------------------------------------------------------------------ P32: effects
PURE = re.compile(r'^(core|alloc|chrono|lazy_static|serde_core|serde|std::collections|std::f64|std::f32|std::hash|std::path|num|itertools|ron|serde_json)\b')
IMPURE = [
    (r'^chrono::.*::(now|today)$|^std::time::|^core::time::.*::now$', 'reads the clock'),
    (r'^std::env::', 'reads the environment'),
    (r'^std::(fs|path::.*::(exists|is_file|is_dir|metadata|read_dir|canonicalize))', 'touches the file system'),
    (r'^std::(io|net|process)::', 'does input or output'),
    (r'^std::thread|^std::sync::|^core::sync::atomic|^std::panic', 'shares or keeps state outside its arguments'),
    (r'^(rand|fastrand|getrandom)\w*::', 'draws random numbers'),
    (r'^std::hash::random::|RandomState|::build_hasher$|::hash_one$', 'depends on the random hash seed'),
    (r'^core::ptr::(read|write|.*::(read|write|as_ref|as_mut|addr))|^core::mem::(transmute|forget)|::as_ptr$|::as_mut_ptr$|^alloc::boxed::.*::leak$|^core::ptr::.*addr',
     'works on memory or addresses outside the type system'),
    (r'^core::intrinsics|^core::hint::black_box', 'uses a compiler intrinsic'),
]
MACRO_OK = {'alloc::boxed::box_assume_init_into_vec_unsafe', 'alloc::intrinsics::write_box_via_move'}
SHARED = re.compile(r"'(?:core|std|alloc|once_cell)::(?:cell|sync|thread)[^']*::(?:Cell|RefCell|UnsafeCell|OnceCell|Mutex|RwLock|Atomic\w*|LocalKey)'")
# a static computed once, from nothing but constants, is a constant
ONCE = re.compile(r'^std::sync::lazy_lock::(.*::)?(new|force|deref)$|^(std::sync::once_lock|core::cell::once)::(.*::)?new$')
ONCE_INIT = re.compile(r'^(std::sync::once_lock|core::cell::once)::(.*::)?get_or_init$')


def captures_nothing(b, j):
    e = strip(b, j)
    return e['k'] == 'zst' or e['k'] == 'closure' and not e['up']


def writes_table(F, b, e):
    """Writing a file is the documented effect of a function when the file is one the caller names."""
    path = strip(b, e['a'][0])
    for _ in range(20):
        if path['k'] == 'call' and path['a']:
            path = strip(b, path['a'][0])
        elif path['k'] == 'var':
            d = [s['init'] for s in b['stmts'] if s['k'] == 'let' and s['pat'].get('v') == path['v'] and s['init'] is not None]
            if len(d) != 1:
                break
            path = strip(b, d[0])
    if path['k'] != 'var':
        return False
    ps = []

    def go(p):
        if isinstance(p, dict):
            if p.get('k') == 'bind':
                ps.append(p['v'])
            for v in p.values():
                go(v)
        elif isinstance(p, list):
            for v in p:
                go(v)
    for p in b['params']:
        go(p['pat'])
    return path['v'] in ps


def effects(F):
    r = dict(rule='no function of the library reaches the clock, the environment, randomness, input, output, threads, unsafe code or mutable '
                  'global state; a file is written only to a path the caller names', sites=0, violations=[], undecided=[], detail='')
    ext, fns, writes = set(), 0, 0
    for k, b in own(F).items():
        fns += 1
        for bl in b['blocks']:
            if bl['unsafe'] and not b['derived'] and bl['unsafe'] != 'builtin':
                r['violations'].append(dict(construct=k, where=b['span'], why='has an unsafe block'))
        calls = {}
        for i, e in enumerate(b['exprs']):
            if e['k'] == 'call':
                c, _ = callee(F, b, e)
                if c:
                    f = strip(b, e['f'])
                    calls[id(f)] = e
        for i, e in enumerate(b['exprs']):
            if e['k'] == 'static':
                r['sites'] += 1
                t = str(F.ty(b['crate'], e['ty']))
                if e['mut']:
                    r['violations'].append(dict(construct=k, where=e['sp'], why=f'uses the mutable static {e["def"]}'))
                elif SHARED.search(t):
                    r['violations'].append(dict(construct=k, where=e['sp'], why=f'uses {e["def"]}, a static with interior mutability'))
                continue
            if e['k'] != 'zst':
                continue
            t = F.ty(b['crate'], e['ty'])
            if t[0] != 'fn' or F.callees.get(t[1], {}).get('cr') == 'financelib':
                continue
            r['sites'] += 1
            c = t[1]
            ext.add(c)
            if c in MACRO_OK:
                continue
            if c.startswith('std::fs::write') and id(e) in calls and writes_table(F, b, calls[id(e)]):
                writes += 1
                continue
            if ONCE.match(c) or ONCE_INIT.match(c) and id(e) in calls and captures_nothing(b, calls[id(e)]['a'][1]):
                continue
            why = next((w for p, w in IMPURE if re.search(p, c)), None)
            if why and not b['derived']:
                r['violations'].append(dict(construct=k, where=e['sp'], why=f'{why}: calls {short(c)}'))
            elif not PURE.match(c):
                r['undecided'].append(f'{k}: calls {c}, of which nothing is known')
    for k, b in own(F).items():
        if b['kind'].startswith('Static'):
            r['sites'] += 1
            t = str(F.ty(b['crate'], b['ret'])) if isinstance(b['ret'], int) else ''
            if 'mutability: Mut' in b['kind'] or SHARED.search(t):
                r['violations'].append(dict(construct=k, where=b['span'], why='is global state that can change'))
    r['detail'] = f'{fns} bodies; {len(ext)} distinct functions of other crates called; {writes} documented file writes'
    return r


# ------------------------------------------------------------------------------------------------ P32: hash order
HASHED = re.compile(r"^\('adt', 'std::collections::hash::(map|set)::(HashMap|HashSet)'")
LISTING = re.compile(r"^std::collections::hash::(map|set)::.*::(iter|iter_mut|keys|values|values_mut|into_keys|into_values|drain|extract_if|union|"
                     r"intersection|difference|symmetric_difference|into_iter)$")
VISITING = re.compile(r"^std::collections::hash::(map|set)::.*::retain$")
THROUGH = {'map', 'filter', 'filter_map', 'flat_map', 'flatten', 'cloned', 'copied', 'inspect', 'into_iter', 'iter', 'by_ref', 'chain'}
SAFE_SINK = {'all', 'any', 'count', 'len', 'is_empty', 'contains'}
ORDERED_SINK = {'last', 'nth', 'find', 'find_map', 'position', 'fold', 'try_fold', 'reduce', 'zip', 'enumerate', 'take', 'skip', 'take_while', 'skip_while',
                'map_while', 'step_by', 'scan', 'windows', 'chunks', 'peekable', 'rev', 'max_by', 'min_by', 'max_by_key', 'min_by_key', 'partition',
                'cmp', 'partial_cmp', 'eq', 'lt'}
UNORDERED = re.compile(r"'(HashMap|BTreeMap|HashSet|BTreeSet)'")
INTS = {'u8', 'u16', 'u32', 'u64', 'u128', 'usize', 'i8', 'i16', 'i32', 'i64', 'i128', 'isize', 'bool'}
PUSHING = {'push', 'push_str', 'push_back', 'push_front', 'extend', 'extend_from_slice', 'append', 'write_fmt', 'write_str'}
SORTS = {'sort', 'sort_by', 'sort_by_key', 'sort_unstable', 'sort_unstable_by', 'sort_unstable_by_key', 'sort_by_cached_key', 'total_cmp'}


def parents(b):
    up = {}
    for i in range(len(b['exprs'])):
        for j in kids(b, i):
            up[j] = i
    return up


def hash_order(F):
    r = dict(rule='nothing that is computed depends on the order in which a hash map or set lists its entries', sites=0, violations=[], undecided=[],
             detail='')
    for k, b in own(F).items():
        if b['derived'] or '::_' in k and '::_::' in k + '::' and 'deserialize' in k:
            continue
        if b['root'] is None:
            continue
        up = parents(b)
        for i, e in enumerate(b['exprs']):
            c, ta = callee(F, b, e)
            if not c:
                continue
            hashed = False
            if LISTING.match(c):
                hashed = True
            elif c.split('::')[-1] == 'into_iter' and ta:
                t = str(ta[0])
                while t.startswith("('ref'"):
                    t = t[t.index(', ', 9) + 2:-1]
                hashed = bool(HASHED.match(t))
            elif VISITING.match(c):
                r['sites'] += 1
                visitor(F, b, k, e['a'][1], r, e['sp'], None)
                continue
            elif c.split('::')[-1] in ('extend', 'from_iter') and any(HASHED.match(str(x).replace("('ref', False, ", '')) for x in ta[1:]):
                r['sites'] += 1
                if not UNORDERED.search(str(ta[0])[:80]):
                    r['violations'].append(dict(construct=k, where=e['sp'], why='lists the entries of a hash map into a sequence'))
                continue
            if hashed:
                r['sites'] += 1
                consumer(F, b, k, i, up, r)
    r['detail'] = f'{r["sites"]} places where the entries of a hash map are visited'
    return r


def consumer(F, b, k, i, up, r):
    """Follows the listing upwards through adapters to what consumes it."""
    at = b['exprs'][i]['sp']

    def bad(why):
        r['violations'].append(dict(construct=k, where=at, why=why))
    while True:
        p = up.get(i)
        if p is None:
            r['undecided'].append(f'{k} at {at}: the listing of a hash map leaves the function')
            return
        e = b['exprs'][p]
        if e['k'] in SKIP or e['k'] in ('borrow', 'deref'):
            i = p
            continue
        if e['k'] == 'call':
            c, ta = callee(F, b, e)
            n = (c or '?').split('::')[-1]
            if n in THROUGH and e['a'] and i == e['a'][0]:
                for a in e['a'][1:]:
                    visitor(F, b, k, a, r, at, None)
                i = p
                continue
            if n in SAFE_SINK:
                return
            if n == 'for_each':
                visitor(F, b, k, e['a'][1], r, at, None)
                return
            if n in ('collect', 'from_iter', 'extend'):
                t = str(F.ty(b['crate'], e['ty'])) if n != 'extend' else str(ta[0])
                if UNORDERED.search(t[:90]):
                    return
                if sorted_later(F, b, p, up):
                    return
                bad('collects the entries of a hash map, in their order, into ' + ('a text' if 'String' in t[:60] else 'a sequence') + ' that is not sorted')
                return
            if n in ('sum', 'product'):
                if str(F.ty(b['crate'], e['ty'])) in INTS:
                    return
                bad(f'the {n} of floating-point numbers rounds differently for every order of a hash map')
                return
            if n in ('max', 'min'):
                return
            if n in ORDERED_SINK or n == 'next' and not in_for(b, p, up):
                bad(f'{n} depends on the order of a hash map')
                return
            r['undecided'].append(f'{k} at {at}: the entries of a hash map go to {short(c or "an unknown function")}')
            return
        if e['k'] == 'match' and i == e['e'] or e['k'] == 'match':
            # the desugared for loop: match into_iter(x) { mut iter => loop { match next(&mut iter) {...} } }
            for a in e['arms']:
                for x in walk(b, b['arms'][a]['body']):
                    if b['exprs'][x]['k'] == 'loop':
                        loop_body(F, b, k, x, r, at)
                        return
        if e['k'] == 'block' or e['k'] in ('if', 'tuple', 'adt'):
            r['undecided'].append(f'{k} at {at}: the listing of a hash map is stored')
            return
        r['undecided'].append(f'{k} at {at}: the entries of a hash map go to an expression that is not followed')
        return


def in_for(b, i, up):
    return any(b['exprs'][x]['k'] == 'loop' for x in chain(i, up))


def chain(i, up):
    while i in up:
        i = up[i]
        yield i


def sorted_later(F, b, p, up):
    """The collected sequence is bound to a name on which a sort is called."""
    top = p
    while top in up and b['exprs'][up[top]]['k'] in SKIP:
        top = up[top]
    for s in b['stmts']:
        if s['k'] == 'let' and s['init'] == top and s['pat']['k'] == 'bind':
            v = s['pat']['v']
            for e in b['exprs']:
                c, _ = callee(F, b, e)
                if c and c.split('::')[-1] in SORTS:
                    if any(b['exprs'][x].get('v') == v for x in walk(b, e['a'][0])):
                        return True
    return False


def visitor(F, b, k, i, r, at, _):
    """A closure called once per entry in hash order must not accumulate."""
    e = strip(b, i)
    if e['k'] == 'closure':
        cb = F.bodies.get(e['def'])
        if cb is None or cb['root'] is None:
            return
        accumulate(F, cb, cb['root'], k, r, at, bound_in(cb, cb['root']))


def bound_in(b, root):
    out = set()

    def go(p):
        if isinstance(p, dict):
            if p.get('k') == 'bind':
                out.add(p['v'])
            for v in p.values():
                go(v)
        elif isinstance(p, list):
            for v in p:
                go(v)
    for i in walk(b, root):
        e = b['exprs'][i]
        if e['k'] == 'match':
            for a in e['arms']:
                go(b['arms'][a]['pat'])
        if e['k'] == 'let':
            go(e['pat'])
        if e['k'] == 'block':
            for s in b['blocks'][e['b']]['stmts']:
                s = b['stmts'][s]
                if s['k'] == 'let':
                    go(s['pat'])
    return out


def loop_body(F, b, k, i, r, at):
    accumulate(F, b, i, k, r, at, bound_in(b, i))


def accumulate(F, b, root, k, r, at, local):
    """Writes of a visit in hash order to what outlives it: entries of keyed collections and integer counts do not depend on the order."""
    def outer(x):
        x = strip(b, x)
        while x['k'] in ('field',):
            x = strip(b, x['e'])
        return x['v'] if x['k'] in ('var', 'upvar') and x['v'] not in local else None
    for i in walk(b, root):
        e = b['exprs'][i]
        if e['k'] in ('assignop', 'assign'):
            v = outer(e['l'])
            if v is None:
                continue
            t = str(F.ty(b['crate'], b['exprs'][e['l']]['ty']))
            if e['k'] == 'assignop':
                if t in INTS:
                    continue
                r['violations'].append(dict(construct=k, where=e['sp'], why=f'accumulates {t} values in the order of a hash map'))
            else:
                rhs = strip(b, e['r'])
                if rhs['k'] == 'lit':
                    continue
                uses = any(b['exprs'][x].get('v') == v for x in walk(b, e['r']))
                if uses and t not in INTS:
                    r['violations'].append(dict(construct=k, where=e['sp'], why=f'accumulates {t} values in the order of a hash map'))
                else:
                    r['undecided'].append(f'{k} at {e["sp"]}: a variable is assigned while a hash map is visited')
        c, ta = callee(F, b, e)
        if c and c.split('::')[-1] in ('add_assign', 'sub_assign', 'mul_assign', 'div_assign') and e['a'] and outer(e['a'][0]) is not None:
            if str(ta[0]) not in INTS:
                r['violations'].append(dict(construct=k, where=e['sp'], why=f'accumulates {ta[0]} values in the order of a hash map'))
        if c and c.split('::')[-1] in PUSHING and e['a']:
            v = outer(e['a'][0])
            if v is not None and not UNORDERED.search(str(F.ty(b['crate'], b['exprs'][e['a'][0]]['ty']))[:100]):
                ok = False
                for x in b['exprs']:
                    c2, _ = callee(F, b, x)
                    if c2 and c2.split('::')[-1] in SORTS and any(b['exprs'][y].get('v') == v for y in walk(b, x['a'][0])):
                        ok = True
                if not ok:
                    r['violations'].append(dict(construct=k, where=e['sp'], why='appends in the order of a hash map'))


def run(F, prop):
    return [f(F) for f in RULES.get(prop, [])]


RULES = {"P32": [effects, hash_order], "P33": [serialization]}
