"""Loads the typed-tree facts the driver wrote for the crates and answers questions about types, impls and bodies."""
import json
import os
import values as V


class Facts:
    def __init__(self, d):
        self.bodies = {}
        self.adts = {}
        self.impls = []
        self.traits = {}
        self.callees = {}
        self.files = {}
        self.crates = []
        self.errors = []
        self._raw = {}
        self._tm = {}
        for crate in ('financelib', 'laws'):
            p = os.path.join(d, crate + '.json')
            if not os.path.exists(p):
                continue
            with open(p) as f:
                j = json.load(f)
            self.crates.append(crate)
            self._raw[crate] = j['types']
            self.errors += j.get('errors', [])
            self.files[crate] = j['files']
            for b in j['bodies']:
                b['crate'] = crate
                self.bodies[b['k']] = b
            for a in j['adts']:
                self.adts[a['k']] = {'k': a['k'], 'n': a['n'], 'kind': a['kind'], 'g': a['g'], 'span': a['span'],
                                     'variants': [{'n': v['n'], 'fields': [{'n': f['n'], 'ty': self.ty(crate, f['ty'])} for f in v['fields']]} for v in a['variants']]}
            for i in j['impls']:
                i = dict(i, crate=crate, self=self.ty(crate, i['self']))
                i['tys'] = {}
                i['fns'] = {}
                for it in i['items']:
                    if it.get('ty') is not None and it['k'] not in self.bodies:
                        i['tys'][it['n']] = self.ty(crate, it['ty'])
                    i['fns'][it['n']] = it['k']
                i['targs'] = [self.ty(crate, t) if isinstance(t, int) else t for t in (i.get('trait_args') or [])]
                self.impls.append(i)
            for t in j['traits']:
                self.traits[t['k']] = t
        V.TypeInfo.adt = self.adts.get

    def ty(self, crate, i):
        key = (crate, i)
        r = self._tm.get(key)
        if r is None:
            r = self._tm[key] = self._ty(crate, self._raw[crate][i])
        return r

    def _ty(self, crate, t):
        if isinstance(t, str):
            return t
        k = t['t']
        tys = lambda l: tuple(self.ty(crate, x) if isinstance(x, int) else ('const', str(x)) for x in l)
        if k == 'adt':
            return ('adt', t['k'], t['n']) + tys(t['a'])
        if k == 'ref':
            return ('ref', t['m'], self.ty(crate, t['ty']))
        if k == 'tuple':
            return ('tuple',) + tys(t['a'])
        if k == 'array':
            return ('array', self.ty(crate, t['ty']), str(t.get('len')))
        if k == 'slice':
            return ('slice', self.ty(crate, t['ty']))
        if k == 'param':
            return ('param', t['name']) if 'name' in t else ('param', t.get('n'))
        if k == 'fn':
            f = t['f']
            if f['k'] not in self.callees:
                g = dict(f)
                if 'self' in g and isinstance(g['self'], int):
                    g['self'] = self.ty(crate, g['self'])
                self.callees[f['k']] = g
            return ('fn', f['k']) + tys(t['a'])
        if k == 'closure':
            return ('closure', t['k'])
        if k == 'alias':
            return ('alias', t.get('n'), t['k']) + tys(t['a'])
        return (k, json.dumps(t, sort_keys=True))

    # ------------------------------------------------------------ traits
    def unify(self, pat, ty, m):
        if pat == ty:
            return True
        if isinstance(pat, tuple) and pat and pat[0] == 'param':
            if pat[1] in m:
                return m[pat[1]] == ty
            m[pat[1]] = ty
            return True
        if isinstance(pat, tuple) and isinstance(ty, tuple) and pat and ty and pat[0] == ty[0] and len(pat) == len(ty):
            return all(self.unify(a, b, m) if isinstance(a, tuple) or isinstance(b, tuple) else a == b for a, b in zip(pat[1:], ty[1:]))
        return False

    def find_impl(self, trait_k, self_ty, targs=None):
        """(impl, generic bindings) of a local trait impl for self_ty (and the other arguments of the trait)"""
        found = []
        for i in self.impls:
            if i.get('trait') != trait_k:
                continue
            m = {}
            if self.unify(i['self'], self_ty, m):
                found.append((i, m))
        if len(found) > 1 and targs:
            for i, m in found:
                m = {}
                t = i.get('targs') or []
                if t and len(t) <= len(targs) and all(x is not None for x in targs[:len(t)]) and all(self.unify(a, b, m) for a, b in zip(t, targs)):
                    return i, m
        return found[0] if found else (None, None)

    def assoc(self, trait_k, name, self_ty):
        i, m = self.find_impl(trait_k, self_ty)
        if i and name in i['tys']:
            return V.tsubst(i['tys'][name], m)
        return None
