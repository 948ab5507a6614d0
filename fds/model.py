"""Program model: loads the JSON dump of the type-checked crate and answers
questions about types, impls and methods."""
import json
from functools import lru_cache


class Fn:
    __slots__ = ('id', 'name', 'kind', 'parent', 'generics', 'bounds', 'file', 'line', 'pub', 'inputs',
                 'output', 'unsafe', 'm', 'args', 'locals', 'vars', 'bb', 'prom', 'has_body')


class Model:
    def __init__(self, path):
        d = json.load(open(path))
        self.raw = d
        self.T = d['types']
        self._ty = {}
        self.adts = {}
        self.adt_by_id = {}
        for a in d['adts']:
            a = dict(a)
            a['variants'] = [(vn, [(fn_, self.ty(t), pub) for fn_, t, pub in fs]) for vn, fs in a['variants']]
            a['bounds'] = [(self.ty(t), tr) for t, tr in a['bounds']]
            self.adts[a['name']] = a
        self.impls = []
        self.impls_by_trait = {}
        self.impl_of_fn = {}
        for i in d['impls']:
            i = dict(i)
            i['self'] = self.ty(i['self'])
            i['trait_args'] = tuple(self.garg(a) for a in i['trait_args'])
            i['bounds'] = [(self.ty(t), tr) for t, tr in i['bounds']]
            i['types'] = {k: self.ty(v) for k, v in i['types'].items()}
            self.impls.append(i)
            if i['trait']:
                self.impls_by_trait.setdefault(i['trait'], []).append(i)
            for m, fid in i['items'].items():
                self.impl_of_fn[fid] = (i, m)
        self.traits = {t['name']: t for t in d['traits']}
        self.trait_of_fn = {}
        for t in d['traits']:
            for m, (fid, hd) in t['items'].items():
                self.trait_of_fn[fid] = (t, m)
        self.fns = {}
        for f in d['fns']:
            g = Fn()
            g.id = f['id']; g.name = f['name']; g.kind = f['kind']; g.parent = f['parent']
            g.generics = f['generics']; g.file = f['file']; g.line = f['line']
            g.bounds = [(self.ty(t), tr) for t, tr in f['bounds']]
            g.pub = f.get('pub', False); g.unsafe = f.get('unsafe', False); g.m = f.get('m')
            g.inputs = [self.ty(t) for t in f.get('inputs', [])]
            g.output = self.ty(f['output']) if 'output' in f else None
            b = f.get('body')
            g.has_body = bool(b)
            if b:
                g.args = b['args']; g.locals = [self.ty(t) for t in b['locals']]; g.vars = b['vars']; g.bb = b['bb']
                g.prom = f.get('prom') or []
            self.fns[g.id] = g
        self.aliases = d['aliases']
        self.nodes = d['nodes']

    # ---- types -------------------------------------------------------
    def garg(self, a):
        if isinstance(a, list):
            return ('const', a[1])
        return self.ty(a)

    def ty(self, i):
        r = self._ty.get(i)
        if r is not None:
            return r
        t = self.T[i]
        k = t[0]
        if k == 'adt':
            r = ('adt', t[1], tuple(self.garg(a) for a in t[2]))
        elif k in ('param', 'prim', 'dyn', 'other'):
            r = (k, t[1])
        elif k in ('ref', 'ptr'):
            r = (k, t[1], self.ty(t[2]))
        elif k == 'tuple':
            r = ('tuple', tuple(self.ty(x) for x in t[1]))
        elif k == 'array':
            r = ('array', self.ty(t[1]), t[2])
        elif k == 'slice':
            r = ('slice', self.ty(t[1]))
        elif k == 'closure':
            r = ('closure', t[1], tuple(self.ty(x) for x in t[2]), tuple(self.garg(x) for x in t[3]))
        elif k == 'fndef':
            r = ('fndef', t[1], t[2])
        elif k in ('alias', 'opaque'):
            r = (k, t[1], tuple(self.garg(x) for x in t[2]))
        else:
            r = tuple(t) if all(not isinstance(x, list) for x in t) else ('other', str(t))
        self._ty[i] = r
        return r

    def subst(self, t, s):
        if not s:
            return t
        return self._subst(t, s)

    def _subst(self, t, s):
        k = t[0]
        if k == 'param':
            return s.get(t[1], t)
        if k in ('prim', 'dyn', 'other', 'const', 'fndef'):
            if k == 'const' and isinstance(t[1], str):
                for n, v in s.items():
                    if t[1].split('/')[0] == n and v[0] == 'const':
                        return v
            return t
        if k == 'adt':
            return ('adt', t[1], tuple(self._subst(a, s) for a in t[2]))
        if k in ('ref', 'ptr'):
            return (k, t[1], self._subst(t[2], s))
        if k == 'tuple':
            return ('tuple', tuple(self._subst(a, s) for a in t[1]))
        if k == 'array':
            n = t[2]
            if isinstance(n, str):
                v = s.get(n.split('/')[0])
                if v and v[0] == 'const':
                    n = v[1]
            return ('array', self._subst(t[1], s), n)
        if k == 'slice':
            return ('slice', self._subst(t[1], s))
        if k == 'closure':
            return ('closure', t[1], tuple(self._subst(a, s) for a in t[2]), tuple(self._subst(a, s) for a in t[3]))
        if k in ('alias', 'opaque'):
            return self.norm((k, t[1], tuple(self._subst(a, s) for a in t[2])))
        return t

    def norm(self, t):
        if t[0] == 'alias' and '::' in t[1]:
            tr, _, n = t[1].rpartition('::')
            im = self.find_impl(tr, t[2])
            if im:
                i, s = im
                if n in i['types']:
                    return self.subst(i['types'][n], s)
        return t

    def unify(self, pat, t, s, params):
        if pat[0] == 'param' and pat[1] in params:
            if pat[1] in s:
                return s[pat[1]] == t
            s[pat[1]] = t
            return True
        if pat[0] == 'const' and t[0] == 'const' and isinstance(pat[1], str) and pat[1].split('/')[0] in params:
            s[pat[1].split('/')[0]] = t
            return True
        if pat[0] != t[0]:
            return False
        k = pat[0]
        if k == 'adt':
            return pat[1] == t[1] and len(pat[2]) == len(t[2]) and all(
                self.unify(a, b, s, params) for a, b in zip(pat[2], t[2]))
        if k in ('ref', 'ptr'):
            return pat[1] == t[1] and self.unify(pat[2], t[2], s, params)
        if k == 'tuple':
            return len(pat[1]) == len(t[1]) and all(self.unify(a, b, s, params) for a, b in zip(pat[1], t[1]))
        if k == 'array':
            if isinstance(pat[2], str) and pat[2].split('/')[0] in params:
                s[pat[2].split('/')[0]] = ('const', t[2])
            elif pat[2] != t[2]:
                return False
            return self.unify(pat[1], t[1], s, params)
        if k == 'slice':
            return self.unify(pat[1], t[1], s, params)
        if k == 'alias':
            return pat == t
        return pat == t

    def find_impl(self, trait, targs):
        key = (trait, tuple(targs))
        c = getattr(self, '_ficache', None)
        if c is None:
            c = self._ficache = {}
        if key in c:
            return c[key]
        c[key] = None
        res = []
        for i in self.impls_by_trait.get(trait, []):
            s = {}
            ps = set(i['generics'])
            if len(i['trait_args']) != len(targs):
                continue
            if all(self.unify(a, b, s, ps) for a, b in zip(i['trait_args'], targs)):
                if i['self'][0] == 'param' and not self._bounds_ok(i, s):
                    continue
                res.append((i, s))
        if len(res) == 1:
            c[key] = res[0]
        elif len(res) > 1:
            res2 = [r for r in res if r[0]['self'][0] != 'param']
            c[key] = res2[0] if len(res2) == 1 else None
        return c[key]

    def _bounds_ok(self, i, s):
        for t, tr in i['bounds']:
            if t[0] == 'param' and tr in self.traits:
                st = s.get(t[1])
                if st is None or st[0] in ('param', 'alias', 'opaque'):
                    return False
                if not any(self.unify(j['self'], st, {}, set(j['generics'])) and j['self'][0] != 'param'
                           for j in self.impls_by_trait.get(tr, [])):
                    return False
        return True

    def trait_method(self, trait, m, targs):
        """Resolve trait method on concrete args -> (fn, subst) or None."""
        im = self.find_impl(trait, targs)
        if im is None:
            return None
        i, s = im
        if m in i['items']:
            f = self.fns.get(i['items'][m])
            return (f, dict(s)) if f else None
        t = self.traits.get(trait)
        if t and m in t['items'] and t['items'][m][1]:
            f = self.fns.get(t['items'][m][0])
            if f:
                g = dict(zip(f.generics, targs))
                return f, g
        return None

    def impl_methods(self, trait):
        return self.impls_by_trait.get(trait, [])

    # ---- convenience ---------------------------------------------------
    def tname(self, t):
        k = t[0]
        if k == 'adt':
            n = t[1].split('::')[-1]
            return n + ('<' + ','.join(self.tname(a) for a in t[2]) + '>' if t[2] else '')
        if k in ('param', 'prim', 'dyn', 'other'):
            return str(t[1])
        if k == 'ref':
            return '&' + ('mut ' if t[1] else '') + self.tname(t[2])
        if k == 'ptr':
            return '*' + self.tname(t[2])
        if k == 'tuple':
            return '(' + ','.join(map(self.tname, t[1])) + ')'
        if k == 'array':
            return '[%s;%s]' % (self.tname(t[1]), t[2])
        if k == 'slice':
            return '[%s]' % self.tname(t[1])
        if k == 'alias':
            return '<%s as %s>' % (','.join(map(self.tname, t[2])), t[1])
        if k == 'const':
            return str(t[1])
        return str(t[1])

    def fields(self, t):
        """fields of a struct type, substituted: list of (name, type)."""
        if t[0] == 'adt' and t[1] in self.adts:
            a = self.adts[t[1]]
            s = dict(zip(a['generics'], t[2]))
            if a['kind'] == 'Struct':
                return [(n, self.subst(ft, s)) for n, ft, _ in a['variants'][0][1]]
        return []

    def variants(self, t):
        if t[0] == 'adt' and t[1] in self.adts:
            a = self.adts[t[1]]
            s = dict(zip(a['generics'], t[2]))
            return [(vn, [(n, self.subst(ft, s)) for n, ft, _ in fs]) for vn, fs in a['variants']]
        return []
