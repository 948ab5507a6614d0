"""Shared analysis context: cached flows, CFG queries, child discovery, pretty printing."""
from .model import Model
from .flat import Flat, NODE_TRAITS
from .flow import Flow, BOT

NODE, UNIT = NODE_TRAITS


def pterm(t, d=0):
    if not isinstance(t, tuple) or not t:
        return str(t)
    if d > 7:
        return '…'
    k = t[0]
    p = lambda x: pterm(x, d + 1)
    if k == 'c':
        return str(t[1])
    if k == 'nc':
        return t[1].split('::')[-1] + ('<%s>' % ','.join(str(a[1]) for a in t[2]) if t[2] else '')
    if k == 'arg':
        return 'arg%d' % t[1]
    if k == 'ref':
        return '&' + ppath(t[1])
    if k == 'mem':
        return ppath(t[1]) + ('' if t[2] == 0 else "'")
    if k == 'bin':
        return '(%s %s %s)' % (p(t[2]), t[1], p(t[3]))
    if k == 'un':
        return '%s(%s)' % (t[1], p(t[2]))
    if k == 'cast':
        return '(%s as %s)' % (p(t[2]), t[3][1] if len(t) > 3 else '?')
    if k == 'agg':
        return '%s%s{%s}' % (str(t[1]).split('::')[-1], '::' + str(t[2]) if t[2] else '', ', '.join('%s:%s' % (n, p(v)) for n, v in t[4]))
    if k in ('pure', 'call'):
        return '%s(%s)' % (t[1].split('::')[-1] if k == 'pure' else t[2].split('::')[-1] + '#%s' % t[1], ', '.join(p(x) for x in t[3]))
    if k == 'at':
        return '*' + ppath(t[1])
    if k == 'phi':
        return 'phi%s[%s]' % (t[1], ppath(t[2]))
    if k == 'pj':
        return '%s.%s' % (p(t[1]), pproj(t[2]))
    if k == 'elem':
        return 'elem%s%s' % (t[1], ''.join(map(str, t[2])))
    if k == 'len':
        return 'len(%s)' % ppath(t[1])
    if k == 'ovr':
        return '{%s with %s}' % (p(t[1]), ', '.join('%s:%s' % ('.'.join(pproj(q) for q in r), p(v)) for r, v in t[2]))
    return '%s(%s)' % (k, ', '.join(p(x) if isinstance(x, tuple) else str(x) for x in t[1:]))


def pproj(e):
    if e == '*':
        return '*'
    if e[0] == 'f':
        return str(e[1])
    if e[0] == 'd':
        return 'as ' + str(e[1])
    if e[0] == 'i':
        return '[%s]' % pterm(e[1], 4)
    if e[0] == 'sub':
        return '[%s]' % '..'.join(pterm(x, 4) if isinstance(x, tuple) else str(x) for x in e[1])
    return str(e)


def ppath(p):
    r = p[0]
    if r[0] == 'P':
        s = 'self' if r[1] == 1 else '*arg%d' % r[1]
    elif r[0] == 'L':
        s = 'L%s_%s' % (r[1], r[2])
    elif r[0] in ('D', 'V'):
        s = '(*%s)' % pterm(r[1], 4)
    else:
        s = str(r)
    for e in p[1:]:
        if e != '*' and e[0] in ('i', 'sub'):
            s += pproj(e)
        else:
            s += '.' + pproj(e)
    return s


class An:
    """analysis of one root method"""
    def __init__(self, ctx, fn, subst, selfty, leaf=None, local=False):
        self.ctx = ctx
        self.fn = fn
        self.selfty = selfty
        self.F = Flat(ctx.M, fn, subst, leaf or ctx.mkleaf(selfty))
        self.W = Flow(self.F, local=local)
        self._loops = None
        self._reach = None

    @property
    def events(self):
        return self.W.events

    def calls(self, pred=None):
        return [e for e in self.W.events if e.kind == 'call' and (pred is None or pred(e))]

    # ---- CFG ----
    def succs(self, b):
        return self.F.succs(b)

    def blocks(self):
        return self.W.rpo

    def reach(self, start, removed=(), removed_edges=()):
        removed = set(removed)
        seen = set()
        if start in removed:
            return seen
        st = [start]
        seen.add(start)
        while st:
            b = st.pop()
            for s in self.succs(b):
                if s not in seen and s not in removed and (b, s) not in removed_edges:
                    seen.add(s)
                    st.append(s)
        return seen

    def coreach(self, targets):
        pr = self.W.preds
        seen = set(targets)
        st = list(targets)
        while st:
            b = st.pop()
            for p in pr.get(b, []):
                if p not in seen:
                    seen.add(p)
                    st.append(p)
        return seen

    def dominators(self):
        if hasattr(self, '_dom'):
            return self._dom
        rpo = self.W.rpo
        idx = {b: i for i, b in enumerate(rpo)}
        idom = {self.F.entry: self.F.entry}
        ch = True
        while ch:
            ch = False
            for b in rpo[1:]:
                ps = [p for p in self.W.preds[b] if p in idom]
                if not ps:
                    continue
                n = ps[0]
                for p in ps[1:]:
                    x, y = n, p
                    while x != y:
                        while idx[x] > idx[y]:
                            x = idom[x]
                        while idx[y] > idx[x]:
                            y = idom[y]
                    n = x
                if idom.get(b) != n:
                    idom[b] = n
                    ch = True
        self._dom = idom
        return idom

    def dominates(self, a, b):
        d = self.dominators()
        if b not in d:
            return False
        while True:
            if a == b:
                return True
            n = d[b]
            if n == b:
                return False
            b = n

    def loops(self):
        """natural loops: header -> set of blocks (merged per header)"""
        if self._loops is None:
            L = {}
            for b in self.W.rpo:
                for s in self.succs(b):
                    if self.dominates(s, b):
                        body = L.setdefault(s, {s})
                        st = [b]
                        while st:
                            x = st.pop()
                            if x in body:
                                continue
                            body.add(x)
                            st.extend(p for p in self.W.preds[x])
            self._loops = L
        return self._loops

    def loops_of(self, b):
        """headers of loops containing b, innermost first"""
        L = self.loops()
        hs = [h for h, body in L.items() if b in body]
        hs.sort(key=lambda h: len(L[h]))
        return hs

    def retblocks(self):
        return [self.F.ret] if self.F.ret in set(self.W.rpo) else []

    def where(self, e):
        fn = self.ctx.M.fns.get(e.fn)
        return '%s:%s' % (fn.file if fn else '?', e.line)


    def at(self):
        return '%s:%s' % (self.fn.file, self.fn.line)


class Ctx:
    def __init__(self, path):
        self.M = Model(path)
        self.path = path
        self._cache = {}

    def mkleaf(self, selfty):
        def leaf(F, fr, fo, fn, args, t):
            return fo.get('trait') in NODE_TRAITS and args[0] != selfty
        return leaf

    def method(self, trait, im, m):
        """flow of trait method m (override or default) of impl im; None if the trait has no body"""
        key = (trait, im['id'], m)
        if key in self._cache:
            return self._cache[key]
        r = self.M.trait_method(trait, m, im['trait_args'])
        a = None
        if r and r[0].has_body:
            a = An(self, r[0], r[1], im['self'])
        self._cache[key] = a
        return a

    def bufmethod(self, trait, im, m):
        """like method, with the operations of the buffer types kept as calls"""
        key = ('buf', trait, im['id'], m)
        if key not in self._cache:
            r = self.M.trait_method(trait, m, im['trait_args'])
            base = self.mkleaf(im['self'])
            leaf = lambda F, fr, fo, fn, args, t: base(F, fr, fo, fn, args, t) or (fo.get('rname') or fo['name']).startswith('buffer::')
            self._cache[key] = An(self, r[0], r[1], im['self'], leaf) if r and r[0].has_body else None
        return self._cache[key]

    def function(self, fid, leaf=None, selfty=None):
        key = ('fn', fid, bool(leaf))
        if key in self._cache:
            return self._cache[key]
        f = self.M.fns.get(fid)
        a = An(self, f, {}, selfty, leaf) if f and f.has_body else None
        self._cache[key] = a
        return a

    def rawfn(self, fid):
        """serialized MIR of a local function"""
        c = self._cache.get('rawfns')
        if c is None:
            c = self._cache['rawfns'] = {f['id']: f for f in self.M.raw['fns']}
        return c[fid]

    def internal(self, f):
        """private function that is only an intermediate step of its callers (they are analysed with it inlined)"""
        c = self._cache.get('called')
        if c is None:
            c = set()
            for r in self.M.raw['fns']:
                for b in (r.get('body') or {}).get('bb', []):
                    t = b['t']
                    if t[0] == 'call' and isinstance(t[1], dict) and 'fn' in t[1]:
                        k = t[1]['fn'].get('rid') or t[1]['fn'].get('id')
                        if k != r['id']:
                            c.add(k)
            self._cache['called'] = c
        return not f.pub and f.id in c

    def overridden(self, im, m):
        return m in im['items']

    def node_impls(self, units=True):
        r = [(NODE, i) for i in self.M.impls_by_trait.get(NODE, [])]
        if units:
            r += [(UNIT, i) for i in self.M.impls_by_trait.get(UNIT, [])]
        return r

    def tyname(self, im):
        t = im['self']
        return t[1].split('::')[-1] if t[0] == 'adt' else self.M.tname(t)
