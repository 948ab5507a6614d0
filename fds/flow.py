"""Forward dataflow over a flat CFG in a value-numbering term domain.

Terms (hashable tuples):
  ('c', v)              constant           ('nc', path, targs)  named constant
  ('arg', n)            root argument      ('ref', path)        pointer to memory path
  ('mem', path, ver)    memory content     ('bin', op, a, b) ('un', op, a) ('cast', k, a, ty)
  ('agg', kind, variant, idx, ((name, t), ...))
  ('pure', name, targs, args)              result of a call without mutable arguments
  ('call', site, name, args)               result of an effectful call
  ('phi', block, path)  join               ('pj', t, proj)      projection of an opaque term
  ('iter', ...)         iterator models    ('elem', site, k)    element / index of an iteration
  ('optn', site, payload)                  result of Iterator::next
  ('len', path)         container length   ('gen', site)        array built by a closure
Paths: (root, proj, ...) with root ('P', n) pointee of root argument n, ('L', frame, local),
('D', term) pointee of an opaque pointer, ('PROM', fn, i); proj ('f', name), ('d', variant), ('i', term), '*'.
"""
import sys
sys.setrecursionlimit(20000)

BOT = ('bot',)


def lastname(n):
    return n.rsplit('::', 1)[-1]


class Event:
    __slots__ = ('kind', 'blk', 'path', 'val', 'call', 'args', 'line', 'fn', 'frame', 'extra', 'idx', 'snap')

    def __repr__(self):
        return 'Ev(%s %s %s @%s:%s)' % (self.kind, self.path if self.path else (self.call.name if self.call else ''), self.val, self.fn, self.line)


class Flow:
    def __init__(self, flat, init=None, local=False):
        self.F = flat
        self.local = local      # also report writes to local variables
        self.M = flat.M
        self.phis = {}
        self.elem = {}      # site -> iter term
        self.genbody = {}   # site -> term
        self.rooty = {}
        self.refined = {}
        self.instate = {}
        self.incomplete = False
        self.cur = None
        self.init = dict(init or {})
        fn = flat.root
        fr = flat.rootframe
        st = {}
        for i in range(1, fn.args + 1):
            t = self.M.subst(fn.locals[i], fr.subst)
            if t[0] in ('ref', 'ptr'):
                st[(('L', fr.id, i),)] = ('ref', (('P', i),))
            else:
                st[(('L', fr.id, i),)] = ('arg', i)
        st.update(self.init)
        self.run(st)

    # ------------------------------------------------------------ store
    def project(self, t, pr):
        k = t[0]
        if t == BOT:
            return BOT
        if k == 'agg':
            if pr[0] == 'f':
                for n, v in t[4]:
                    if n == pr[1]:
                        return v
                return ('pj', t, pr)
            if pr == '*' and t[1] == 'box':
                return t[4][0][1]
            if pr[0] == 'd':
                return t
            if pr[0] == 'i' and t[1] == 'array':
                if pr[1][0] == 'c' and isinstance(pr[1][1], int) and 0 <= pr[1][1] < len(t[4]):
                    return t[4][pr[1][1]][1]
                return ('pj', t, pr)
            return ('pj', t, pr)
        if k == 'mem':
            return ('mem', t[1] + (pr,), t[2])
        if k == 'ovr':
            for rel, v in t[2]:
                if rel[0] == pr:
                    sub = [(r[1:], x) for r, x in t[2] if r[0] == pr and len(r) > 1]
                    exact = [x for r, x in t[2] if r == (pr,)]
                    base = exact[0] if exact else self.project(t[1], pr)
                    if sub:
                        return ('ovr', base, tuple(sub))
                    return base
            if pr[0] == 'd':
                return t
            return self.project(t[1], pr)
        if k in ('optn', 'optref') and len(t) > 2:
            if pr[0] == 'd':
                return t
            if pr[0] == 'f' and pr[1] == '0':
                return t[2]
        if k == 'repeat' and pr[0] == 'i':
            return t[1]
        if k == 'gen' and pr[0] == 'i':
            return ('pj', t, pr)
        if k == 'pj' and pr[0] == 'd':
            return ('pj', t, pr)
        return ('pj', t, pr)

    def read(self, st, path):
        # longest prefix
        n = len(path)
        base = None
        for k in range(n, 0, -1):
            v = st.get(path[:k])
            if v is not None:
                base = v
                for pr in path[k:]:
                    base = self.project(base, pr)
                break
        if base is None:
            r = path[0]
            if r[0] == 'L':
                base = BOT
            elif r[0] == 'PROM':
                base = self.promoted(r)
                for pr in path[1:]:
                    base = self.project(base, pr)
            else:
                base = ('mem', path, 0)
        # finer keys
        fin = self.finer(st, path)
        if fin:
            over = tuple(sorted(((p[n:], st[p]) for p in fin), key=lambda x: (len(x[0]), repr(x[0]))))
            if base == BOT:
                base = ('mem', path, 0)
            return ('ovr', base, over)
        return base

    def finer(self, st, path):
        n = len(path)
        return [p for p in st if len(p) > n and p[:n] == path]

    def mayalias(self, a, b):
        """paths a and b (same root): could they overlap? returns 'no' or 'maybe'"""
        for x, y in zip(a, b):
            if x == y:
                continue
            if isinstance(x, tuple) and isinstance(y, tuple) and x[0] == 'i' and y[0] == 'i':
                if x[1][0] == 'c' and y[1][0] == 'c':
                    return False
                continue
            return False
        return True

    def write(self, st, path, val):
        for p in self.finer(st, path):
            del st[p]
        if any(isinstance(x, tuple) and x[0] == 'i' for x in path):
            # indexed write: kill entries that may alias
            for p in list(st):
                if p != path and p[0] == path[0] and any(isinstance(x, tuple) and x[0] == 'i' for x in p) and self.mayalias(p, path):
                    k = next(i for i, x in enumerate(p) if isinstance(x, tuple) and x[0] == 'i')
                    if k < len(path) and path[:k] == p[:k]:
                        del st[p]
            k = next(i for i, x in enumerate(path) if isinstance(x, tuple) and x[0] == 'i')
            b = path[:k]
            st[b] = ('mem', b, ('w', self.cur))
        if val[0] == 'ovr':
            st[path] = val[1]
            for rel, v in val[2]:
                st[path + rel] = v
        else:
            st[path] = val

    def havoc(self, st, path, site):
        for p in self.finer(st, path):
            del st[p]
        st[path] = ('mem', path, ('h', site))
        if any(isinstance(x, tuple) and x[0] == 'i' for x in path):
            k = next(i for i, x in enumerate(path) if isinstance(x, tuple) and x[0] == 'i')
            for p in list(st):
                if p != path and p[:k] == path[:k] and len(p) > k and self.mayalias(p, path):
                    del st[p]

    def promoted(self, r):
        fn = self.M.fns[r[1]]
        b = fn.prom[r[2]]
        class FR:
            pass
        # promoted bodies: straight line, evaluate in an isolated state
        fr = self.F.rootframe
        st = {}
        vals = {}
        M = self.M
        f2 = type('F', (), {})()
        f2.id = ('prom', r[1], r[2])
        f2.subst = {}
        f2.fn = fn
        for bb in b['bb']:
            for s in bb['s']:
                if s[0] == '=':
                    try:
                        v = self.rvalue(st, f2, s[2], None)
                        p = self.path(st, f2, s[1])
                        if p is not None:
                            self.write(st, p, v)
                    except Exception:
                        pass
            if bb['t'][0] == 'call':
                return ('pure', 'promoted', r[1:], ())
        v = st.get((('L', f2.id, 0),), ('mem', (r,), 0))
        # resolve references into promoted locals
        if v[0] == 'ref' and v[1][0][0] == 'L' and v[1][0][1] == f2.id:
            return ('refval', self.read(st, v[1]))
        return v

    # ------------------------------------------------------------ places
    def deref(self, st, v):
        if v[0] == 'ref':
            return v[1]
        if v[0] == 'refval':
            return (('V', v[1]),)
        if v[0] == 'mem' and False:
            return v[1] + ('*',)
        return (('D', v),)

    def path(self, st, fr, p):
        cur = (('L', fr.id, p[0]),)
        for e in p[1:]:
            if e == '*':
                v = self.readv(st, cur)
                cur = self.deref(st, v)
            elif e[0] == 'f':
                cur = cur + (('f', e[1]),)
            elif e[0] == 'i':
                cur = cur + (('i', self.readv(st, (('L', fr.id, e[1]),))),)
            elif e[0] == 'ci':
                cur = cur + (('i', ('c', e[1]) if not e[2] else ('fromend', e[1])),)
            elif e[0] == 'd':
                cur = cur + (('d', e[1]),)
            elif e[0] == 'sub':
                cur = cur + (('sub', tuple(e[1:])),)
        return cur

    def readv(self, st, path):
        if path[0][0] == 'V':
            v = path[0][1]
            for pr in path[1:]:
                v = self.project(v, pr)
            return v
        return self.read(st, path)

    def operand(self, st, fr, o):
        if 'cp' in o or 'mv' in o:
            return self.readv(st, self.path(st, fr, o.get('cp') or o.get('mv')))
        if 'c' in o:
            return self.const(fr, o['c'])
        if 'fn' in o:
            f = o['fn']
            return ('fnptr', f.get('rid') or f['id'], f['name'])
        return ('c', True) if o.get('rt') is not None else ('top',)

    def const(self, fr, c):
        if 'prom' in c:
            return ('ref', (('PROM', fr.fn.id, c['prom']),)) if False else self.promref(fr, c['prom'])
        if 'v' in c:
            v = c['v']
            if isinstance(v, str) and self.M.ty(c['t'])[0] == 'prim' and self.M.ty(c['t'])[1] in ('f32', 'f64'):
                try:
                    v = float(v)
                except ValueError:
                    pass
            return ('c', v)
        if c.get('p'):
            a = tuple(self.M.subst(self.M.garg(x), fr.subst) for x in c.get('a', []))
            return ('nc', c['p'], a)
        if c.get('z'):
            t = self.M.subst(self.M.ty(c['t']), fr.subst)
            return ('zst', t)
        if 's' in c:
            return ('c', c['s'])
        return ('top',)

    def promref(self, fr, i):
        v = self.promoted(('PROM', fr.fn.id, i))
        if v[0] == 'refval':
            return v
        return v

    # ------------------------------------------------------------ rvalues
    def binop(self, op, a, b):
        if op.endswith('WithOverflow'):
            o = op[:-len('WithOverflow')]
            return ('agg', 'tuple', None, 0, (('0', self.binop(o, a, b)), ('1', ('c', False))))
        if op.endswith('Unchecked'):
            op = op[:-len('Unchecked')]
        if a[0] == 'c' and b[0] == 'c' and isinstance(a[1], int) and isinstance(b[1], int) and not isinstance(a[1], bool):
            try:
                r = {'Add': lambda x, y: x + y, 'Sub': lambda x, y: x - y, 'Mul': lambda x, y: x * y,
                     'Shl': lambda x, y: x << y, 'Shr': lambda x, y: x >> y, 'BitAnd': lambda x, y: x & y,
                     'BitOr': lambda x, y: x | y, 'BitXor': lambda x, y: x ^ y,
                     'Div': lambda x, y: x // y, 'Rem': lambda x, y: x % y,
                     'Eq': lambda x, y: x == y, 'Ne': lambda x, y: x != y, 'Lt': lambda x, y: x < y,
                     'Le': lambda x, y: x <= y, 'Gt': lambda x, y: x > y, 'Ge': lambda x, y: x >= y}.get(op)
                if r:
                    v = r(a[1], b[1])
                    if isinstance(v, bool) or v >= 0:
                        return ('c', v)
            except Exception:
                pass
        if op in ('Add', 'Mul', 'BitAnd', 'BitOr', 'BitXor', 'Eq', 'Ne') and repr(b) < repr(a):
            a, b = b, a
        return ('bin', op, a, b)

    def rvalue(self, st, fr, r, dst):
        k = r[0]
        if k == 'use':
            o = r[1]
            if 'cp' in o and len(o['cp']) > 1 and hasattr(fr, 'stack'):
                # a "copy" of a Box is a deref temporary: remember the place of the box
                e = o['cp'][-1]
                if isinstance(e, list) and e[0] == 'f' and self.isbox(e[2]) or e == '*':
                    t = self.F.placety(fr, o['cp'])
                    if t[0] == 'adt' and t[1] == 'std::boxed::Box':
                        return ('boxat', self.path(st, fr, o['cp']))
            return self.operand(st, fr, o)
        if k in ('ref', 'rawptr'):
            p = self.path(st, fr, r[2] if k == 'ref' else r[-1])
            if len(p) == 1 and p[0][0] == 'D':
                return p[0][1]
            if len(p) == 1 and p[0][0] == 'V':
                return ('refval', p[0][1])
            if p[0][0] == 'V':
                return ('refval', self.readv(st, p))
            return ('ref', p)
        if k == 'bin':
            return self.binop(r[1], self.operand(st, fr, r[2]), self.operand(st, fr, r[3]))
        if k == 'un':
            a = self.operand(st, fr, r[2])
            if r[1] == 'Not' and a[0] == 'c' and isinstance(a[1], bool):
                return ('c', not a[1])
            if r[1] == 'Not' and a[0] == 'un' and a[1] == 'Not':
                return a[2]
            if r[1] == 'PtrMetadata' and a[0] == 'ref':
                return ('len', a[1])
            return ('un', r[1], a)
        if k == 'agg':
            kind = r[1]
            ops = [self.operand(st, fr, o) for o in r[2]]
            if kind[0] == 'adt':
                names = r[3] if len(r) > 3 and r[3] else [str(i) for i in range(len(ops))]
                return ('agg', kind[1], kind[2], kind[3], tuple(zip(names, ops)))
            if kind[0] == 'closure':
                return ('agg', 'closure', kind[1] if len(kind) > 1 else None, 0, tuple((str(i), o) for i, o in enumerate(ops)))
            return ('agg', kind[0], None, 0, tuple((str(i), o) for i, o in enumerate(ops)))
        if k == 'cast':
            if 'BoxDeref' in r[1]:
                p = r[2].get('cp') or r[2].get('mv')
                # operand is place box.0 : strip field projections of the Box representation
                q = list(p)
                while len(q) > 1 and isinstance(q[-1], list) and q[-1][0] == 'f' and q[-1][1] in ('0', 'pointer'):
                    q = q[:-1]
                bp = self.path(st, fr, q)
                v = self.readv(st, bp)
                if v[0] == 'boxat':
                    return ('ref', v[1] + ('*',))
                if v[0] == 'mem':
                    return ('ref', v[1] + ('*',))
                if v[0] == 'agg' and v[1] == 'box':
                    return ('ref', bp + ('*',))
                if v[0] in ('pj', 'call', 'pure', 'phi', 'arg'):
                    return ('ref', (('D', v), '*'))
                return ('ref', bp + ('*',))
            a = self.operand(st, fr, r[2])
            if r[1].startswith('Pointer') or r[1].startswith('PtrToPtr'):
                return a
            if 'Transmute' in r[1] and a[0] == 'ref':
                return a
            t = self.M.subst(self.M.ty(r[3]), fr.subst)
            if a[0] == 'c' and isinstance(a[1], int) and r[1] == 'IntToInt':
                return a
            return ('cast', r[1], a, t)
        if k == 'discr':
            p = self.path(st, fr, r[1])
            v = self.readv(st, p)
            if v[0] == 'agg':
                return ('c', v[3])
            if v[0] == 'ovr' and v[1][0] == 'agg':
                return ('c', v[1][3])
            return ('discr', v)
        if k == 'repeat':
            return ('repeat', self.operand(st, fr, r[1]), r[2])
        if k == 'len':
            return ('len', self.path(st, fr, r[1]))
        return ('top', k, self.cur)

    def isbox(self, ti):
        c = self.__dict__.setdefault('_box', {})
        if ti not in c:
            t = self.M.ty(ti)
            c[ti] = t[0] in ('adt', 'param', 'alias') and (t[0] != 'adt' or t[1] == 'std::boxed::Box')
        return c[ti]

    # ------------------------------------------------------------ calls
    def pointee(self, v):
        """path pointed to by v, or None"""
        if v[0] == 'ref':
            return v[1]
        return None

    def iterof(self, st, v):
        """iterator term for value v given to into_iter/iter"""
        if v[0] == 'iter':
            return v
        if v[0] == 'agg' and v[1] and 'Range' in str(v[1]):
            d = dict(v[4])
            return ('iter', 'range', d.get('start', ('c', 0)), d.get('end', ('inf',)), 'incl' if 'Inclusive' in v[1] else 'excl')
        if v[0] == 'pure' and v[1].endswith('RangeInclusive::<Idx>::new'):
            return ('iter', 'range', v[3][0], v[3][1], 'incl')
        if v[0] == 'ref':
            return ('iter', 'refs', v[1])
        return ('iter', 'vals', v)

    def elemof(self, it, site, k=()):
        """element term of iterator `it` for loop `site`"""
        kind = it[1]
        if kind == 'range':
            return ('elem', site, k)
        if kind == 'refs':
            return ('ref', it[2] + (('i', ('elem', site, k)),))
        if kind == 'zip':
            return ('agg', 'tuple', None, 0, (('0', self.elemof(it[2], site, k + (0,))), ('1', self.elemof(it[3], site, k + (1,)))))
        if kind == 'enum':
            return ('agg', 'tuple', None, 0, (('0', ('elem', site, k + ('n',))), ('1', self.elemof(it[2], site, k))))
        if kind in ('rev', 'skip', 'take', 'stepby', 'copied', 'takewhile', 'chain', 'slice', 'filter', 'chunks', 'peek'):
            e = self.elemof(it[2], site, k)
            return e
        if kind == 'copied':
            return self.elemof(it[2], site, k)
        if kind == 'map':
            return ('mapped', it[3], site)
        return ('elem', site, k)

    PURE_DEREF = ('Deref::deref', 'DerefMut::deref_mut', 'AsRef::as_ref', 'AsMut::as_mut', 'Borrow::borrow', 'BorrowMut::borrow_mut',
                  '::as_slice', '::as_mut_slice', '::as_array_ref', '::as_array_mut', '::as_array', '::as_ptr', '::as_mut_ptr', '::as_mut_array')
    SAME = ('Into::into', 'convert::From::from', 'hint::must_use', 'TryInto::try_into', 'Iterator::by_ref', 'ToOwned::to_owned', 'hint::black_box')

    def callval(self, st, c, args):
        """value of an external/opaque call; performs effects on st.  Returns (value, opaque?)"""
        n = c.name
        m = c.m or lastname(n)
        a0 = args[0] if args else None
        site = c.site
        # pointers / containers
        if n.endswith(self.PURE_DEREF) or (m in ('as_slice', 'as_mut_slice', 'as_array', 'as_ptr', 'as_mut_ptr')):
            if a0[0] in ('ref', 'refval'):
                at = c.argtys[0]
                # Box deref
                if at[0] == 'ref' and at[2][0] == 'adt' and at[2][1] == 'std::boxed::Box' and a0[0] == 'ref':
                    return ('ref', a0[1] + ('*',)), False
                if at[0] == 'ref' and at[2][0] == 'adt' and at[2][1] in ('std::sync::Arc', 'std::rc::Rc') and a0[0] == 'ref':
                    return ('ref', (('D', ('arc', self.read(st, a0[1]))),)), False
                if 'Option' in c.rname and a0[0] == 'ref':
                    return ('optref', a0[1]), False
                return a0, False
            return ('pure', 'deref', (), (a0,)), False
        if n.endswith(('ops::Index::index', 'ops::IndexMut::index_mut')) or n.endswith(('::get_unchecked', '::get_unchecked_mut')):
            ix = args[1]
            if a0[0] == 'ref':
                if ix[0] == 'agg' and 'Range' in str(ix[1]):
                    d = dict(ix[4])
                    lo = d.get('start', ('c', 0))
                    hi = d.get('end', ('len', a0[1]))
                    if 'Inclusive' in str(ix[1]):
                        hi = self.binop('Add', hi, ('c', 1))
                    if 'RangeFull' in str(ix[1]):
                        return a0, False
                    return ('ref', a0[1] + (('sub', (lo, hi)),)), False
                if ix[0] == 'ref':     # map lookup by reference
                    ix = self.read(st, ix[1])
                if ix[0] == 'zst':   # RangeFull
                    return a0, False
                return ('ref', a0[1] + (('i', ix),)), False
            if a0[0] == 'refval':
                return ('refval', self.project(a0[1], ('i', ix))), False
            return ('pure', 'index', (), (a0, ix)), False
        if m in ('len',) and a0 and a0[0] == 'ref':
            return ('len', a0[1]), False
        if m == 'is_empty' and a0 and a0[0] == 'ref':
            return ('bin', 'Eq', ('c', 0), ('len', a0[1])), False
        if m in ('get', 'get_mut', 'first', 'first_mut', 'last', 'last_mut', 'peek', 'peek_mut') and a0 and a0[0] == 'ref':
            ix = args[1] if len(args) > 1 else ('c', m)
            if ix[0] == 'ref':
                ix = self.read(st, ix[1])
            if ix[0] == 'agg' and 'Range' in str(ix[1]):
                d = dict(ix[4])
                return ('optn', site, ('ref', a0[1] + (('sub', (d.get('start', ('c', 0)), d.get('end', ('len', a0[1])))),))), False
            return ('optn', site, ('ref', a0[1] + (('i', ix),))), False
        if m in ('as_mut', 'as_ref', 'as_deref', 'as_deref_mut') and a0 and a0[0] == 'ref':
            p = a0[1] + (('d', 'Some'), ('f', '0'))
            at = c.argtys[0]
            if m.startswith('as_deref'):
                p = p + ('*',)
            return ('optref', a0[1], ('ref', p)), False
        if m in ('unwrap', 'expect', 'unwrap_or', 'unwrap_or_default', 'unwrap_unchecked', 'unwrap_or_else') and ('Option' in n or 'Result' in n):
            if a0[0] == 'agg' and a0[4]:
                return a0[4][0][1], False
            if a0[0] in ('optn', 'optref'):
                return a0[2], False
            if a0[0] == 'pure' or a0[0] == 'cast':   # try_into
                pass
            v = self.project(self.project(a0, ('d', 'Some' if 'Option' in n else 'Ok')), ('f', '0'))
            return v, False
        if m in ('is_some', 'is_none', 'is_ok', 'is_err'):
            v = a0
            if a0[0] == 'ref':
                v = self.read(st, a0[1])
            return ('pure', m, (), (v,)), False
        # iteration
        if m in ('iter', 'iter_mut', 'into_iter') :
            if m == 'into_iter' and n.endswith('IntoIterator::into_iter') or n.endswith(('::iter', '::iter_mut')):
                return self.iterof(st, a0), False
        if m in ('drain', 'chunks', 'chunks_mut', 'chunks_exact', 'chunks_exact_mut', 'windows') and a0[0] == 'ref':
            return ('iter', 'chunks', ('iter', 'refs', a0[1]), args[1] if len(args) > 1 else None), (m == 'drain')
        if c.trait == 'std::iter::Iterator' or n.startswith('std::iter::Iterator::') or 'DoubleEndedIterator' in n:
            if m == 'next' or m == 'next_back':
                it = None
                if a0[0] == 'ref':
                    it = self.read(st, a0[1])
                if it is not None and it[0] != 'iter':
                    it = self.iterof(st, it)
                if it is None:
                    it = ('iter', 'vals', a0)
                self.elem[site] = it
                return ('optn', site, self.elemof(it, site)), False
            it = a0 if a0[0] == 'iter' else self.iterof(st, a0)
            if m == 'zip':
                return ('iter', 'zip', it, self.iterof(st, args[1])), False
            if m == 'enumerate':
                return ('iter', 'enum', it), False
            if m == 'rev':
                return ('iter', 'rev', it), False
            if m in ('skip', 'take', 'step_by'):
                return ('iter', {'step_by': 'stepby'}.get(m, m), it, args[1]), False
            if m in ('copied', 'cloned'):
                return ('iter', 'copied', it), False
            if m in ('chain',):
                return ('iter', 'chain', it, args[1]), False
            if m in ('take_while', 'skip_while', 'filter', 'filter_map', 'map_while'):
                return ('iter', 'filter', it, ('c', m)), False
            if m == 'map':
                return ('iter', 'map', it, site), False
            if m == 'by_ref':
                return a0, False
        if n.endswith('Clone::clone'):
            if a0[0] == 'ref':
                return self.clonev(self.read(st, a0[1])), False
            if a0[0] == 'refval':
                return a0[1], False
            return ('pure', 'clone', (), (a0,)), False
        if n.endswith('Default::default'):
            t = c.targs[0] if c.targs else c.destty
            if t[0] == 'prim':
                return ('c', 0.0 if t[1] in ('f32', 'f64') else False if t[1] == 'bool' else 0), False
            return ('pure', 'default', (t,), ()), False
        if n.endswith(self.SAME) and len(args) == 1:
            if n.endswith('TryInto::try_into'):
                return ('agg', 'std::result::Result', 'Ok', 0, (('0', a0),)), False
            tt = c.argtys[0]
            if tt[0] == 'prim' and c.destty[0] == 'prim' and tt != c.destty:
                return ('cast', 'From', a0, c.destty), False
            if n.endswith(('Into::into', 'From::from')) and c.destty != tt and not (tt[0] in ('ref',) ) and c.destty[0] == 'adt':
                return ('pure', 'into', (c.destty,), (a0,)), False
            return a0, False
        ops = {'std::ops::Add::add': 'Add', 'std::ops::Sub::sub': 'Sub', 'std::ops::Mul::mul': 'Mul', 'std::ops::Div::div': 'Div',
               'std::ops::Rem::rem': 'Rem', 'std::ops::BitAnd::bitand': 'BitAnd', 'std::ops::BitOr::bitor': 'BitOr',
               'std::ops::BitXor::bitxor': 'BitXor', 'std::ops::Shl::shl': 'Shl', 'std::ops::Shr::shr': 'Shr'}
        if n in ops and len(args) == 2:
            if any(t[0] == 'adt' and t[1] in ('combinator::An', 'net::Net') for t in c.argtys):
                return ('bin', ops[n], self.val(st, args[0]), self.val(st, args[1]), 'graph'), False    # operand order matters
            return self.binop(ops[n], self.val(st, args[0]), self.val(st, args[1])), False
        if n == 'std::ops::Neg::neg':
            return ('un', 'Neg', self.val(st, a0)), False
        if n == 'std::ops::Not::not':
            return ('un', 'Not', self.val(st, a0)), False
        cmp = {'std::cmp::PartialEq::eq': 'Eq', 'std::cmp::PartialEq::ne': 'Ne', 'std::cmp::PartialOrd::lt': 'Lt',
               'std::cmp::PartialOrd::le': 'Le', 'std::cmp::PartialOrd::gt': 'Gt', 'std::cmp::PartialOrd::ge': 'Ge'}
        if n in cmp:
            return self.binop(cmp[n], self.val(st, self.val(st, args[0])), self.val(st, self.val(st, args[1]))), False
        asg = {'AddAssign::add_assign': 'Add', 'SubAssign::sub_assign': 'Sub', 'MulAssign::mul_assign': 'Mul', 'DivAssign::div_assign': 'Div',
               'BitAndAssign::bitand_assign': 'BitAnd', 'BitOrAssign::bitor_assign': 'BitOr', 'BitXorAssign::bitxor_assign': 'BitXor',
               'RemAssign::rem_assign': 'Rem', 'ShrAssign::shr_assign': 'Shr', 'ShlAssign::shl_assign': 'Shl'}
        for suf, op in asg.items():
            if n.endswith(suf) and a0[0] == 'ref':
                v = self.binop(op, self.read(st, a0[1]), self.val(st, args[1]))
                self.ev_write(st, a0[1], v, c)
                return ('unit',), False
        if n.endswith('Num::zero') or n.endswith('Zero::zero'):
            return ('c', 0), False
        if n.endswith('Num::one') or n.endswith('One::one'):
            return ('c', 1), False
        if n.endswith(('Num::new', 'Num::from_f32', 'Num::from_f64', 'Float::from_float', 'Float::to_f32', 'Float::to_f64')) and len(args) == 1:
            return ('conv', self.num(a0)), False
        if n.endswith('::splat') and len(args) == 1:
            return ('splat', a0), False
        if n in ('core::num::<impl usize>::wrapping_add', 'core::num::<impl u32>::wrapping_add', 'core::num::<impl u64>::wrapping_add'):
            return self.binop('Add', args[0], args[1]), False
        if n.endswith('::wrapping_sub'):
            return ('bin', 'WSub', args[0], args[1]), False
        if n == 'std::mem::swap' and args[0][0] == 'ref' and args[1][0] == 'ref':
            x, y = self.read(st, args[0][1]), self.read(st, args[1][1])
            self.ev_write(st, args[0][1], y, c)
            self.ev_write(st, args[1][1], x, c)
            return ('unit',), False
        if n in ('std::mem::replace', 'std::mem::take') or (m == 'replace' and 'Option' in n) or (m == 'take' and 'Option' in n) or (m == 'insert' and 'Option' in n):
            if a0[0] == 'ref':
                x = self.read(st, a0[1])
                if m == 'take':
                    y = ('agg', 'std::option::Option', 'None', 0, ()) if 'Option' in n else ('pure', 'default', (c.targs[0] if c.targs else None,), ())
                elif 'Option' in n:
                    y = ('agg', 'std::option::Option', 'Some', 1, (('0', args[1]),))
                else:
                    y = args[1]
                self.ev_write(st, a0[1], y, c)
                if m == 'insert':
                    return ('ref', a0[1] + (('d', 'Some'), ('f', '0'))), False
                return x, False
        if n == 'std::clone::Clone::clone_from' and args[0][0] == 'ref' and args[1][0] == 'ref':
            self.ev_write(st, args[0][1], self.read(st, args[1][1]), c)
            return ('unit',), False
        if n == 'std::mem::drop' or n == 'std::mem::forget':
            return ('unit',), False
        if n.endswith('slice::<impl [T]>::fill') and a0[0] == 'ref':
            self.ev_fill(st, a0[1], args[1], c)
            return ('unit',), False
        if n.endswith('Try::branch'):
            return ('pure', 'branch', (), (a0,)), False
        if n.endswith('Box::<T>::new'):
            return ('agg', 'box', None, 0, (('*', a0),)), False
        if n in ('std::cmp::min', 'std::cmp::max') or m in ('min', 'max') and len(args) == 2:
            x, y = args
            if repr(y) < repr(x):
                x, y = y, x
            return ('pure', m, (), (x, y)), False
        if n.endswith(('slice::from_raw_parts', 'slice::from_raw_parts_mut')):
            return ('pure', 'rawslice', (), tuple(args)), False
        return None, True

    def num(self, a):
        if a[0] == 'conv':
            return a[1]
        return a

    def val(self, st, v):
        if v[0] == 'ref':
            return self.read(st, v[1])
        if v[0] == 'refval':
            return v[1]
        return v

    def clonev(self, v):
        return v

    def mutable_args(self, c, args):
        for i, (t, a) in enumerate(zip(c.argtys, args)):
            if t[0] in ('ref', 'ptr') and t[1] and a[0] in ('ref', 'optref'):
                yield i, a[1]
            elif a[0] == 'agg':
                # aggregates (e.g. closures / tuples) carrying mutable references
                yield from self.agg_refs(i, a)
            elif t[0] == 'adt' and a[0] == 'ref':
                yield i, a[1]

    def agg_refs(self, i, a):
        for _, v in a[4]:
            if v[0] == 'ref':
                yield i, v[1]
            elif v[0] == 'agg':
                yield from self.agg_refs(i, v)

    # ------------------------------------------------------------ events
    def emit(self, kind, **kw):
        if not self.recording:
            return
        e = Event()
        e.kind = kind
        e.blk = self.curblk
        e.path = kw.get('path'); e.val = kw.get('val'); e.call = kw.get('call'); e.args = kw.get('args')
        e.line = kw.get('line'); e.extra = kw.get('extra'); e.snap = kw.get('snap')
        fr = kw.get('frame')
        e.frame = fr
        e.fn = fr.fn.id if fr is not None and hasattr(fr, 'fn') else None
        e.idx = len(self.events)
        self.events.append(e)
        self.bevents.setdefault(self.curblk, []).append(e)

    def ev_write(self, st, path, val, c):
        self.emit('write', path=path, val=val, line=c.line, frame=c.frame, call=c)
        self.write(st, path, val)

    def ev_fill(self, st, path, val, c):
        self.emit('fill', path=path, val=val, line=c.line, frame=c.frame, call=c)
        p = path
        if p and isinstance(p[-1], tuple) and p[-1][0] == 'sub':
            self.havoc(st, p[:-1], c.site)
        else:
            self.write(st, p, ('repeat', val, None))

    # ------------------------------------------------------------ driver
    def transfer(self, bi, st):
        F = self.F
        b = F.blocks[bi]
        self.curblk = bi
        si = 0
        for s in b.stmts:
            si += 1
            self.cur = (bi, si)
            k = s[0]
            if k == '=':
                _, df, place, sf, rv, line = s
                v = self.rvalue(st, sf, rv, None)
                p = self.path(st, df, place)
                if p[0][0] != 'V':
                    if p[0][0] in ('P', 'D') or self.local or self.recording and self.escaped(p):
                        self.emit('write', path=p, val=v, line=line, frame=sf)
                    self.write(st, p, v)
            elif k == 'dead':
                p = (('L', s[1].id, s[2]),)
                # keep: references may point into it only while alive
                for q in [q for q in st if q[0] == p[0]]:
                    del st[q]
            elif k == 'sd':
                pass
            elif k == 'hobegin':
                c = s[2]
                args = [self.operand(st, c.frame, a) for a in c.args]
                self.emit('ho', call=c, args=args, line=c.line, frame=c.frame)
                st[(('HO', c.site),)] = ('agg', 'tuple', None, 0, tuple((str(i), a) for i, a in enumerate(args)))
            elif k == 'hoarg':
                _, nf, loc, c, i, m = s
                hv = st.get((('HO', c.site),), BOT)
                a0 = self.project(hv, ('f', '0')) if hv != BOT else BOT
                if m == 'elem':
                    src = self.project(hv, ('f', str(0 if i == 0 or 'fold' in c.name else i)))
                    it = src if src[0] == 'iter' else self.iterof(st, src)
                    self.elem[c.site] = it
                    v = self.elemof(it, c.site)
                elif m == 'elemref':
                    src = self.project(hv, ('f', '0'))
                    it = src if src[0] == 'iter' else self.iterof(st, src)
                    self.elem[c.site] = it
                    v = self.elemof(it, c.site)
                elif m == 'idx':
                    t = c.destty
                    self.elem[c.site] = ('iter', 'range', ('c', 0), ('alen', t), 'excl')
                    v = ('elem', c.site, ())
                elif m == 'pay':
                    if a0[0] in ('optn', 'optref'):
                        v = a0[2] if len(a0) > 2 else ('pj', a0, ('f', '0'))
                    else:
                        v = self.project(self.project(a0, ('d', 'Some')), ('f', '0'))
                else:
                    v = ('hoarg', c.site, i)
                self.write(st, (('L', nf.id, loc),), v)
            elif k == 'horet':
                _, c, nf = s
                v = st.get((('L', nf.id, 0),), BOT)
                v = self.read(st, (('L', nf.id, 0),))
                self.genbody[c.site] = v
            elif k == 'hoend':
                _, c, fr = s
                hv = st.pop((('HO', c.site),), BOT)
                m = c.m or lastname(c.name)
                if m in ('generate', 'from_fn'):
                    v = ('gen', c.site)
                elif m == 'map' and 'Iterator' in c.name:
                    src = self.project(hv, ('f', '0'))
                    it = src if src[0] == 'iter' else self.iterof(st, src)
                    v = ('iter', 'map', it, c.site)
                elif m == 'map' and 'Option' in c.name:
                    v = ('optn', c.site, ('horet', c.site))
                else:
                    ar = tuple(v for _, v in hv[4]) if hv[0] == 'agg' else ()
                    v = ('call', c.site, c.name, ar)
                self.write(st, self.path(st, fr, c.dest), v)
        self.cur = (bi, 't')
        t = b.term
        if t[0] == 'call':
            c = t[1]
            fr = c.frame
            args = [self.operand(st, fr, a) for a in c.args]
            snap = tuple(self.snap(st, a) for a in args) if self.recording else None
            v, opaque = self.callval(st, c, args)
            self.emit('call', call=c, args=args, line=c.line, frame=fr, val=v, extra=opaque, snap=snap)
            if opaque:
                muts = list(self.mutable_args(c, args))
                for i, p in muts:
                    if p[0][0] != 'V':
                        self.havoc(st, p, c.site)
                if v is None:
                    if muts or c.dyn:
                        v = ('call', c.site, c.name, tuple(args))
                    else:
                        v = ('pure', c.rname, tuple(c.targs), tuple(self.snap(st, a) for a in args))
            dp = self.path(st, fr, c.dest)
            if dp[0][0] in ('P', 'D') or self.local:
                self.emit('write', path=dp, val=v, line=c.line, frame=fr, call=c)
            self.write(st, dp, v)
        elif t[0] == 'drop':
            p = self.path(st, t[1], t[2])
            self.emit('drop', path=p, val=self.readv(st, p), line=t[6], frame=t[1], extra=(t[4], t[5], t[7]))
        elif t[0] == 'switch':
            self.emit('switch', val=self.operand(st, t[1], t[2]), line=t[5], frame=t[1])
        elif t[0] == 'assert':
            self.emit('assert', val=self.operand(st, t[1], t[2]), line=t[6], frame=t[1], extra=(t[3], t[5]))
        elif t[0] == 'return':
            self.emit('return', val=self.read(st, (('L', F.rootframe.id, 0),)), frame=F.rootframe)
        return st

    def snap(self, st, a):
        """value snapshot for pure calls: replace references by content"""
        if a[0] == 'ref':
            return ('at', a[1], self.read(st, a[1]))
        return a

    def escaped(self, p):
        return False

    def order(self):
        F = self.F
        seen = set()
        post = []
        stack = [(F.entry, iter(F.succs(F.entry)))]
        seen.add(F.entry)
        while stack:
            n, it = stack[-1]
            for s in it:
                if s not in seen:
                    seen.add(s)
                    stack.append((s, iter(F.succs(s))))
                    break
            else:
                post.append(n)
                stack.pop()
        post.reverse()
        return post

    def run(self, st0):
        F = self.F
        self.recording = False
        self.events = []
        self.bevents = {}
        rpo = self.order()
        self.rpo = rpo
        pos = {b: i for i, b in enumerate(rpo)}
        preds = {b: [] for b in rpo}
        for b in rpo:
            for s in F.succs(b):
                preds[s].append(b)
        self.preds = preds
        out = {}
        rounds = 0
        changed = set(rpo)
        ins = {}
        import heapq
        heap = [0]
        inq = {0}
        visits = {}
        while heap:
            i = heapq.heappop(heap)
            inq.discard(i)
            b = rpo[i]
            visits[b] = visits.get(b, 0) + 1
            if visits[b] > 80:
                self.incomplete = True
                continue
            st = self.merge(b, [(p, out[p]) for p in preds[b] if p in out], st0 if b == F.entry else None)
            if b in ins and ins[b] == st and b in out:
                continue
            ins[b] = st
            o = self.transfer(b, dict(st))
            if out.get(b) != o or b not in out:
                out[b] = o
                for s in F.succs(b):
                    if pos[s] not in inq:
                        inq.add(pos[s])
                        heapq.heappush(heap, pos[s])
        self.ins = ins
        self.out = out
        self.recording = True
        for b in rpo:
            if b in ins:
                self.transfer(b, dict(ins[b]))
        self.recording = False

    def merge(self, b, plist, init):
        sts = [(p, s) for p, s in plist]
        if init is not None:
            sts.append((-1, init))
        if len(sts) == 1 and len(self.preds[b]) <= 1:
            return dict(sts[0][1])
        keys = set()
        for _, s in sts:
            keys.update(s)
        # parents first
        res = {}
        for k in sorted(keys, key=len):
            if k[0][0] == 'HO':
                for _, s in sts:
                    if k in s:
                        res[k] = s[k]
                continue
            vals = []
            for p, s in sts:
                v = self.read_nof(s, k)
                vals.append((p, v))
            nb = [(p, v) for p, v in vals if v != BOT]
            pk = (b, k)
            if pk in self.phis:
                d = self.phis[pk]
                for p, v in nb:
                    d[p] = v
                res[k] = ('phi', b, k)
                continue
            vs = {v for _, v in nb}
            if len(vs) == 0:
                continue
            if len(vs) == 1:
                v = next(iter(vs))
                res[k] = v
                continue
            self.phis[pk] = dict(nb)
            res[k] = ('phi', b, k)
        return res

    def read_nof(self, st, path):
        """read without building overrides for finer keys"""
        n = len(path)
        for k in range(n, 0, -1):
            v = st.get(path[:k])
            if v is not None:
                for pr in path[k:]:
                    v = self.project(v, pr)
                return v
        r = path[0]
        if r[0] == 'L':
            return BOT
        return ('mem', path, 0)

    # ------------------------------------------------------------ queries on terms
    def operands(self, t):
        """phi operands"""
        if t[0] == 'phi':
            return list(self.phis.get((t[1], t[2]), {}).values())
        return []

    def deps(self, t, seen=None):
        """all sub-terms reachable from t through phis, closures' results and projections"""
        if seen is None:
            seen = set()
        stack = [t]
        while stack:
            x = stack.pop()
            if not isinstance(x, tuple) or not x:
                continue
            if x in seen:
                continue
            seen.add(x)
            if x[0] == 'phi' and len(x) == 3:
                stack.extend(self.operands(x))
                continue
            if x[0] == 'gen' and len(x) == 2:
                g = self.genbody.get(x[1])
                if g:
                    stack.append(g)
                continue
            if x[0] in ('horet', 'mapped'):
                g = self.genbody.get(x[1])
                if g:
                    stack.append(g)
                continue
            for y in x:
                if isinstance(y, tuple):
                    stack.append(y)
        return seen
